// Small combinatorial models for the exhaustive checks, each with its own plain reference.
//
// One state type serves every model, so each DD type (sense x label type) is instantiated once;
// the model's callbacks go through the global pointer M.  The reference never uses library code:
// it enumerates every label sequence from the exact transition function.
#pragma once
#include <cstdint>
#include <cmath>
#include <cstring>
#include <vector>
#include <string>
#include <sstream>
#include <optional>
#include <functional>
#include <algorithm>
#include <memory>
#include "dd.hpp"
#include "util.hpp"
#include "search.hpp"

#ifdef VF_FATSTATE
// Part of a state that owns memory, as the states of real models do. Using it after it was destroyed, moved from
// or overwritten is noticed here (or by the sanitizer).
inline void (*gFatBad)() = [] { __builtin_trap();};
struct Fat {
   uint64_t* p;
   static constexpr uint64_t K=0x5afe57a7e5afe57aull;
   Fat() : p(new uint64_t[2]{K,(uint64_t)(uintptr_t)0}) { p[1]=(uint64_t)(uintptr_t)p;}
   Fat(const Fat& f) : Fat() { f.chk();}
   Fat(Fat&& f) noexcept : p(f.p) { f.p=nullptr; chk();}
   Fat& operator=(const Fat& f) { f.chk(); if (p==nullptr) { p=new uint64_t[2]{K,0}; p[1]=(uint64_t)(uintptr_t)p;} return *this;}
   Fat& operator=(Fat&& f) noexcept { f.chk(); if (this!=&f) { delete[] p; p=f.p; f.p=nullptr;} return *this;}
   ~Fat() { if (p) { chk(); p[0]=0; delete[] p;}}
   void chk() const { if (!p || p[0]!=K || p[1]!=(uint64_t)(uintptr_t)p) gFatBad();}
};
#endif
struct S {
   int d = 0;              // depth / position
   uint64_t x = 0, y = 0;  // whatever the model needs
#ifdef VF_FATSTATE
   Fat f {};
#endif
   void chk() const {
#ifdef VF_FATSTATE
      f.chk();
#endif
   }
   friend std::ostream& operator<<(std::ostream& os,const S& s) {
      return os << "<" << s.d << "," << s.x << "," << s.y << ">";
   }
   friend bool operator==(const S& a,const S& b) { a.chk(); b.chk(); return a.d==b.d && a.x==b.x && a.y==b.y;}
   friend bool operator<(const S& a,const S& b) {
      return std::tie(a.d,a.x,a.y) < std::tie(b.d,b.x,b.y);
   }
};
extern int gHashMode;   // 0: good hash, 1: depth only, 2: constant (every state collides)
template<> struct std::hash<S> {
   std::size_t operator()(const S& s) const noexcept {
      s.chk();
      switch(gHashMode) {
         case 1:  return s.d;
         case 2:  return 7;
         default: return (std::size_t)s.d * 1000003u ^ s.x * 10007u ^ (s.y << 7) ^ s.y;
      }
   }
};

struct Model {
   bool maximize = true;
   std::string desc;
   virtual ~Model() {}
   virtual S init() const = 0;
   virtual S target() const = 0;
   virtual uint64_t labels(const S&) const = 0;              // mask of the labels offered in a state
   virtual bool live() const { return false;}                // the labels depend on the primal value of a search
   virtual uint64_t labelsNow(const S& s,double) const { return labels(s);} // those that may still improve on it
   virtual std::optional<S> step(const S&,int l) const = 0;
   virtual double cost(const S&,int l) const = 0;
   virtual std::optional<S> merge(const S&,const S&) const = 0;
   virtual bool sink(const S& s) const { return s == target();}
   virtual bool hasLocal() const { return false;}
   virtual double local(const S&,bool /*bb*/) const { return 0;}
   virtual bool hasDom() const { return false;}
   virtual bool dominates(const S&,const S&) const { return false;}
   virtual int nbLabels() const = 0;
   virtual bool offers(const S& s,int l) const { return l>=0 && l<64 && (labels(s) >> l & 1);}
   virtual int nbLabelsAt(const S&) const { return nbLabels();}  // labels of this state are below
   virtual bool manyLabels() const { return false;}          // more labels than a mask holds: only offers() is right
   virtual bool totalMerge() const { return true;}           // any two states of a depth merge
   virtual bool layered() const { return true;}              // a state determines how many decisions led to it
   virtual std::string show() const { return desc;}
   bool better(double a,double b) const { return maximize ? a > b : a < b;}
   bool betterEQ(double a,double b) const { return maximize ? a >= b : a <= b;}
   double none() const { return maximize ? -2147483647.0 : 2147483647.0;}
};
extern const Model* M;

// ---------------------------------------------------------------------------------------------
// Reference: every label sequence from a state to the sink, with its value.
struct Sol { std::vector<int> l; double v; };
inline void allSolutions(const Model& m,const S& s,std::vector<int>& pfx,double acc,std::vector<Sol>& out,
                         std::size_t cap=200000)
{
   if (m.sink(s)) { out.push_back({pfx,acc});return;}
   uint64_t ls = m.labels(s);
   for(int l=0;l<64;l++) if (ls >> l & 1) {
      auto n = m.step(s,l);
      if (!n) continue;
      pfx.push_back(l);
      allSolutions(m,*n,pfx,acc + m.cost(s,l),out,cap);
      pfx.pop_back();
      if (out.size() > cap) { fprintf(stderr,"reference: too many solutions\n"); _exit(3);}
   }
}
struct Reference {
   std::vector<Sol> sols;
   bool feasible = false;
   double opt = 0;
   uint64_t cnt = 0, sg = 0;   // number of solutions (or of exact states and arcs, for large instances), fingerprint of the values
};
inline Reference referenceOf(const Model& m) {
   Reference r;
   std::vector<int> p;
   allSolutions(m,m.init(),p,0,r.sols);
   r.feasible = !r.sols.empty();
   r.opt = m.none();
   for(auto& s : r.sols) { if (m.better(s.v,r.opt)) r.opt = s.v; uint64_t b; memcpy(&b,&s.v,8); r.sg = (r.sg ^ b) * 0xff51afd7ed558ccdull; r.sg ^= r.sg >> 29;}
   r.cnt = r.sols.size();
   return r;
}
// Replays a label sequence on the exact model: value if it is a complete solution.
inline std::optional<double> replayLabels(const Model& m,const std::vector<int>& l) {
   S s = m.init();
   double v = 0;
   for(int x : l) {
      if (m.sink(s) || !m.offers(s,x)) return std::nullopt;
      auto n = m.step(s,x);
      if (!n) return std::nullopt;
      v += m.cost(s,x);
      s = *n;
   }
   if (!m.sink(s)) return std::nullopt;
   return v;
}

// ---------------------------------------------------------------------------------------------
// Library side.  LabelKind: how the label generation function reports its labels.
enum LabelKind { LK_GNSET, LK_NATSET, LK_RANGE, LK_BACKRANGE };
// The library sees label l of the model as gOff + l * gStr; everything read back is decoded.
extern int gOff,gStr;
inline int enc(int l) { return gOff + l*gStr;}
inline int dec(int x) { x-=gOff; return x<0 || x%gStr ? -1 : x/gStr;}
inline std::vector<int> decL(std::vector<int> v) { for(int& x : v) x=dec(x); return v;}
inline int gAsked[2]={0,0};  // how often the local bound was asked for a state of a diagram, for a node of the search
extern Bounds* gLive;  // the bounds of the running search, when the labels depend on them
namespace cb {
   inline uint64_t labelsOf(const S& s) { return gLive && gLive->hasPrimal() ? M->labelsNow(s,gLive->getPrimal()) : M->labels(s);}
   inline S target() { return M->target();}
   inline GNSet lgfG(const S& s) {
      s.chk();
      GNSet r {};
      if (M->manyLabels()) { int n=M->nbLabelsAt(s); for(int l=0;l<n;l++) if (M->offers(s,l)) r.insert(enc(l)); return r;}
      auto ls = labelsOf(s);
      for(int l=0;l<64;l++) if (ls >> l & 1) r.insert(enc(l));
      return r;
   }
   inline NatSet<1> lgfN(const S& s) {
      NatSet<1> r {};
      auto ls = labelsOf(s);
      for(int l=0;l<64;l++) if (ls >> l & 1) r.insert(enc(l));
      return r;
   }
   // Ranges can only say "all labels": step() rejects the ones the state does not offer.
   inline Range lgfR(const S& s) {
      if (gLive) { auto ls=labelsOf(s); return ls ? Range::closeInc(enc(std::countr_zero(ls)),enc(63-std::countl_zero(ls))) : Range::closeInc(enc(1),enc(0));}
      return Range::close(enc(0),enc(M->nbLabels()-1));
   }
   inline Range lgfB(const S& s) { if (gLive && !labelsOf(s)) return Range::closeInc(enc(1),enc(0)); return Range::close(enc(M->nbLabels()-1),enc(0));}
   inline std::optional<S> stf(const S& s,int l) {
      l = dec(l);
      if (!M->offers(s,l)) return std::nullopt;
      return M->step(s,l);
   }
   inline double scf(const S& s,int l) { s.chk(); return M->cost(s,dec(l));}
   inline std::optional<S> smf(const S& a,const S& b) { a.chk(); b.chk(); return M->merge(a,b);}
   inline bool eqs(const S& s) { return M->sink(s);}
   inline double loc(const S& s,LocalContext c) { gAsked[c==BBCtx]++; return M->local(s,c==BBCtx);}
   inline bool dom(const S& a,const S& b) { a.chk(); b.chk(); return M->dominates(a,b);}
}
template <class Cmp,class RET> AbstractDD::Ptr mk(RET(*lgf)(const S&)) {
   GNSet labels(0,enc(M->nbLabels()-1));
   std::function<double(const S&,LocalContext)> l = nullptr;
   if (M->hasLocal()) l = cb::loc;
   bool(*d)(const S&,const S&) = M->hasDom() ? cb::dom : nullptr;
   return DD<S,Cmp,S(*)(),RET(*)(const S&)>::makeDD([]() { return M->init();},cb::target,lgf,cb::stf,cb::scf,
                                                    cb::smf,cb::eqs,labels,l,d);
}
AbstractDD::Ptr makeModelDD(const Model& m,LabelKind k = LK_GNSET);   // in mk.cpp
inline const S& stateOf(ANode::Ptr n) { return static_cast<const Node<S>*>(n.get())->get();}

// ---------------------------------------------------------------------------------------------
// Model 1: layered automaton.  State (d, x = set of automaton nodes).  An exact state is a
// singleton; merging unions the sets; the cost of an arc from a merged state is the best over the
// members that have it.  Label `m` (the last) is the optional early stop: straight to the sink.
struct Automaton : Model {
   int L,k,m;                                  // layers of decisions, nodes per layer, labels
   static constexpr int MXL=6,MXK=4,MXM=3;
   int8_t to[MXL][MXK][MXM];                   // -1: no arc; node index in the next layer
   double c[MXL][MXK][MXM];
   bool stop[MXL][MXK] = {};                   // node may stop here
   double sc[MXL][MXK] = {};
   bool anyStop = false;
   int mergeKind = 0;                          // 0 total; 1 never; 2 only sets with the same parity of size...
   int localKind = 0;                          // 0 none; 1 exact completion bound; 2 loose bound
   int domKind = 0;                            // 0 none; 1 best completion; 2 completion-set inclusion
   int liveKind = 0;                           // 0 none; 1 labels that cannot beat the primal value are left out; 2 those that cannot even equal it
   double go[MXL+1][MXK];                      // best completion value, none() if there is none
   double from[MXL+1][MXK];                    // best value of a way to the node
   Automaton(int L_,int k_,int m_) : L(L_),k(k_),m(m_) {
      for(auto& a : to) for(auto& b : a) for(auto& e : b) e = -1;
      for(auto& a : c) for(auto& b : a) for(auto& e : b) e = 0;
   }
   int width(int d) const { return d==0 ? 1 : k;}
   void prepare() {
      for(int d=0;d<=L;d++) for(int v=0;v<k;v++) go[d][v] = d==L ? 0 : none();
      for(int d=L-1;d>=0;d--)
         for(int v=0;v<width(d);v++) {
            for(int l=0;l<m;l++)
               if (to[d][v][l] >= 0) {
                  double t = d==L-1 ? 0 : go[d+1][to[d][v][l]];
                  if (t != none() && better(c[d][v][l]+t,go[d][v])) go[d][v] = c[d][v][l]+t;
               }
            if (stop[d][v] && better(sc[d][v],go[d][v])) go[d][v] = sc[d][v];
         }
      for(int d=0;d<=L;d++) for(int v=0;v<k;v++) from[d][v] = d==0 && v==0 ? 0 : none();
      for(int d=0;d<L;d++) for(int v=0;v<width(d);v++) if (from[d][v]!=none()) for(int l=0;l<m;l++) if (to[d][v][l]>=0)
         if (double t=from[d][v]+c[d][v][l]; better(t,from[d+1][to[d][v][l]])) from[d+1][to[d][v][l]]=t;
   }
   bool live() const override { return liveKind!=0;}
   uint64_t labelsNow(const S& s,double p) const override {
      uint64_t r=0; auto keep=[&](double v) { return liveKind==1 ? better(v,p) : betterEQ(v,p);};
      for(int v=0;v<k;v++) if (s.x>>v&1 && from[s.d][v]!=none()) {
         for(int l=0;l<m;l++) if (to[s.d][v][l]>=0) { double g=s.d==L-1 ? 0 : go[s.d+1][to[s.d][v][l]]; if (g!=none() && keep(from[s.d][v]+c[s.d][v][l]+g)) r|=1ull<<l;}
         if (stop[s.d][v] && keep(from[s.d][v]+sc[s.d][v])) r|=1ull<<m;
      }
      return r;
   }
   S init() const override { return S{0,1,0};}
   S target() const override { return S{L,0,0};}
   int nbLabels() const override { return anyStop ? m+1 : m;}
   uint64_t labels(const S& s) const override {
      uint64_t r = 0;
      for(int v=0;v<k;v++) if (s.x >> v & 1) {
         for(int l=0;l<m;l++) if (to[s.d][v][l] >= 0) r |= 1ull << l;
         if (stop[s.d][v]) r |= 1ull << m;
      }
      return r;
   }
   std::optional<S> step(const S& s,int l) const override {
      if (l==m) return target();
      if (s.d==L-1) return target();
      S n{s.d+1,0,0};
      for(int v=0;v<k;v++) if (s.x >> v & 1 && to[s.d][v][l] >= 0) n.x |= 1ull << to[s.d][v][l];
      return n;
   }
   double cost(const S& s,int l) const override {
      double b = none();
      for(int v=0;v<k;v++) if (s.x >> v & 1) {
         if (l==m) { if (stop[s.d][v] && better(sc[s.d][v],b)) b = sc[s.d][v];}
         else if (to[s.d][v][l] >= 0 && better(c[s.d][v][l],b)) b = c[s.d][v][l];
      }
      return b;
   }
   bool totalMerge() const override { return mergeKind==0;}
   std::optional<S> merge(const S& a,const S& b) const override {
      if (a.d != b.d) return std::nullopt;
      if (mergeKind==1) return std::nullopt;
      if (mergeKind==2 && ((a.x ^ b.x) & 1)) return std::nullopt; // node 0 keeps to itself
      return S{a.d,a.x|b.x,0};
   }
   bool hasLocal() const override { return localKind != 0;}
   double local(const S& s,bool bb) const override {
      if (s.d==L) return 0;
      double b = none();
      for(int v=0;v<k;v++) if (s.x >> v & 1 && better(go[s.d][v],b)) b = go[s.d][v];
      if (localKind==2 && b != none()) b += maximize ? 1 : -1;
      if (localKind==3 && b != none() && !bb) b += maximize ? 1 : -1;
      if (localKind==4 && b != none() && bb) b += maximize ? 2 : -2;
      return b;
   }
   bool hasDom() const override { return domKind != 0;}
   double bestGo(const S& s) const {
      if (s.d==L) return 0;
      double b = none();
      for(int v=0;v<k;v++) if (s.x >> v & 1 && better(go[s.d][v],b)) b = go[s.d][v];
      return b;
   }
   bool dominates(const S& a,const S& b) const override {
      if (domKind==1) return a.d==b.d && betterEQ(bestGo(a),bestGo(b));
      if (domKind==2) return a.d==b.d && (a.x & b.x) == b.x;
      if (domKind==3) return betterEQ(bestGo(a),bestGo(b)); // regardless of the depth
      return false;
   }
   std::string show() const override {
      std::ostringstream o;
      o << "automaton L=" << L << " k=" << k << " m=" << m << (maximize ? " max":" min") << " merge=" << mergeKind
        << " local=" << localKind << " dom=" << domKind << " live=" << liveKind << " arcs:";
      for(int d=0;d<L;d++) for(int v=0;v<width(d);v++) {
         for(int l=0;l<m;l++) if (to[d][v][l]>=0)
            o << " " << d << "." << v << "-" << l << "->" << (d==L-1 ? std::string("T") : std::to_string(to[d][v][l])) << "(" << c[d][v][l] << ")";
         if (stop[d][v]) o << " " << d << "." << v << "-stop(" << sc[d][v] << ")";
      }
      return o.str();
   }
};

// Model 1b: a state may be reached by decision sequences of different lengths. Nodes 0..n-1 of an acyclic graph, labels
// lead to later nodes, the last label to the sink. Sets of nodes as above; d is not used.
struct Dag : Model {
   int n,m; int8_t to[6][3]; double c[6][3]; bool stop[6]={}; double sc[6]={};
   int mergeKind=0,localKind=0,domKind=0; double go[6];
   Dag(int n_,int m_) : n(n_),m(m_) { memset(to,-1,sizeof to); for(auto& a : c) for(auto& b : a) b=0;}
   void prepare() { for(int v=n-1;v>=0;v--) { go[v]=stop[v] ? sc[v] : none(); for(int l=0;l<m;l++) if (to[v][l]>=0 && go[to[v][l]]!=none() && better(c[v][l]+go[to[v][l]],go[v])) go[v]=c[v][l]+go[to[v][l]];}}
   bool layered() const override { return false;}
   S init() const override { return S{0,1,0};}
   S target() const override { return S{1,0,0};}
   int nbLabels() const override { return m+1;}
   uint64_t labels(const S& s) const override { uint64_t r=0; for(int v=0;v<n;v++) if (s.x>>v&1) { for(int l=0;l<m;l++) if (to[v][l]>=0) r|=1ull<<l; if (stop[v]) r|=1ull<<m;} return r;}
   std::optional<S> step(const S& s,int l) const override { if (l==m) return target(); S t{0,0,0}; for(int v=0;v<n;v++) if (s.x>>v&1 && to[v][l]>=0) t.x|=1ull<<to[v][l]; return t;}
   double cost(const S& s,int l) const override { double b=none(); for(int v=0;v<n;v++) if (s.x>>v&1) { if (l==m) { if (stop[v] && better(sc[v],b)) b=sc[v];} else if (to[v][l]>=0 && better(c[v][l],b)) b=c[v][l];} return b;}
   bool totalMerge() const override { return false;}
   std::optional<S> merge(const S& a,const S& b) const override { if (a.d || b.d || mergeKind==1 || (mergeKind==2 && ((a.x^b.x)&2))) return std::nullopt; return S{0,a.x|b.x,0};}
   bool hasLocal() const override { return localKind;}
   double best(const S& s) const { if (s.d) return 0; double b=none(); for(int v=0;v<n;v++) if (s.x>>v&1 && better(go[v],b)) b=go[v]; return b;}
   double local(const S& s,bool) const override { double b=best(s); return localKind==2 && b!=none() ? (maximize ? b+1 : b-1) : b;}
   bool hasDom() const override { return domKind;}
   bool dominates(const S& a,const S& b) const override { return domKind==1 ? betterEQ(best(a),best(b)) : a.d==b.d && (a.x&b.x)==b.x;}
   std::string show() const override { std::ostringstream o; o << "graph n=" << n << (maximize?" max":" min") << " merge=" << mergeKind << " local=" << localKind << " dom=" << domKind;
      for(int v=0;v<n;v++) { for(int l=0;l<m;l++) if (to[v][l]>=0) o << " " << v << "-" << l << "->" << (int)to[v][l] << "(" << c[v][l] << ")"; if (stop[v]) o << " " << v << "-stop(" << sc[v] << ")";} return o.str();}
};

// Model 2: 0/1 knapsack. State (n, x = remaining capacity).
struct Knapsack : Model {
   int n,cap;
   std::vector<int> w;
   std::vector<double> p;
   int localKind=0,domKind=0,mergeKind=0;
   S init() const override { return S{0,(uint64_t)cap,0};}
   S target() const override { return S{n,0,0};}
   int nbLabels() const override { return 2;}
   uint64_t labels(const S& s) const override { return s.x >= (uint64_t)w[s.d] ? 3 : 1;}
   std::optional<S> step(const S& s,int l) const override {
      if (s.d==n-1) return target();
      return S{s.d+1,s.x - (l ? w[s.d] : 0),0};
   }
   double cost(const S& s,int l) const override { return l ? p[s.d] : 0;}
   bool totalMerge() const override { return mergeKind==0;}
   std::optional<S> merge(const S& a,const S& b) const override {
      if (mergeKind==1 && a.x+1 < b.x) return std::nullopt;
      if (mergeKind==1 && b.x+1 < a.x) return std::nullopt;
      if (a.d != b.d) return std::nullopt;
      return S{a.d,std::max(a.x,b.x),0};
   }
   bool hasLocal() const override { return localKind;}
   double local(const S& s,bool) const override { // sum of what still fits item by item
      double t=0;
      for(int i=s.d;i<n;i++) if ((uint64_t)w[i] <= s.x) t += p[i];
      return t;
   }
   bool hasDom() const override { return domKind;}
   bool dominates(const S& a,const S& b) const override { return a.d==b.d && a.x >= b.x;}
   std::string show() const override {
      std::ostringstream o;
      o << "knapsack cap=" << cap << " local=" << localKind << " dom=" << domKind << " merge=" << mergeKind << " (w,p):";
      for(int i=0;i<n;i++) o << " (" << w[i] << "," << p[i] << ")";
      return o.str();
   }
};

// Model 3: maximum weighted independent set. State (d, x = vertices that may still be taken).
struct Misp : Model {
   int n;
   std::vector<uint64_t> adj;
   std::vector<double> w;
   int localKind=0,domKind=0;
   S init() const override { return S{0,(1ull<<n)-1,0};}
   S target() const override { return S{n,0,0};}
   int nbLabels() const override { return 2;}
   uint64_t labels(const S& s) const override { return s.x >> s.d & 1 ? 3 : 1;}
   std::optional<S> step(const S& s,int l) const override {
      if (s.d==n-1) return target();
      uint64_t x = s.x & ~(1ull << s.d);
      if (l) x &= ~adj[s.d];
      return S{s.d+1,x,0};
   }
   double cost(const S& s,int l) const override { return l ? w[s.d] : 0;}
   std::optional<S> merge(const S& a,const S& b) const override {
      if (a.d != b.d) return std::nullopt;
      return S{a.d,a.x|b.x,0};
   }
   bool hasLocal() const override { return localKind;}
   double local(const S& s,bool) const override {
      double t=0;
      for(int i=s.d;i<n;i++) if (s.x >> i & 1) t += std::max(0.0,w[i]);
      return t;
   }
   bool hasDom() const override { return domKind;}
   bool dominates(const S& a,const S& b) const override { return a.d==b.d && (a.x & b.x)==b.x;}
   std::string show() const override {
      std::ostringstream o;
      o << "misp n=" << n << " local=" << localKind << " dom=" << domKind << " w:";
      for(auto v : w) o << " " << v;
      o << " edges:";
      for(int i=0;i<n;i++) for(int j=i+1;j<n;j++) if (adj[i]>>j&1) o << " " << i << "-" << j;
      return o.str();
   }
};

// Model 4: TSP as in examples/tsp: state (hops, x = cities surely visited | cities possibly visited << 8,
// y = possible current cities).  Label = next city; the tour closes in city 0.
struct Tsp : Model {
   int n;
   std::vector<std::vector<double>> dist; // negative: no arc
   int localKind=0;
   Tsp() { maximize=false;}
   uint64_t A(const S& s) const { return s.x & 0xff;}
   uint64_t E(const S& s) const { return s.x >> 8;}
   S init() const override { return S{0,0,1};}
   S target() const override { return S{n,((1ull<<n)-1)*0x101,1};}
   int nbLabels() const override { return n;}
   uint64_t labels(const S& s) const override {
      if (s.d==n-1) return 1;                                 // close the tour
      return ((1ull<<n)-2) & ~A(s);
   }
   double arc(const S& s,int l) const {
      double b = none();
      for(int v=0;v<n;v++) if ((s.y>>v&1) && v!=l && dist[v][l] >= 0 && dist[v][l] < b) b = dist[v][l];
      return b;
   }
   std::optional<S> step(const S& s,int l) const override {
      if (arc(s,l) == none()) return std::nullopt;
      if (s.d==n-1) return target();
      uint64_t a = A(s) | 1ull<<l, e = E(s) | 1ull<<l;
      if (std::popcount(e) < s.d+1) return std::nullopt;      // cannot have visited d+1 cities
      return S{s.d+1,a | e<<8,1ull<<l};
   }
   double cost(const S& s,int l) const override { double b = arc(s,l); return b;}
   std::optional<S> merge(const S& a,const S& b) const override {
      if (a.d != b.d) return std::nullopt;
      return S{a.d,(A(a)&A(b)) | (E(a)|E(b))<<8,a.y|b.y};
   }
   bool hasLocal() const override { return localKind;}
   double local(const S& s,bool) const override { // one cheapest arc per hop left
      if (s.d==n) return 0;
      double mn=none();
      for(auto& r : dist) for(double v : r) if (v>=0 && v<mn) mn=v;
      return mn==none() ? 0 : mn*(n-s.d);
   }
   std::string show() const override {
      std::ostringstream o;
      o << "tsp n=" << n << " local=" << localKind << " dist:";
      for(auto& r : dist) { o << " ["; for(auto v : r) o << v << " "; o << "]";}
      return o.str();
   }
};

// Model 5: graph colouring (minimise the number of colours), vertices in order; state (d, x = colours
// packed 3 bits per vertex, 0 = free (relaxed), y = highest colour used).
struct Coloring : Model {
   int n;
   std::vector<uint64_t> adj;
   Coloring() { maximize=false;}
   int col(const S& s,int v) const { return s.x >> (3*v) & 7;}
   S init() const override { return S{0,0,0};}
   S target() const override { return S{n,0,0};}
   int nbLabels() const override { return n+1;}
   uint64_t labels(const S& s) const override {
      uint64_t r=0;
      for(int c=1;c<=(int)s.y+1 && c<=n;c++) {
         bool ok=true;
         for(int u=0;u<s.d;u++) if ((adj[s.d]>>u&1) && col(s,u)==c) ok=false;
         if (ok) r |= 1ull<<c;
      }
      return r;
   }
   std::optional<S> step(const S& s,int l) const override {
      if (s.d==n-1) return target();
      uint64_t x = s.x | (uint64_t)l << (3*s.d);
      // forget vertices with no later neighbour
      S t{s.d+1,0,std::max<uint64_t>(s.y,l)};
      for(int v=0;v<=s.d;v++) if (adj[v] >> (s.d+1)) t.x |= x & (7ull << (3*v));
      return t;
   }
   double cost(const S& s,int l) const override { return std::max(0,l-(int)s.y);}
   std::optional<S> merge(const S& a,const S& b) const override {
      // Same number of colours only: the arc costs depend on it.
      if (a.d != b.d || a.y != b.y) return std::nullopt;
      S t{a.d,0,a.y};
      for(int v=0;v<n;v++) if (col(a,v)==col(b,v)) t.x |= a.x & (7ull << (3*v));
      return t;
   }
   bool totalMerge() const override { return false;}
   std::string show() const override {
      std::ostringstream o;
      o << "coloring n=" << n << " edges:";
      for(int i=0;i<n;i++) for(int j=i+1;j<n;j++) if (adj[i]>>j&1) o << " " << i << "-" << j;
      return o.str();
   }
};

// Model 6: walks on a line, for instances too large to list their solutions (the reference is then a dynamic
// programme over the exact states).  State (d, x = lowest, y = highest possible position); merging takes the hull.
// Layer d offers nl[d] labels; label l moves by l*mul[d]+add[d]; moves out of [0,N) do not exist, nor do the ones the
// hash of (instance,d,p,l) leaves out.
struct Walk : Model {
   int L=0,N=0,p0=0; std::vector<int> nl,mul,add; std::vector<double> costs; uint64_t inst=0; int holes=0; // holes in 1/64
   int localKind=0,domKind=0,mergeKind=0;
   std::vector<std::vector<double>> go;
   uint64_t h(int d,int p,int l) const { uint64_t z=inst*0x9e3779b97f4a7c15ull + (uint64_t)d*0xbf58476d1ce4e5b9ull + (uint64_t)p*0x94d049bb133111ebull + (uint64_t)l*0xd6e8feb86659fd93ull; z^=z>>31; z*=0xff51afd7ed558ccdull; z^=z>>29; z*=0xc4ceb9fe1a85ec53ull; return z^(z>>32);}
   int dest(int d,int p,int l) const { if (l<0 || l>=nl[d]) return -1; long q=(long)p+(long)l*mul[d]+add[d]; if (q<0 || q>=N) return -1; if (holes && (int)(h(d,p,l)>>40&63)<holes) return -1; return q;}
   double arc(int d,int p,int l) const { return costs[h(d,p,l)%costs.size()];}
   void prepare() {
      go.assign(L+1,std::vector<double>(N,none())); for(auto& v : go[L]) v=0;
      for(int d=L-1;d>=0;d--) for(int p=0;p<N;p++) { if (d==0 && p!=p0) continue; for(int l=0;l<nl[d];l++) { int q=dest(d,p,l); if (q<0) continue; double t=d==L-1 ? 0 : go[d+1][q]; if (t!=none() && better(arc(d,p,l)+t,go[d][p])) go[d][p]=arc(d,p,l)+t;}}
   }
   S init() const override { return S{0,(uint64_t)p0,(uint64_t)p0};}
   S target() const override { return S{L,0,0};}
   int nbLabels() const override { int r=1; for(int v : nl) r=std::max(r,v); return r;}
   int nbLabelsAt(const S& s) const override { return s.d<L ? nl[s.d] : 0;}
   bool manyLabels() const override { return true;}
   bool offers(const S& s,int l) const override { if (s.d>=L) return false; for(int p=s.x;p<=(int)s.y;p++) if (dest(s.d,p,l)>=0) return true; return false;}
   uint64_t labels(const S& s) const override { uint64_t r=0; for(int l=0;l<64 && l<nbLabels();l++) if (offers(s,l)) r|=1ull<<l; return r;}
   std::optional<S> step(const S& s,int l) const override {
      if (s.d==L-1) return target();
      int lo=N,hi=-1; for(int p=s.x;p<=(int)s.y;p++) { int q=dest(s.d,p,l); if (q>=0) { lo=std::min(lo,q); hi=std::max(hi,q);}}
      if (hi<0) return std::nullopt;
      return S{s.d+1,(uint64_t)lo,(uint64_t)hi};
   }
   double cost(const S& s,int l) const override { double b=none(); for(int p=s.x;p<=(int)s.y;p++) if (dest(s.d,p,l)>=0 && better(arc(s.d,p,l),b)) b=arc(s.d,p,l); return b;}
   bool totalMerge() const override { return mergeKind==0;}
   std::optional<S> merge(const S& a,const S& b) const override {
      if (a.d!=b.d || mergeKind==1) return std::nullopt;
      if (mergeKind==2 && ((a.x^b.x)&1)) return std::nullopt;
      return S{a.d,std::min(a.x,b.x),std::max(a.y,b.y)};
   }
   bool hasLocal() const override { return localKind!=0;}
   double best(const S& s) const { if (s.d==L) return 0; double b=none(); for(int p=s.x;p<=(int)s.y;p++) if (better(go[s.d][p],b)) b=go[s.d][p]; return b;}
   double local(const S& s,bool bb) const override { double b=best(s); if (b==none()) return b; double k= localKind==2 ? 1 : localKind==3 && !bb ? 1 : localKind==4 && bb ? 2 : 0; return maximize ? b+k : b-k;}
   bool hasDom() const override { return domKind!=0;}
   bool dominates(const S& a,const S& b) const override {
      if (domKind==1) return a.d==b.d && betterEQ(best(a),best(b));
      if (domKind==2) return a.d==b.d && a.x<=b.x && a.y>=b.y;
      return betterEQ(best(a),best(b));
   }
   std::string show() const override {
      std::ostringstream o; o << "walk no. " << inst << (maximize?" max":" min") << " L=" << L << " N=" << N << " start " << p0 << " holes " << holes << "/64 merge=" << mergeKind << " local=" << localKind << " dom=" << domKind << " labels:";
      for(int d=0;d<L && d<12;d++) o << " " << nl[d] << "*" << mul[d] << "+" << add[d]; o << " costs:"; for(double c : costs) o << " " << c; return o.str();
   }
};
