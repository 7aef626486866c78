// Models whose merging, dominance and local bound are decided by choices, not by a formula: each time the library
// asks about a pair of states (or a state) not seen before in this execution, the explorer picks an answer among
// all the sound ones, remembers it, and comes back later for the others (stateless search over choice sequences).
//
// States are sets of automaton nodes {0,1,2}; the root's labels lead to the given sets, a label leads from a set to
// the union of its nodes' successors at the best of their costs.  A superset offers every label of a set at no
// worse cost, so merging may go to any superset of the union, or be refused; a state may dominate another
// of the same depth when its best completion is no worse; a local bound may be exact or loose.
#pragma once
#include "families.hpp"
struct Script {                                 // one execution's choices
   static constexpr int N=64;
   int free,n=0,at=0; int8_t pick[N],arity[N];
   Script(int f) : free(f) {}
   void begin() { at=0;}
   int ask(int k) { if (k<=1) return 0; if (at>=free || at>=N) return 0; if (at>=n) { pick[at]=0; arity[at]=k; n=at+1;} return pick[at++] % k;}
   bool next() { n=at; while(n>0 && ++pick[n-1]>=arity[n-1]) n--; return n>0;}
};
struct Chosen : Model {
   int L=2,nl=4; uint8_t rs[4]={}; double rc[4]={}; int8_t to[3][3][2]; double c[3][3][2]; double go[4][8];
   bool cm=true,cd=false,cl=false;              // what is chosen: merging, dominance, local bounds
   mutable Script* sp=nullptr; mutable int8_t mg[3][8][8],dm[3][8][8],lc[3][8]; mutable bool refused=false;
   void fresh(Script& s) const { sp=&s; s.begin(); memset(mg,-1,sizeof mg); memset(dm,-1,sizeof dm); memset(lc,-1,sizeof lc); refused=false;}
   void prepare() {
      for(int x=0;x<8;x++) go[L][x]=0;
      for(int d=L-1;d>=1;d--) for(int x=0;x<8;x++) { go[d][x]=none();
         for(int l=0;l<2;l++) { S s{d,(uint64_t)x,0}; if (!(labels(s)>>l&1)) continue; auto t=step(s,l); double v=go[t->d][t->x]; if (v!=none() && better(cost(s,l)+v,go[d][x])) go[d][x]=cost(s,l)+v;}}
   }
   S init() const override { return S{0,0,0};}
   S target() const override { return S{L,0,0};}
   int nbLabels() const override { return std::max(nl,2);}
   uint64_t labels(const S& s) const override {
      if (s.d==0) return (1ull<<nl)-1;
      uint64_t r=0; for(int v=0;v<3;v++) if (s.x>>v&1) for(int l=0;l<2;l++) if (to[s.d][v][l]>=0) r|=1ull<<l; return r;
   }
   std::optional<S> step(const S& s,int l) const override {
      if (s.d==0) return S{1,rs[l],0};
      if (s.d==L-1) return target();
      S n{s.d+1,0,0}; for(int v=0;v<3;v++) if (s.x>>v&1 && to[s.d][v][l]>=0) n.x|=1ull<<to[s.d][v][l]; return n;
   }
   double cost(const S& s,int l) const override {
      if (s.d==0) return rc[l];
      double b=none(); for(int v=0;v<3;v++) if (s.x>>v&1 && to[s.d][v][l]>=0 && better(c[s.d][v][l],b)) b=c[s.d][v][l]; return b;
   }
   bool totalMerge() const override { return !refused;}
   std::optional<S> merge(const S& a,const S& b) const override {
      if (a.d!=b.d || a.d<1 || a.d>2) return std::nullopt;
      int x=std::min(a.x,b.x),y=std::max(a.x,b.x),u=x|y; int8_t& m=mg[a.d][x][y];
      if (m<0) {
         int opt[8],k=0; opt[k++]=u; opt[k++]=0; if (x!=y) for(int v=u+1;v<8;v++) if ((v&u)==u) opt[k++]=v;
         m = cm ? opt[sp->ask(x==y ? 1 : k)] : u;
      }
      if (!m) { refused=true; return std::nullopt;}
      return S{a.d,(uint64_t)m,0};
   }
   bool hasLocal() const override { return cl;}
   double local(const S& s,bool) const override {
      if (s.d==L) return 0;
      if (s.d==0) { double b=none(); for(int l=0;l<nl;l++) if (go[1][rs[l]]!=none() && better(rc[l]+go[1][rs[l]],b)) b=rc[l]+go[1][rs[l]]; return b;}
      int8_t& m=lc[s.d][s.x]; if (m<0) m=sp->ask(2); double b=go[s.d][s.x]; return m && b!=none() ? b+(maximize?1:-1) : b;
   }
   bool hasDom() const override { return cd;}
   bool dominates(const S& a,const S& b) const override {
      if (a.d!=b.d || a.d<1 || a.d>=L || !betterEQ(go[a.d][a.x],go[b.d][b.x])) return false;
      int8_t& m=dm[a.d][a.x][b.x]; if (m<0) m=sp->ask(2); return m==0;
   }
   std::string show() const override {
      std::ostringstream o; o << "sets L=" << L << (maximize?" max":" min") << " root:"; for(int l=0;l<nl;l++) o << " {" << (rs[l]&1?"0":"") << (rs[l]&2?"1":"") << (rs[l]&4?"2":"") << "}(" << rc[l] << ")";
      for(int d=1;d<L;d++) for(int v=0;v<3;v++) for(int l=0;l<2;l++) if (to[d][v][l]>=0) o << " " << d << "." << v << "-" << l << "->" << (int)to[d][v][l] << "(" << c[d][v][l] << ")";
      auto st=[](int x) { return std::string("{")+(x&1?"0":"")+(x&2?"1":"")+(x&4?"2":"")+"}";};
      for(int d=1;d<3;d++) for(int x=1;x<8;x++) for(int y=x;y<8;y++) if (mg[d][x][y]>=0) o << " " << st(x) << "+" << st(y) << (mg[d][x][y] ? "="+st(mg[d][x][y]) : std::string(" refused"));
      if (cd) for(int d=1;d<3;d++) for(int x=1;x<8;x++) for(int y=1;y<8;y++) if (dm[d][x][y]==0) o << " " << st(x) << " dominates " << st(y);
      if (cl) for(int d=1;d<3;d++) for(int x=1;x<8;x++) if (lc[d][x]==1) o << " loose bound of " << st(x);
      return o.str();
   }
};
// What the root's labels lead to: every sequence of nl distinct sets; a few cost patterns; layers 2 or 3.
inline Family chosen(int L,int nl,int patterns,bool maximize,bool cm,bool cd,bool cl) {
   uint64_t n=patterns; for(int k=0;k<nl;k++) n*=7-k;
   return {vf::fmt("sets L=%d, %d distinct sets at the root, %d cost patterns, %s, chosen:%s%s%s",L,nl,patterns,maximize?"max":"min",cm?" merging":"",cd?" dominance":"",cl?" bounds":""),n,
      [=](uint64_t i,const std::function<void(Model&)>& f) {
         Chosen m; m.L=L; m.nl=nl; m.maximize=maximize; m.cm=cm; m.cd=cd; m.cl=cl; Dec d{i}; int pt=d.take(patterns);
         int left[7]={1,2,3,4,5,6,7},q=7; for(int k=0;k<nl;k++) { int x=d.take(q); m.rs[k]=left[x]; for(int j=x;j+1<q;j++) left[j]=left[j+1]; q--;}
         static const double R[4][4]={{0,1,2,3},{0,0,0,0},{3,0,2,1},{1,3,0,2}}; for(int k=0;k<4;k++) m.rc[k]=R[pt%4][k];
         for(int a=0;a<3;a++) for(int v=0;v<3;v++) for(int l=0;l<2;l++) { m.to[a][v][l]= (a==L-1 && l==1 && v!=2-pt%3) ? -1 : a==1 && L>2 ? (v+l)%3 : 0; m.c[a][v][l]= l ? 0.5*(pt%2) : (double)((v*2+a+pt)%3);}
         m.prepare(); f(m);
      }};
}
