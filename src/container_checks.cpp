// C09-C18: the containers models and diagrams are built from, every operation sequence up to a depth
// against a plain reference.
#include "vf.hpp"
#include "own.hpp"
#include <cstring>
#include <bitset>
#include <ranges>
#include <sstream>
#include <deque>
#include <list>
#include <math.h>
#include "util.hpp"
#include "vec.hpp"
#include "heap.hpp"
#include "queue.hpp"
#include "hashtable.hpp"
#include "lighthash.hpp"
#include "msort.hpp"
#include "uf.hpp"
std::size_t coddVerifTableSize=2; int coddVerifQueueSize=4;
using namespace vf;
static void mute() { std::cout.setstate(std::ios::failbit);}
static std::string show(const std::set<int>& s) { std::string o="{"; for(int x : s) o+=(o.size()>1?",":"")+std::to_string(x); return o+"}";}
struct Path { std::vector<std::string> ops; Path() { ops.reserve(64);} // never grown inside a Scope
   std::string show() const { std::string s; for(auto& o : ops) s+=o+"; "; return s;} };
static Path* gPath; static bool gBad;
static bool bad(const std::string& m) { if (!gBad) fail(m+" after: "+gPath->show()); gBad=true; return false;}
struct Step { Path& p; Step(Path& p,std::string s) : p(p) { p.ops.push_back(std::move(s)); trans(1);} ~Step() { p.ops.pop_back();} };

// ================================================================================ C09 / C10: sets
typedef std::set<int> RS;
struct GS { GNSet g; RS r; };                       // implementation, reference
static bool sameSet(const GNSet& g,const RS& r,int probe) {
   if (g.size()!=(int)r.size()) return bad(fmt("size() is %d, the set is ",g.size())+show(r));
   if (g.empty()!=r.empty()) return bad("empty() is wrong, the set is "+show(r));
   std::vector<int> it; for(auto v : g) { it.push_back(v); if (it.size()>r.size()+2) break;}
   if (!std::equal(it.begin(),it.end(),r.begin(),r.end())) { std::string s; for(int x : it) s+=std::to_string(x)+" "; return bad("iteration gives "+s+"for "+show(r));}
   for(int e=0;e<probe;e++) if (g.contains(e)!=(r.count(e)>0)) return bad(fmt("contains(%d) is wrong for ",e)+show(r));
   if (min(g)!=(r.empty() ? std::numeric_limits<int>::max() : *r.begin())) return bad("min is wrong for "+show(r));
   if (max(g)!=(r.empty() ? std::numeric_limits<int>::min() : *r.rbegin())) return bad("max is wrong for "+show(r));
   return true;
}
static const int E7[]={0,1,63,64,100,127,128};
struct SetOps {
   int depth; Path path; int probe=200; bool c10;
   static constexpr int N=44;
   // applies operation o to the pair (a,b); false: not applicable here
   bool op(int o,GS& a,GS& b,std::string& nm) {
      if (o<7)  { int e=E7[o]; nm=fmt("insert %d",e); a.g.insert(e); a.r.insert(e); return true;} o-=7;
      if (o<5)  { static const int e5[]={0,63,64,127,128}; int e=e5[o]; nm=fmt("remove %d",e); a.g.remove(e); a.r.erase(e); return true;} o-=5;
      if (o<6)  { static const int p6[]={-1,0,62,63,64,127}; int p=p6[o]; nm=fmt("removeAbove %d",p); a.g.removeAbove(p); a.r.erase(a.r.upper_bound(p),a.r.end()); return true;} o-=6;
      if (o<4)  { static const int p4[]={0,63,64,128}; int p=p4[o]; nm=fmt("removeBelow %d",p); a.g.removeBelow(p); a.r.erase(a.r.begin(),a.r.lower_bound(p)); return true;} o-=4;
      switch(o) {
         case 0: nm="clear"; a.g.clear(); a.r.clear(); return true;
         case 1: nm="A |= B"; a.g.unionWith(b.g); a.r.insert(b.r.begin(),b.r.end()); return true;
         case 2: nm="A &= B"; a.g.interWith(b.g); { RS t; for(int x : a.r) if (b.r.count(x)) t.insert(x); a.r=t;} return true;
         case 3: nm="A -= B"; a.g.diffWith(b.g); for(int x : b.r) a.r.erase(x); return true;
         case 4: nm="A = B"; a.g=b.g; a.r=b.r; return true;
         case 5: nm="B = A"; b.g=a.g; b.r=a.r; return true;
         case 6: nm="swap A B"; { GNSet t(std::move(a.g)); a.g=std::move(b.g); b.g=std::move(t);} std::swap(a.r,b.r); return true;
         case 7: nm="A = copy of A"; { GNSet t(a.g); a.g=t;} return true;
         case 8: nm="complement A in its words"; { int n=a.g.nbWords()*64; if (n>512) return false; a.g.complement(); RS t; for(int x=0;x<n;x++) if (!a.r.count(x)) t.insert(x); a.r=t; } return true;
         case 9: nm="A = [0,5]"; a.g=GNSet(0,5); a.r={0,1,2,3,4,5}; return true;
         case 10: nm="A = [62,65]"; a.g=GNSet(62,65); a.r={62,63,64,65}; return true;
         case 11: nm="A = [5,4]"; a.g=GNSet(5,4); a.r={}; return true;
         case 12: nm="A = range [63,65)"; a.g=GNSet(Range::open(63,65)); a.r={63,64}; return true;
         case 13: nm="A = range 64 down to 62"; a.g=GNSet(Range::close(64,62)); a.r={62,63,64}; return true;
         case 14: nm="A = empty range"; a.g=GNSet(Range(3,3)); a.r={}; return true;
         case 15: nm="A = NatSet{1,100}"; { NatSet<2> n; n.insert(1); n.insert(100); a.g=GNSet(n);} a.r={1,100}; return true;
         case 16: nm="A = NatSet{}"; { NatSet<2> n; a.g=GNSet(n);} a.r={}; return true;
         case 17: nm="A = {3,64}"; a.g=GNSet{3,64}; a.r={3,64}; return true;
         case 18: nm="A = (A|B)-(A&B)"; a.g=(a.g|b.g)-(a.g&b.g); { RS t; for(int x : a.r) if (!b.r.count(x)) t.insert(x); for(int x : b.r) if (!a.r.count(x)) t.insert(x); a.r=t;} return true;
         case 19: nm="A = GNSet(0 places)"; a.g=GNSet((unsigned short)0); a.r={}; return true;
         case 20: nm="A moved out, then = B"; { GNSet t(std::move(a.g)); a.g=b.g; a.r=b.r;} return true;
         case 21: nm="A moved out, copied"; { GNSet t(std::move(a.g)); GNSet u(a.g); a.g=std::move(t);} return true;
      }
      return false;
   }
   bool judge(const GS& a,const GS& b) {
      states(1);
      bool eq = a.r==b.r;
      if ((a.g==b.g)!=eq || (b.g==a.g)!=eq) return bad("== is wrong: "+show(a.r)+" "+show(b.r));
      if ((a.g!=b.g)==eq) return bad("!= is wrong: "+show(a.r)+" "+show(b.r));
      if (c10) {
         GNSet fresh {}; for(int x : a.r) fresh.insert(x);
         GNSet wide((unsigned short)300); for(int x : a.r) wide.insert(x);
         auto h=std::hash<GNSet>{}(a.g);
         if (!(a.g==fresh) || !(a.g==wide)) return bad("not equal to a set with the same elements "+show(a.r));
         if (h!=std::hash<GNSet>{}(fresh) || h!=std::hash<GNSet>{}(wide)) return bad("equal sets, different hash values "+show(a.r));
         if (eq && h!=std::hash<GNSet>{}(b.g)) return bad("equal sets, different hash values "+show(a.r));
         std::vector<GNSet> v1{a.g,b.g},v2{fresh,b.g};
         if (std::hash<std::vector<GNSet>>{}(v1)!=std::hash<std::vector<GNSet>>{}(v2)) return bad("equal vectors of sets, different hash values");
         FArray<GNSet> f1(2),f2(2); f1[0]=a.g; f1[1]=b.g; f2[0]=wide; f2[1]=b.g;
         if (!(f1==f2)) return bad("arrays with equal sets differ");
         if (std::hash<FArray<GNSet>>{}(f1)!=std::hash<FArray<GNSet>>{}(f2)) return bad("equal arrays of sets, different hash values");
         return true;
      }
      if (!sameSet(a.g,a.r,probe)) return false;
      std::ostringstream os; os << a.g; if (os.str()!=show(a.r)) return bad("prints "+os.str()+" for "+show(a.r));
      return true;
   }
   void dfs(const GS& a,const GS& b,int d) {
      if (gBad) return;
      if (d==depth) { trace(); return;}
      for(int o=0;o<N && !gBad;o++) one(o,a,b,d);
   }
   void one(int o,const GS& a0,const GS& b0,int d) {
      Scope sc; GS a=a0,b=b0; std::string nm;
      if (!op(o,a,b,nm)) return;
      Step st(path,nm); gPath=&path; eval();
      if (!judge(a,b)) return;
      uint64_t h=7; for(int x : a.r) h=mix(h,x); h=mix(h,9999); for(int x : b.r) h=mix(h,x); h=mix(h,a.g.nbWords()*1000+b.g.nbWords());
      if (!a.r.empty() && distinct(h) && wantSample() && (sh->states%40009)<3) sample(path.show()+" -> A="+show(a.r)+" B="+show(b.r));
      dfs(a,b,d+1);
   }
};
static Space setSpace(int depth,bool c10,int start) {
   // start: 0 both default, 1 A=[0,63] B={}, 2 A with two words, B with none
   return Space{fmt("general sets: operation sequences of length %d, start %d",depth,start),(uint64_t)SetOps::N*SetOps::N,[=](uint64_t i) {
      mute(); gBad=false; SetOps s; s.depth=depth; s.c10=c10; gPath=&s.path;
      GS a,b; 
      if (start==1) { a.g=GNSet(0,63); for(int x=0;x<64;x++) a.r.insert(x);}
      if (start==2) { a.g=GNSet{5,70}; a.r={5,70}; b.g=GNSet(Range(0,0));}
      Scope sc; GS a1=a,b1=b; std::string nm; int o1=i/SetOps::N,o2=i%SetOps::N;
      if (!s.op(o1,a1,b1,nm)) return;
      Step st(s.path,nm); eval();
      if (!s.judge(a1,b1)) return;
      s.one(o2,a1,b1,1);
   }};
}
// fixed-size sets
template <unsigned short W> struct NatOps {
   struct P { NatSet<W> g; RS r; };
   int depth; Path path; bool c10;
   std::vector<int> el; 
   bool same(const P& a) {
      const NatSet<W>& g=a.g; const RS& r=a.r;
      if (g.size()!=(int)r.size()) return bad(fmt("size() is %d, the set is ",g.size())+show(r));
      if (g.empty()!=r.empty()) return bad("empty() is wrong for "+show(r));
      if (g.largest()!=(r.empty() ? -1 : *r.rbegin())) return bad("largest() is wrong for "+show(r));
      std::vector<int> it; for(auto v : g) { it.push_back(v); if (it.size()>r.size()+2) break;}
      if (!std::equal(it.begin(),it.end(),r.begin(),r.end())) return bad("iteration is wrong for "+show(r));
      it.clear(); for(auto k=g.cbegin();k!=g.cend();k++) { it.push_back(*k); if (it.size()>r.size()+2) break;}
      if (!std::equal(it.begin(),it.end(),r.begin(),r.end())) return bad("constant iteration is wrong for "+show(r));
      for(int e=0;e<W*64;e++) if (g.contains(e)!=(r.count(e)>0)) return bad(fmt("contains(%d) is wrong for ",e)+show(r));
      std::ostringstream os; os << g; if (os.str()!=show(r)) return bad("prints "+os.str()+" for "+show(r));
      GNSet w(g); if (!sameSet(w,r,W*64)) return false;
      GNSet w2(g); w2.insert(W*64+3); RS r2=r; r2.insert(W*64+3); return sameSet(w2,r2,W*64+10);
   }
   int N() const { return (int)el.size()+12;}
   bool op(int o,P& a,P& b,std::string& nm) {
      if (o<(int)el.size()) { nm=fmt("insert %d",el[o]); a.g.insert(el[o]); a.r.insert(el[o]); return true;} o-=el.size();
      switch(o) {
         case 0: nm="clear"; a.g.clear(); a.r.clear(); return true;
         case 1: nm="A |= B"; a.g.unionWith(b.g); a.r.insert(b.r.begin(),b.r.end()); return true;
         case 2: nm="A &= B"; a.g.interWith(b.g); { RS t; for(int x : a.r) if (b.r.count(x)) t.insert(x); a.r=t;} return true;
         case 3: nm="complement"; a.g.complement(); { RS t; for(int x=0;x<W*64;x++) if (!a.r.count(x)) t.insert(x); a.r=t;} return true;
         case 4: nm="B = A"; b.g=a.g; b.r=a.r; return true;
         case 5: nm="swap"; { NatSet<W> t(std::move(a.g)); a.g=b.g; b.g=t;} std::swap(a.r,b.r); return true;
         case 11: nm="A = everything"; a.g=NatSet<W>(0,W*64-1); a.r.clear(); for(int x=0;x<W*64;x++) a.r.insert(x); return true;
         case 6: nm="A = [3,60]"; a.g=NatSet<W>(3,60); a.r.clear(); for(int x=3;x<=60;x++) a.r.insert(x); return true;
         case 7: nm="A = [4,3]"; a.g=NatSet<W>(4,3); a.r.clear(); return true;
         case 8: nm="A = {2,5}"; a.g=NatSet<W>{2,5}; a.r={2,5}; return true;
         case 9: nm="A = A|B"; a.g = a.g|b.g; a.r.insert(b.r.begin(),b.r.end()); return true;
         case 10: nm="A = A&B"; a.g = a.g&b.g; { RS t; for(int x : a.r) if (b.r.count(x)) t.insert(x); a.r=t;} return true;
      }
      return false;
   }
   bool judge(const P& a,const P& b) {
      states(1); bool eq=a.r==b.r;
      if ((a.g==b.g)!=eq) return bad("== is wrong: "+show(a.r)+" "+show(b.r));
      if (c10) { NatSet<W> f; for(int x : a.r) f.insert(x); if (!(f==a.g)) return bad("not equal to a set with the same elements "+show(a.r));
         if (std::hash<NatSet<W>>{}(f)!=std::hash<NatSet<W>>{}(a.g)) return bad("equal sets, different hash values"); return true;}
      return same(a);
   }
   void dfs(const P& a0,const P& b0,int d) {
      if (gBad) return; if (d==depth) { trace(); return;}
      for(int o=0;o<N() && !gBad;o++) one(o,a0,b0,d);
   }
   void one(int o,const P& a0,const P& b0,int d) {
      Scope sc; P a=a0,b=b0; std::string nm; if (!op(o,a,b,nm)) return; Step st(path,nm); eval();
      if (!judge(a,b)) return;
      uint64_t h=W; for(int x : a.r) h=mix(h,x); h=mix(h,9999); for(int x : b.r) h=mix(h,x); if (!a.r.empty()) distinct(h);
      dfs(a,b,d+1);
   }
};
template <unsigned short W> Space natSpace(int depth,bool c10) {
   NatOps<W> base; base.depth=depth; base.c10=c10;
   base.el = W==1 ? std::vector<int>{0,1,31,62,63} : std::vector<int>{0,1,63,64,65,W*64-1};
   return Space{fmt("fixed sets of %d words: operation sequences of length %d",(int)W,depth),(uint64_t)base.N()*base.N(),[=](uint64_t i) {
      mute(); gBad=false; NatOps<W> s=base; s.path.ops.reserve(64); gPath=&s.path; typename NatOps<W>::P a,b,a1,b1; std::string nm;
      a1=a;b1=b; if (!s.op(i/s.N(),a1,b1,nm)) return; Step st(s.path,nm); if (!s.judge(a1,b1)) return; s.one(i%s.N(),a1,b1,1);
   }};
}
// ranges: every pair of ends, every way to make one
static Space rangeSpace(int n) {
   return Space{fmt("ranges with ends in -2..%d",n),(uint64_t)(n+3)*(n+3),[=](uint64_t i) {
      mute(); gBad=false; Path p; gPath=&p; int f=(int)(i/(n+3))-2,t=(int)(i%(n+3))-2;
      struct V { Range r; std::vector<int> e; const char* nm; }; std::vector<V> vs;
      auto seq=[](int a,int b) { std::vector<int> v; if (a<=b) for(int x=a;x<b;x++) v.push_back(x); else for(int x=a;x>b;x--) v.push_back(x); return v;};
      auto cl=[](int a,int b) { std::vector<int> v; if (a<=b) for(int x=a;x<=b;x++) v.push_back(x); else for(int x=a;x>=b;x--) v.push_back(x); return v;};
      vs.push_back({Range(f,t),seq(f,t),"Range"}); vs.push_back({Range::open(f,t),seq(f,t),"open"}); vs.push_back({Range::close(f,t),cl(f,t),"close"});
      vs.push_back({Range::openInc(f,t),f<=t ? seq(f,t) : std::vector<int>{},"openInc"}); vs.push_back({Range::closeInc(f,t),f<=t ? cl(f,t) : std::vector<int>{},"closeInc"});
      { auto v=seq(f,t); std::reverse(v.begin(),v.end()); vs.push_back({Range(f,t).flip(),v,"flip"});}
      for(auto& v : vs) {
         Step st(p,fmt("%s(%d,%d)",v.nm,f,t)); eval(); states(1);
         std::vector<int> it; for(auto x : v.r) { it.push_back(x); if (it.size()>500) break;}
         if (it!=v.e) { bad("a range iterates over the wrong values"); return;}
         it.clear(); for(auto k=v.r.begin();k!=v.r.end();k++) { it.push_back(*k); if (it.size()>500) break;}
         if (it!=v.e) { bad("a range iterates over the wrong values (postfix)"); return;}
         if (v.r.size()!=(int)v.e.size()) { bad(fmt("size of a range is %d instead of %zu",v.r.size(),v.e.size())); return;}
         for(int x=-4;x<=n+2;x++) if (v.r.contains(x)!=(std::find(v.e.begin(),v.e.end(),x)!=v.e.end())) { bad(fmt("contains(%d) is wrong",x)); return;}
         bool neg=false; for(int x : v.e) neg|=x<0;
         if (!neg) { GNSet g(v.r); RS r(v.e.begin(),v.e.end()); if (!sameSet(g,r,n+4)) return; g.insert(n+2); r.insert(n+2); if (!sameSet(g,r,n+4)) return;}
         if (v.e.size()>1) distinct(mix(i,(uint64_t)v.nm[0]*31+v.nm[strlen(v.nm)-1])); trace();
      }
   }};
}
// free functions over sets, all subsets of a small universe
static Space helperSpace() {
   static const int U[]={0,2,5,62,63,64,66,130};
   return Space{"set helper functions: all pairs of subsets of 8 values",256*256,[](uint64_t i) {
      mute(); gBad=false; Path p; gPath=&p; int ma=i/256,mb=i%256; RS ra,rb; GNSet a,b; std::set<int> sa,sb;
      for(int k=0;k<8;k++) { if (ma>>k&1) { ra.insert(U[k]); a.insert(U[k]);} if (mb>>k&1) { rb.insert(U[k]); b.insert(U[k]);}} sa=ra; sb=rb;
      Step st(p,"A="+show(ra)+" B="+show(rb)); eval(); states(1);
      auto odd=[](int v) { return v%2==1;};
      RS ro; int sm=0,mn=std::numeric_limits<int>::max(),mxv=std::numeric_limits<int>::min();
      for(int x : ra) { if (odd(x)) { ro.insert(x); mn=std::min(mn,100-x); mxv=std::max(mxv,100-x);} sm+=3*x+1;}
      if (!sameSet(filter(a,odd),ro,140)) return;
      if (sum(a,[](int v) { return 3*v+1;})!=sm) { bad("sum is wrong"); return;}
      if (min(a,odd,[](int v) { return 100-v;})!=mn) { bad("filtered min is wrong"); return;}
      if (max(a,odd,[](int v) { return 100-v;})!=mxv) { bad("filtered max is wrong"); return;}
      if (std::foldl(a,[](int acc,int v) { return acc*2+v;},1)!=[&]{ int acc=1; for(int x : ra) acc=acc*2+x; return acc;}()) { bad("foldl is wrong"); return;}
      if (std::member(a,odd)!=!ro.empty()) { bad("member is wrong"); return;}
      // ordered sets
      RS u=ra; u.insert(rb.begin(),rb.end()); RS n; for(int x : ra) if (rb.count(x)) n.insert(x);
      if ((sa|sb)!=u) { bad("| of ordered sets is wrong"); return;}
      if ((sa&sb)!=n) { bad("& of ordered sets is wrong"); return;}
      RS rm=ra; rm.erase(63); if (remove(sa,63)!=rm) { bad("remove from an ordered set is wrong"); return;}
      if (std::filter(sa,odd)!=ro) { bad("filter of an ordered set is wrong"); return;}
      if (std::min(sa)!=(ra.empty() ? std::numeric_limits<int>::max() : *ra.begin()) || std::max(sa)!=(ra.empty() ? std::numeric_limits<int>::min() : *ra.rbegin())) { bad("min/max of an ordered set is wrong"); return;}
      if (sum(sa,[](const int& v) { return 3*v+1;})!=sm) { bad("sum over an ordered set is wrong"); return;}
      if (!sameSet(a|b,u,140) || !sameSet(a&b,n,140)) return;
      RS df; for(int x : ra) if (!rb.count(x)) df.insert(x); if (!sameSet(a-b,df,140)) return;
      if (!ra.empty() && !rb.empty()) distinct(i+1); trace();
   }};
}
static Space iotaSpace() {
   return Space{"sets from integer intervals and single far elements",260,[](uint64_t i) {
      mute(); gBad=false; Path p; gPath=&p; eval();
      for(int b=(int)i;b<=260;b++) { Scope sc; Step st(p,fmt("setFrom(%d..%d)",(int)i,b)); RS r; for(int x=i;x<b;x++) r.insert(x);
         states(1); if (!sameSet(setFrom(std::ranges::iota_view<int,int>((int)i,b)),r,264)) return;
         if (b>(int)i && !sameSet(GNSet((int)i,b-1),r,264)) return; 
         if (b>(int)i && !sameSet(GNSet(Range::open((int)i,b)),r,264)) return;
         if (b>(int)i && !sameSet(GNSet(Range::close(b-1,(int)i)),r,264)) return; trace(); distinct(mix(i,b));}
      for(int e : {300,1000,5000,32767,32768,40000,65535,2097151,2097152,3000000}) { if (e>1000000 && i%64) continue; Scope sc; int v=e+(int)i%3; Step st(p,fmt("{%d,%d}",(int)i,v)); GNSet g; g.insert(v); g.insert((int)i); if (!sameSet(g,RS{(int)i,v},10)) return;
         if (!g.contains(v) || g.contains(v-1)!=(v-1==(int)i)) { bad("contains"); return;} g.removeAbove(v-1); if (!sameSet(g,RS{(int)i},10)) return; 
         GNSet q((int)i,(int)i); q.unionWith(GNSet(v,v)); if (!sameSet(q,RS{(int)i,v},10)) return; q.remove((int)i); if (!sameSet(q,RS{v},10)) return; q.removeBelow(v+1); if (!sameSet(q,RS{},10)) return; trace();}
   }};
}
static Space wideSpace() { // fixed sets with many words
   return Space{"fixed sets of 600 words, pairs of far elements",100,[](uint64_t i) {
      mute(); gBad=false; Path p; gPath=&p; static const int e[]={0,63,64,1000,32767,32768,32769,33000,38000,38399}; int a=e[i/10],b=e[i%10]; Step st(p,fmt("{%d,%d}",a,b)); eval(); states(1);
      NatSet<600> n; n.insert(a); n.insert(b); RS r{a,b}; std::vector<int> it; for(auto v : n) it.push_back(v); std::vector<int> ic; for(auto k=n.cbegin();k!=n.cend();++k) ic.push_back(*k);
      if (!std::equal(it.begin(),it.end(),r.begin(),r.end()) || ic!=it || n.size()!=(int)r.size() || n.largest()!=*r.rbegin() || !n.contains(a) || !n.contains(b)) { bad("a wide fixed set is wrong"); return;}
      if (!sameSet(GNSet(n),r,10)) return; trace(); distinct(i+1);}};
}
// ================================================================================ C11: mirror
template <unsigned short W> static bool mirror1(const RS& r,int ofs) {
   NatSet<W> s; for(int x : r) s.insert(x);
   eval(); trans(1);
   NatSet<W> m(ofs,s); NatSet<W> m2=ofs-s; NatSet<W> want; for(int x : r) want.insert(ofs-x);
   if (!(m==want) || !(m2==want)) { std::ostringstream os; os << m; bad(fmt("%d - %s (%d words) gives %s",ofs,show(r).c_str(),(int)W,os.str().c_str())); return false;}
   if (!(s==s) || s.size()!=(int)r.size()) { bad("the operand changed"); return false;}
   return true;
}
template <unsigned short W> static bool mirrorAll(const RS& r) {
   int mx=r.empty() ? 0 : *r.rbegin(); states(1); if (r.size()>1) { uint64_t h=W; for(int x : r) h=mix(h,x); distinct(h);}
   for(int o=mx;o<W*64;o++) if (!mirror1<W>(r,o)) return false;
   trace(); return true;
}
template <unsigned short W> static void mirrorSpaces(std::vector<Space>& sp,bool t) {
   const int n=W*64;
   sp.push_back(Space{fmt("mirrors of all sets of at most 2 values, %d words, every offset",(int)W),(uint64_t)n+1,[](uint64_t i) {
      mute(); gBad=false; Path p; gPath=&p; const int n=W*64;
      if (i==(uint64_t)n) { mirrorAll<W>({}); return;}
      for(int b=i;b<n;b++) if (!mirrorAll<W>({(int)i,b})) return;
      if (wantSample()) sample(fmt("all {%d,b} in %d words, all offsets",(int)i,(int)W));
   }});
   if (W<=2 || t) sp.push_back(Space{fmt("mirrors of all sets of 3 values, %d words, every offset",(int)W),(uint64_t)n*n,[](uint64_t i) {
      mute(); gBad=false; Path p; gPath=&p; const int n=W*64; int a=i/n,b=i%n; if (b<=a) return; for(int c=b+1;c<n;c++) if (!mirrorAll<W>({a,b,c})) return;}});
   sp.push_back(Space{fmt("mirrors of all intervals and their complements, %d words, every offset",(int)W),(uint64_t)n*n,[](uint64_t i) {
      mute(); gBad=false; Path p; gPath=&p; const int n=W*64; int a=i/n,b=i%n; if (b<a) return; if (W>2 && (a%5) && (a%64>1) && (a%64<62)) return;
      RS r,q; for(int x=0;x<n;x++) (x>=a && x<=b ? r : q).insert(x); if (!mirrorAll<W>(r)) return; mirrorAll<W>(q);}});
   sp.push_back(Space{fmt("mirrors of all subsets of windows at word boundaries, %d words",(int)W),(uint64_t)1<<(t?12:9),[t](uint64_t m) {
      mute(); gBad=false; Path p; gPath=&p; const int n=W*64; int k=t?12:9;
      for(int base : {0,64-k,60,64,124,128-k,n-k}) { if (base<0 || base+k>n) continue; RS r; for(int x=0;x<k;x++) if (m>>x&1) r.insert(base+x); if (!mirrorAll<W>(r)) return; r.insert(0); if (!mirrorAll<W>(r)) return; r.insert(n-1); if (!mirrorAll<W>(r)) return;}}});
}
// the reversals of a byte and of a word the mirror is made of
static Space reversals() {
   return Space{"reversals of all bytes, of all words of at most 3 bits and their complements, of all intervals of bits",65,[](uint64_t i) {
      mute(); gBad=false; Path p; gPath=&p; typedef unsigned long long W;
      auto plain=[](W w,int n) { W r=0; for(int b=0;b<n;b++) if (w>>b&1) r|=1ull<<(n-1-b); return r;};
      auto word=[&](W w) { eval(); trans(2); W want=plain(w,64); W a=std::revBitsOfLong(w),b=std::revBitsOfWord(w); if (a!=want || b!=want) { bad(fmt("the reversals of %016llx are %016llx and %016llx instead of %016llx",w,a,b,want)); return false;} return true;};
      if (i==64) { for(int b=0;b<256;b++) { eval(); states(1); unsigned char r=std::revBitsOfByte((unsigned char)b); if (r!=plain(b,8)) { bad(fmt("the reversal of the byte %02x is %02x",b,(int)r)); return;} distinct(b+1);} trace(); return;}
      for(int j=i;j<64;j++) for(int k=j;k<64;k++) { W w=1ull<<i|1ull<<j|1ull<<k; states(1); if (!word(w) || !word(~w)) return;
         W iv=(~0ull>>(63-k)) & ~(i==0 ? 0ull : ~0ull>>(64-i)); if (j==k && (!word(iv) || !word(~iv))) return; distinct(mix(w,k+1));}
      trace();}};
}
// ================================================================================ C12: heap
struct HK { Own key=0; Own id=-1; HK() {} HK(int k,int i) : key(k),id(i) {} bool operator==(const HK& o) const { return (int)id==(int)o.id;} HK& operator--(int) { key=Own((int)key-1); return *this;} friend std::ostream& operator<<(std::ostream& os,const HK& h) { return os<<(int)h.key;} };
typedef Heap<HK,bool(*)(const HK&,const HK&)> H;
static bool lessK(const HK& a,const HK& b) { return a.key<b.key;}
static bool moreK(const HK& a,const HK& b) { return a.key>b.key;}
struct HeapSeq { // the whole sequence is replayed for every prefix extension (locations are pointers, no copying)
   int cap; bool mn; int depth; Path path;
   struct St { Pool pool; H h; std::map<int,const H::LocType*> loc; std::map<int,int> key; int next=0; St(int cap,bool mn) : pool(512),h(&pool,cap,mn?lessK:moreK) {} };
   bool judge(St& s,bool mn) {
      states(1);
      if (s.h.size()!=s.key.size() || s.h.empty()!=s.key.empty()) return bad(fmt("size is %u instead of %zu",s.h.size(),s.key.size()));
      std::set<int> ids; for(unsigned i=0;i<s.h.size();i++) { HK v=s.h[i]->value(); if (!s.key.count(v.id) || s.key[v.id]!=v.key || !ids.insert(v.id).second) return bad("the content is wrong");
         if (s.h[i]!=s.loc[v.id]) return bad("an element is no longer at the location it was given");}
      for(auto& [id,l] : s.loc) if (l->value().id!=id || (**l).key!=s.key[id]) return bad("a location no longer holds its element");
      return true;
   }
   bool drop(St& s,const HK& v,const char* what) { if (!s.key.count(v.id) || s.key[v.id]!=v.key) return bad(std::string(what)+" returns an element that is not in the heap"); s.key.erase(v.id); s.loc.erase(v.id); return true;}
   bool extract(St& s) {
      HK v=s.h.extractMax(); int best=0; bool f=true; for(auto& [id,k] : s.key) if (f || (mn ? k<best : k>best)) { best=k; f=false;}
      if (v.key!=best) return bad(fmt("extractMax returns key %d, the best is %d",v.key,best));
      return drop(s,v,"extractMax");
   }
   // op: 0..2 insertHeap(key), 3 extract, 4+k remove k-th oldest, 8+k decrease k-th oldest (min order)
   static constexpr int NOPS=12;
   int apply(St& s,int o,std::string& nm) { // 0 not applicable, 1 ok, -1 bad
      if (o<3) { nm=fmt("insert %d",o); HK v(o,s.next++); auto l=s.h.insertHeap(v); s.loc[v.id]=l; s.key[v.id]=o; return 1;}
      if (o==3) { if (s.key.empty()) return 0; nm="extract"; return extract(s) ? 1 : -1;}
      int k=o<8 ? o-4 : o-8; if (k>=(int)s.key.size()) return 0; auto it=s.key.begin(); std::advance(it,k); int id=it->first;
      if (o<8) { nm=fmt("remove #%d",id); auto l=s.loc[id]; HK v=s.h.remove(const_cast<H::LocType*>(l)); if (v.id!=id) return bad(fmt("remove(#%d) removed #%d",id,v.id)),-1; return drop(s,v,"remove") ? 1 : -1;}
      if (!mn) return 0;
      nm=fmt("decrease #%d",id); s.h.decrease(const_cast<H::LocType*>(s.loc[id])); s.key[id]--; return 1;
   }
   void run(const std::vector<int>& seq) {
      gBad=false; gPath=&path; path.ops.clear(); St s(cap,mn); eval();
      uint64_t h=cap*2+mn;
      for(int o : seq) { std::string nm; int r=apply(s,o,nm); if (r==0) { return;} path.ops.push_back(nm); trans(1); if (r<0 || !judge(s,mn)) return; h=mix(h,o);}
      // drain: must come out best first
      for(auto& [id,k] : s.key) if (s.h.find(HK(0,id))!=s.loc[id]) { bad(fmt("find(#%d) does not return its location",id)); return;}
      for(int id=0;id<s.next;id++) if (!s.key.count(id) && s.h.find(HK(0,id))!=nullptr) { bad(fmt("find(#%d) returns an element that left the heap",id)); return;}
      if (s.h.find(HK())!=nullptr) { bad("find of an element that was never inserted returns a location"); return;}
      if (s.key.size()>1) distinct(h);
      while(!s.key.empty()) { path.ops.push_back("drain"); if (!extract(s) || !judge(s,mn)) return;}
      if (!s.h.empty()) { bad("not empty after draining"); return;}
      if (s.h.find(HK())!=nullptr || s.h.find(HK(0,0))!=nullptr) { bad("find in an empty heap returns a location"); return;}
      trace();
      if (wantSample() && (sh->evals%50021)==0) sample(path.show());
      path.ops.clear();
   }
   void all(std::vector<int>& seq,int d) { // every sequence of exactly `depth` applicable operations
      if (gBad) return; if ((int)seq.size()==d) { Scope sc; run(seq); return;}
      for(int o=0;o<NOPS && !gBad;o++) {
         // applicability by size only
         int n=0; for(int x : seq) n += x<3 ? 1 : x<8 ? -1 : 0;
         if (o==3 && n==0) continue; if (o>=4 && o<8 && o-4>=n) continue; if (o>=8 && (!mn || o-8>=n)) continue;
         seq.push_back(o); all(seq,d); seq.pop_back();
      }
   }
};
static Space heapSpace(int cap,bool mn,int depth) {
   return Space{fmt("heap sequences of length %d, capacity %d, %s first",depth,cap,mn?"smallest":"largest"),144,[=](uint64_t i) {
      mute(); HeapSeq q; q.cap=cap; q.mn=mn; q.depth=depth; gBad=false; std::vector<int> seq;
      int a=i/12,b=i%12; if (a>=3) return; if (b>=5 && b<8) return; if (b>8) return; if (!mn && b>=8) return;
      seq={a,b}; q.all(seq,depth); }};
}
static Space heapBuildSpace(int n,int keys,int cap) {
   return Space{fmt("heap built from all sequences of %d keys out of %d, capacity %d",n,keys,cap),(uint64_t)pow(keys,n),[=](uint64_t i) {
      mute(); gBad=false; HeapSeq q; q.cap=cap; q.mn=true; Path& p=q.path; gPath=&p; HeapSeq::St s(cap,true); eval(); uint64_t v=i;
      for(int k=0;k<n;k++,v/=keys) { HK x(v%keys,s.next++); s.loc[x.id]=s.h.insert(x); s.key[x.id]=x.key; p.ops.push_back(fmt("insert %d",x.key)); trans(1);}
      s.h.buildHeap(); p.ops.push_back("buildHeap"); if (!q.judge(s,true)) return;
      // topological use: extract one, decrease all others with larger id once, repeat
      int round=0; while(!s.key.empty()) { if (!q.extract(s)) return; if ((i+round)%2) { std::vector<int> ids; for(auto& [id,k] : s.key) ids.push_back(id); for(int id : ids) if ((id+round)%3==0) { s.h.decrease(const_cast<H::LocType*>(s.loc[id])); s.key[id]--; p.ops.push_back(fmt("decrease #%d",id)); if (!q.judge(s,true)) return;}} round++; if (!q.judge(s,true)) return;}
      distinct(mix(i,n)); trace();
   }};
}
// ================================================================================ C13: queue
template <class T> Space queueSpace(int init,int depth,int nops) {
   // ops: 0 enqueue, 1 dequeue, 2 clear, 3.. retract k-th (positions 0..2)
   return Space{fmt("queue(%d)%s: all sequences of length %d over %d operations",init,owns<T>,depth,nops),(uint64_t)pow(nops,depth),[=](uint64_t i) {
      mute(); gBad=false; Path p; gPath=&p; CQueue<T> q(init); std::deque<int> r; std::map<int,Location<T>*> loc; bool fifo=true; int next=1; eval(); uint64_t v=i;
      auto content=[&]() { std::vector<int> c; q.doOnAll([&](auto l) { c.push_back((int)l->value());}); return c;};
      for(int k=0;k<depth;k++,v/=nops) {
         int o=v%nops; trans(1);
         if (o==0) { p.ops.push_back("enq"); loc[next]=q.enQueue(next); r.push_back(next++);}
         else if (o==1) { p.ops.push_back("deq"); int x=q.deQueue();
            if (r.empty()) { if (x!=0) { bad("an empty queue returns an element"); return;} }
            else if (fifo) { if (x!=r.front()) { bad(fmt("dequeued %d instead of %d",x,r.front())); return;} loc.erase(x); r.pop_front();}
            else { auto it=std::find(r.begin(),r.end(),x); if (it==r.end()) { bad(fmt("dequeued %d which is not in the queue",x)); return;} loc.erase(x); r.erase(it);} }
         else if (o==2) { p.ops.push_back("clear"); q.clear(); r.clear(); loc.clear(); fifo=true;}
         else { int w=o-3; if (w>=(int)r.size()) return; int x=r[w]; p.ops.push_back(fmt("retract %d",x));
            if (w==1) { if (!q.retract(x)) { bad("retract does not find its element"); return;} } else q.retract(loc[x]);
            if (r.front()!=x) fifo=false; loc.erase(x); r.erase(r.begin()+w);}
         states(1);
         if (q.size()!=(int)r.size() || q.empty()!=r.empty()) { bad(fmt("size %d instead of %zu",q.size(),r.size())); return;}
         auto c=content(); auto rr=std::vector<int>(r.begin(),r.end());
         if (fifo ? c!=rr : !std::is_permutation(c.begin(),c.end(),rr.begin(),rr.end())) { bad("the content is wrong"); return;}
         if ((int)q.peek()!=(c.empty() ? 0 : c[0])) { bad("peek is wrong"); return;}
         for(auto& [x,l] : loc) if ((int)l->value()!=x || (int)**l!=x) { bad(fmt("the location of %d holds something else",x)); return;}
         int seen=0; int got=(int)q.foldl([&](const T& acc,const T& e) { seen++; return (int)e%3==0 ? e : acc;},T(0)); int want=0; for(int e : c) if (e%3==0) { want=e; break;}
         if (got!=want) { bad("foldl is wrong"); return;}
      }
      uint64_t h=init; for(int x : r) h=mix(h,x); h=mix(h,next); if (!r.empty()) distinct(mix(h,i%1000)); 
      while(!r.empty()) { int x=q.deQueue(); if (fifo ? x!=r.front() : std::find(r.begin(),r.end(),x)==r.end()) { bad(fmt("drain: %d",x)); return;} r.erase(std::find(r.begin(),r.end(),x));}
      if (!q.empty() || q.size()) { bad("not empty after draining"); return;} trace();
      if (wantSample() && i%30011==17) sample(p.show());
   }};
}
static Space queueGrowSpace(int init,int maxn) { // rotate the ring, then fill far beyond the capacity, drain
   return Space{fmt("queue(%d): rotated by r then grown to n, r,n<=%d",init,maxn),(uint64_t)maxn*maxn,[=](uint64_t i) {
      mute(); gBad=false; Path p; gPath=&p; int rot=i/maxn,n=i%maxn+1; p.ops.push_back(fmt("rotate %d, fill %d",rot,n)); eval(); CQueue<int> q(init); int x=1,y=1;
      for(int k=0;k<rot;k++) { q.enQueue(x++); if (k%3==0) q.enQueue(x++); while(q.size()>(k%3==1?1:2)) { trans(1); if (q.deQueue()!=y++) { bad("wrong order while rotating"); return;}}}
      for(int k=0;k<n;k++) { q.enQueue(x++); trans(1); int c=y; bool ok=true; q.doOnAll([&](auto l) { ok&=l->value()==c++;}); if (!ok || c!=x) { bad("wrong content while growing"); return;} states(1);}
      while(!q.empty()) if (q.deQueue()!=y++) { bad("wrong order while draining"); return;} if (y!=x) { bad("elements lost"); return;} distinct(i+1); trace(); }};
}
// ================================================================================ C14: pool
static const int PSZ[]={1,16,24,48,64,65,200};
static Space poolSpace(int seg,int depth) {
   const int N=7+3; // allocations, mark, back to last mark, clear all
   return Space{fmt("pool with segments of %d: all sequences of length %d",seg,depth),(uint64_t)pow(N,depth),[=](uint64_t i) {
      mute(); gBad=false; Path p; gPath=&p; Pool pool(seg); struct B { unsigned char* p; int n; unsigned char f; }; std::vector<B> live; std::vector<std::pair<PoolMark,std::size_t>> marks; eval(); uint64_t v=i; unsigned char tag=1;
      for(int k=0;k<depth;k++,v/=N) { int o=v%N; trans(1);
         if (o<7) { int n=PSZ[o]; p.ops.push_back(fmt("allocate %d",n)); B b{(unsigned char*)pool.allocate(n),n,tag++};
            if ((uintptr_t)b.p%16) { bad("an allocation is not aligned on 16 bytes"); return;}
            for(auto& x : live) if (b.p<x.p+x.n && x.p<b.p+b.n) { bad("two live allocations overlap"); return;}
            memset(b.p,b.f,b.n); live.push_back(b);}
         else if (o==7) { p.ops.push_back("mark"); marks.push_back({pool.mark(),live.size()});}
         else if (o==8) { if (marks.empty()) return; p.ops.push_back("back to mark"); auto m=marks.back(); if (k%2) marks.pop_back(); pool.clear(m.first); live.resize(m.second); }
         else { p.ops.push_back("clear"); pool.clear(); live.clear(); marks.clear();}
         states(1);
         for(auto& x : live) for(int q=0;q<x.n;q++) if (x.p[q]!=x.f) { bad(fmt("a live allocation of %d bytes was overwritten",x.n)); return;}
      }
      if (live.size()>1) { uint64_t h=seg; for(auto& x : live) h=mix(h,x.n); distinct(mix(h,i)); } trace(); if (wantSample() && i%20011==5) sample(p.show()); }};
}
static Space poolManySpace() {
   return Space{"pool with many segments: n blocks, marks in between",400,[](uint64_t i) {
      mute(); gBad=false; Path p; gPath=&p; int n=(int)i+1; Pool pool(64); std::vector<std::pair<unsigned char*,int>> live; p.ops.push_back(fmt("%d blocks",n)); eval();
      PoolMark mid; std::size_t midN=0;
      for(int k=0;k<n;k++) { if (k==n/2) { mid=pool.mark(); midN=live.size();} int sz=8+(k*37)%90; auto q=(unsigned char*)pool.allocate(sz); memset(q,k&255,sz); live.push_back({q,sz}); trans(1);}
      auto ok=[&]() { for(std::size_t k=0;k<live.size();k++) for(int b=0;b<live[k].second;b++) if (live[k].first[b]!=(k&255)) return false; return true;};
      if (!ok()) { bad("blocks overwritten"); return;}
      pool.clear(mid); live.resize(midN); for(int k=(int)midN;k<n+20;k++) { int sz=8+(k*53)%150; auto q=(unsigned char*)pool.allocate(sz); memset(q,k&255,sz); live.push_back({q,sz}); trans(1);}
      states(1); if (!ok()) { bad("blocks overwritten after going back to a mark"); return;}
      // the space of what was released is used again
      Pool again(i%2 ? 64 : 256); again.allocate(40); PoolMark m0=again.mark(); std::set<void*> seen; for(int c=0;c<40;c++) { for(int k=0;k<n%7+1;k++) seen.insert(again.allocate(8+(k*37+n)%90)); if (i%3) again.clear(m0); else again.clear();}
      if (seen.size()>3u*(n%7+1)) { bad("released space is not used again"); return;}
      distinct(i+1); trace(); }};
}
// the same allocations, repeated after going back to the beginning (or to a mark) of a pool that had grown to many segments, must not grow it further
static Space poolRepeatSpace() {
   return Space{"pool with many segments: the same work again after going back",600,[](uint64_t i) {
      mute(); gBad=false; Path p; gPath=&p; int n=(int)(i%150)+1,kind=(int)(i/150); p.ops.push_back(fmt("%d blocks, back to %s",n,kind==0?"the beginning":kind==1?"a mark at the beginning":kind==2?"a mark in the first segment":"a mark in the middle")); eval();
      Pool pool(64); std::vector<void*> pre; int np= kind<2 ? 0 : kind==2 ? 1 : n/2; for(int k=0;k<np;k++) pre.push_back(pool.allocate(16)); PoolMark m=pool.mark();
      std::vector<std::pair<char*,int>> first; int w=(int)(i%4);
      auto work=[&](bool again) { for(int k=0;k<n;k++) { int sz= w==0 ? 64 : w==1 ? 16+(k*37)%48 : w==2 ? 48 : 8+(k*41)%120; auto q=(char*)pool.allocate(sz); memset(q,k&255,sz); trans(1);
            if (!again) first.push_back({q,sz}); else { bool in=false; for(auto& [b,l] : first) in|=b==q; if (!in) { bad(fmt("block %d is put in new space though the space of the same work was released",k)); return false;}}} return true;};
      work(false); for(int c=0;c<3;c++) { if (kind==0) pool.clear(); else pool.clear(m); if (!work(true)) return; states(1);}
      distinct(i+1); trace(); }};
}
// ================================================================================ C15: vectors, arrays, matrices
template <class T> Space vecSpace(int depth) {
   const int N=11;
   return Space{fmt("vectors%s: all sequences of length %d",owns<T>,depth),(uint64_t)pow(N,depth),[=](uint64_t i) {
      mute(); gBad=false; Path p; gPath=&p; Pool pool(256),other(128); typedef Vec<T,unsigned> V; V v(&pool,(i%3)); V w(&pool); std::vector<int> rv,rw; int next=1; eval(); uint64_t c=i;
      for(int k=0;k<depth;k++,c/=N) { int o=c%N; trans(1);
         switch(o) {
            case 0: p.ops.push_back("push"); if (v.push_back(next)!=rv.size()) { bad("push_back returns the wrong index"); return;} rv.push_back(next++); break;
            case 1: if (rv.empty()) return; p.ops.push_back("pop"); if ((int)v.pop_back()!=rv.back()) { bad("pop_back is wrong"); return;} rv.pop_back(); break;
            case 2: case 3: { unsigned at= o==2 ? 0 : rv.size()/2; if (at>=rv.size()) return; p.ops.push_back(fmt("remove %u",at)); int moved=-1; v.remove(at,[&](const T& x) { moved=(int)x;}); int last=rv.back(); if (at+1<rv.size()) { if (moved!=last) { bad("remove relinks the wrong element"); return;} } rv[at]=last; rv.pop_back(); break;}
            case 4: p.ops.push_back("clear"); v.clear(); rv.clear(); break;
            case 5: p.ops.push_back("w = v"); w=v; rw=rv; break;
            case 6: p.ops.push_back("v = w"); v=w; rv=rw; break;
            case 7: { p.ops.push_back("v[n+2] = x"); unsigned at=rv.size()+2; v[at]=next; rv.resize(at+1,-99999); rv[at]=next++; 
                      for(unsigned q=at-2;q<at;q++) { v.at(q,next); rv[q]=next++;} break;}
            case 8: { p.ops.push_back("v = copy of v in another pool"); V t(&other,v); v.clear(); v=t; break;}
            case 9: { p.ops.push_back("copy, change the copy"); V t(v); t.push_back(-5); if (t.size()>1) t.at(0,-7); break;}
            case 10: { p.ops.push_back("v moved away and back"); V t(std::move(v)); v=std::move(t); break;}
         }
         states(1);
         if (v.size()!=rv.size() || w.size()!=rw.size()) { bad(fmt("size %u instead of %zu",v.size(),rv.size())); return;}
         for(unsigned q=0;q<rv.size();q++) if ((int)v.get(q)!=rv[q] || (int)(T)v[q]!=rv[q]) { bad(fmt("element %u is %d instead of %d",q,(int)v.get(q),rv[q])); return;}
         for(unsigned q=0;q<rw.size();q++) if ((int)w.get(q)!=rw[q]) { bad("the other vector changed"); return;}
         std::vector<int> it; for(const T& x : v) it.push_back((int)x); if (it!=rv) { bad("iteration is wrong"); return;}
         it.clear(); for(auto q=v.cbegin();q!=v.cend();q++) it.push_back((int)*q); if (it!=rv) { bad("constant iteration is wrong"); return;}
      }
      if (rv.size()>1) { uint64_t h=3; for(int x : rv) h=mix(h,x); distinct(h);} trace(); if (wantSample() && i%40013==7) sample(p.show()); }};
}
// a vector that received another one lives in the pool of that one: what happens to its old pool does not matter
template <class T> Space vecMoveSpace() {
   return Space{fmt("vectors%s moved between pools, the old pool used again",owns<T>),12*12*2,[](uint64_t i) {
      mute(); gBad=false; Path p; gPath=&p; int n=(int)(i%12),m=(int)(i/12%12); bool back=i/144; p.ops.push_back(fmt("%d elements moved, %d more added, old pool %s",n,m,back?"cleared":"in use")); eval(); Scope sc;
      Pool a(128),b(128); typedef Vec<T,unsigned> V; V v(&a,2); v.push_back(-1); V w(&b,2); for(int k=0;k<n;k++) w.push_back(k); v=std::move(w); if (v.getPool()!=&b) { bad("the vector is not in the pool of the one it received"); return;}
      if (back) a.clear(); for(int k=0;k<m;k++) { v.push_back(n+k); trans(1); if (back) { auto q=(unsigned char*)a.allocate(24); memset(q,0x5a,24);}
         if (back) a.clear(); auto q=(unsigned char*)a.allocate(100); memset(q,0x5a,100);
         for(int e=0;e<=n+k;e++) if ((int)v.get(e)!=e) { bad(fmt("element %d is %d after the old pool was used again",e,(int)v.get(e))); return;} states(1);}
      distinct(i+1); trace(); }};
}
template <class T> Space farraySpace(int depth) {
   const int N=12;
   return Space{fmt("arrays%s: all sequences of length %d",owns<T>,depth),(uint64_t)pow(N,depth),[=](uint64_t i) {
      mute(); gBad=false; Path p; gPath=&p; typedef FArray<T> F; F a(2,5),b(3,7); std::vector<int> ra{5,5},rb{7,7,7}; eval(); uint64_t c=i; int next=10;
      for(int k=0;k<depth;k++,c/=N) { int o=c%N; trans(1);
         switch(o) {
            case 0: p.ops.push_back("a = b"); a=b; ra=rb; break;
            case 1: p.ops.push_back("b = a"); b=a; rb=ra; break;
            case 2: p.ops.push_back("swap"); { F t(std::move(a)); a=std::move(b); b=std::move(t);} std::swap(ra,rb); break;
            case 3: p.ops.push_back("a = copy"); { F t(a); a=t;} break;
            case 4: if (ra.empty()) return; p.ops.push_back("a[0] = x"); a[0]=next; ra[0]=next++; break;
            case 5: if (ra.empty()) return; p.ops.push_back("a[last] = x"); a[ra.size()-1]=next; ra.back()=next++; break;
            case 6: p.ops.push_back("a = {}"); a=F(); ra={}; break;
            case 7: p.ops.push_back("a = 4 times 1"); a=F(4,1); ra={1,1,1,1}; break;
            case 8: p.ops.push_back("a moved out, then = b"); { F t(std::move(a)); a=b; ra=rb;} break;
            case 9: p.ops.push_back("a moved out, copied, back"); { F t(std::move(a)); F u(a); a=std::move(t);} break;
            case 10: p.ops.push_back("a = copy of b changed"); { F t(b); if (rb.size()) t[0]=99; } break;
            case 11: p.ops.push_back("a = zero-length"); a=F((std::size_t)0); ra={}; break;
         }
         states(1);
         auto same=[](const F& f,const std::vector<int>& r) { if (f.size()!=r.size()) return false; for(std::size_t q=0;q<r.size();q++) if ((int)f[q]!=r[q]) return false; std::vector<int> it; for(auto q=f.begin();q!=f.end();++q) it.push_back((int)*q); return it==r;};
         if (!same(a,ra)) { bad("first array is wrong"); return;} if (!same(b,rb)) { bad("second array is wrong"); return;}
         if ((a==b)!=(ra==rb)) { bad("== is wrong"); return;}
         if (ra==rb && std::hash<F>{}(a)!=std::hash<F>{}(b)) { bad("equal arrays, different hash values"); return;}
      }
      if (!ra.empty()) { uint64_t h=11; for(int x : ra) h=mix(h,x); h=mix(h,1); for(int x : rb) h=mix(h,x); distinct(h);} trace(); }};
}
template <class T> Space matrixSpace(int n) {
   return Space{fmt("matrices%s: all shapes up to %dx%d (x%d)",owns<T>,n,n,n),(uint64_t)n*n*n,[=](uint64_t i) {
      mute(); gBad=false; Path p; gPath=&p; int r=i/(n*n)+1,c=i/n%n+1,d=i%n+1; p.ops.push_back(fmt("%d x %d x %d",r,c,d)); eval();
      Matrix<T,2> m(r,c); std::map<std::pair<int,int>,int> ref; int x=1;
      for(int a=0;a<r;a++) for(int b=0;b<c;b++) { m[a][b]=x; ref[{a,b}]=x++; trans(1);}
      auto ok=[&](Matrix<T,2>& q) { for(int a=0;a<r;a++) for(int b=0;b<c;b++) if ((int)q[a][b]!=ref[{a,b}]) return false; return q.getDim(0)==r && q.getDim(1)==c && q.getArity()==2;};
      if (!ok(m)) { bad("a matrix cell has the wrong value"); return;}
      Matrix<T,2> m2(m); Matrix<T,2> m3; m3=m; if (!ok(m2) || !ok(m3)) { bad("a copied matrix is wrong"); return;}
      m2[0][0]=-1; if (!ok(m) || !ok(m3)) { bad("copies share cells"); return;}
      std::ostringstream os; os << m; std::string w; for(int a=0;a<r;a++) for(int b=0;b<c;b++) w+=fmt("m[%d][%d] = %d\n",a,b,ref[{a,b}]); if (os.str()!=w) { bad("a matrix prints wrong"); return;}
      int dims[3]={r,c,d}; FMatrix<FArray<T>,3> t(dims); x=1; for(int a=0;a<r;a++) for(int b=0;b<c;b++) for(int e=0;e<d;e++) t[a][b][e]=x++;
      x=1; for(int a=0;a<r;a++) for(int b=0;b<c;b++) for(int e=0;e<d;e++) { states(1); if ((int)t[a][b][e]!=x++) { bad("a 3-d matrix cell has the wrong value"); return;}}
      distinct(i+1); trace(); }};
}
// assignment between matrices of every pair of shapes (also 3 dimensions, where the shape decides the layout)
template <class T> Space matrixPairSpace(int n) {
   uint64_t S=(uint64_t)n*n;
   return Space{fmt("matrices%s: assignment between all pairs of shapes up to %dx%d",owns<T>,n,n),S*S,[=](uint64_t i) {
      mute(); gBad=false; Path p; gPath=&p; int r=i%S/n+1,c=i%n+1,r2=i/S/n+1,c2=i/S%n+1; p.ops.push_back(fmt("a %d x %d matrix assigned to a %d x %d one",r,c,r2,c2)); eval();
      Matrix<T,2> m(r,c),q(r2,c2); int x=1; for(int a=0;a<r;a++) for(int b=0;b<c;b++) m[a][b]=x++; for(int a=0;a<r2;a++) for(int b=0;b<c2;b++) q[a][b]=-x++;
      q=m; x=1; if (q.getDim(0)!=r || q.getDim(1)!=c) { bad("the dimensions are not those of the source"); return;}
      for(int a=0;a<r;a++) for(int b=0;b<c;b++,x++) if ((int)q[a][b]!=x || (int)m[a][b]!=x) { bad("a cell has the wrong value"); return;}
      q[r-1][c-1]=0; if ((int)m[r-1][c-1]!=r*c) { bad("cells are shared after assignment"); return;} q[r-1][c-1]=r*c;
      std::ostringstream os; os << q; std::string w; x=1; for(int a=0;a<r;a++) for(int b=0;b<c;b++) w+=fmt("m[%d][%d] = %d\n",a,b,x++); if (os.str()!=w) { bad("prints wrong after assignment"); return;}
      int d1[3]={r,c,r2},d2[3]={c2,r,c}; FMatrix<FArray<T>,3> t(d1),u(d2); x=1; for(int a=0;a<r;a++) for(int b=0;b<c;b++) for(int e=0;e<r2;e++) t[a][b][e]=x++;
      for(int a=0;a<c2;a++) for(int b=0;b<r;b++) for(int e=0;e<c;e++) u[a][b][e]=-1;
      u=t; x=1; for(int k=0;k<3;k++) if (u.getDim(k)!=d1[k]) { bad("the 3 dimensions are not those of the source"); return;}
      for(int a=0;a<r;a++) for(int b=0;b<c;b++) for(int e=0;e<r2;e++) if ((int)u[a][b][e]!=x++) { bad("a 3-d cell has the wrong value"); return;}
      states(1); trans(x); distinct(i+1); trace(); }};
}
// ================================================================================ C16: hash tables
struct BadHash { std::size_t operator()(int k) const { return k%3; } };
struct FarHash { std::size_t operator()(int k) const { return ~(std::size_t)0 - k; } };
template <class HF,class T=int> Space htSpace(const char* nm,int depth,std::size_t size) {
   const int K=4,N=K*3+1+1;
   return Space{fmt("hash table(%zu)%s, %s: all sequences of length %d",size,owns<T>,nm,depth),(uint64_t)pow(N,depth),[=](uint64_t i) {
      mute(); gBad=false; Path p; gPath=&p; Pool pool(512); Hashtable<T,T,HF> t(&pool,size); std::map<int,int> r; int next=1; eval(); uint64_t c=i;
      for(int k=0;k<depth;k++,c/=N) { int o=c%N; trans(1);
         if (o<K) { int key=o*3-1+(o==0); p.ops.push_back(fmt("insert %d",key)); t.insert(key,next); r[key]=next++;}
         else if (o<2*K) { int key=(o-K)*3-1+(o==K); p.ops.push_back(fmt("find or add %d",key)); T v(-1); auto at=t.getLoc(key,v); if ((bool)at!=(r.count(key)>0) || (at && (int)v!=r[key])) { bad(fmt("lookup of %d is wrong",key)); return;} if (!at) { t.safeInsertAt(at,key,next); r[key]=next++;} }
         else if (o<3*K) { int key=(o-2*K)*3-1+(o==2*K); if (r.count(key)) return; p.ops.push_back(fmt("add %d",key)); t.safeInsert(key,next); r[key]=next++;}
         else if (o==3*K) { p.ops.push_back("clear"); t.clear(); r.clear();}
         else { p.ops.push_back("visit"); std::map<int,int> seen; int n=0; t.doOnAll([&](const T& k,const T& v) { seen[(int)k]=(int)v; n++;}); if (seen!=r || n!=(int)r.size()) { bad("doOnAll does not visit exactly the entries"); return;}}
         states(1); if (t.size()!=r.size()) { bad(fmt("size %u instead of %zu",t.size(),r.size())); return;}
         for(int key=-3;key<12;key++) { T v(-1); bool g=t.get(key,v); if (g!=(r.count(key)>0) || (g && (int)v!=r[key])) { bad(fmt("get(%d) is wrong",key)); return;}}
      }
      if (r.size()>1) { uint64_t h=size; for(auto& [k,v] : r) h=mix(mix(h,k+10),v); distinct(h);} trace(); if (wantSample() && i%30011==3) sample(p.show()); }};
}
template <class HF,class T=int> Space lhtSpace(const char* nm,int depth,std::size_t size) {
   const int K=6,N=K+2;
   return Space{fmt("node table(%zu)%s, %s: all sequences of length %d",size,owns<T>,nm,depth),(uint64_t)pow(N,depth),[=](uint64_t i) {
      mute(); gBad=false; Path p; gPath=&p; Pool pool(1024); LHashtable<T,HF> t(&pool,size); std::map<int,Node<T>*> r; eval(); uint64_t c=i; unsigned id=0;
      for(int k=0;k<depth;k++,c/=N) { int o=c%N; trans(1);
         if (o<K) { int key=o; p.ops.push_back(fmt("find or add %d",key)); Node<T>* at=nullptr; auto l=t.getLoc(key,at); if ((bool)l!=(r.count(key)>0) || (l && at!=r[key])) { bad(fmt("lookup of %d is wrong",key)); return;}
            if (!l) { T kk(key); auto nd=new (&pool) Node<T>(&pool,std::move(kk),id++,true); if (k%2) t.safeInsertAt(l,nd); else t.rawInsertAt(l,nd); r[key]=nd;} }
         else if (o==K) { p.ops.push_back("clear"); t.clear(); r.clear();}
         else { p.ops.push_back("visit"); std::map<int,Node<T>*> seen; int n=0; t.doOnAll([&](Node<T>* q) { seen[(int)q->get()]=q; n++;}); if (seen!=r || n!=(int)r.size()) { bad("doOnAll does not visit exactly the entries"); return;}}
         states(1); if (t.size()!=r.size()) { bad("size is wrong"); return;}
         for(int key=0;key<K+3;key++) { Node<T>* at=nullptr; auto l=t.getLoc(key,at); if ((bool)l!=(r.count(key)>0) || (l && at!=r[key])) { bad(fmt("lookup of %d is wrong",key)); return;}}
      }
      if (r.size()>1) { uint64_t h=size; for(auto& [k,v] : r) h=mix(h,k+10); distinct(mix(h,i%4096));} trace(); }};
}
// keys compared by an equality of their own, coarser than ==: the two of a pair are one key
struct PairEq { bool operator()(int a,int b) const { return a/2==b/2;} };
struct PairHash { std::size_t operator()(int k) const { return k/2;} };
struct PairHash1 { std::size_t operator()(int) const { return 1;} };
template <class HF> Space htEqualSpace(const char* nm,int depth) {
   const int K=6,N=2*K+2;
   return Space{fmt("tables whose keys have an equality of their own, %s: all sequences of length %d",nm,depth),(uint64_t)pow(N,depth),[=](uint64_t i) {
      mute(); gBad=false; Path p; gPath=&p; Pool pool(1024); Hashtable<int,int,HF,PairEq> t(&pool,2); LHashtable<int,HF,PairEq> l(&pool,2); std::map<int,std::pair<int,int>> r; std::map<int,Node<int>*> q; eval(); uint64_t c=i; unsigned id=0; int next=1;
      for(int k=0;k<depth;k++,c/=N) { int o=c%N; trans(1);
         if (o<K) { p.ops.push_back(fmt("insert %d",o)); t.insert(o,next); auto [it,nw]=r.emplace(o/2,std::make_pair(o,next)); if (!nw) it->second.second=next; next++;
            Node<int>* at=nullptr; auto x=l.getLoc(o,at); if ((bool)x!=(q.count(o/2)>0) || (x && at!=q[o/2])) { bad(fmt("node lookup of %d is wrong",o)); return;} if (!x) { int kk=o; auto nd=new (&pool) Node<int>(&pool,std::move(kk),id++,true); if (k%2) l.safeInsertAt(x,nd); else l.rawInsertAt(x,nd); q[o/2]=nd;} }
         else if (o<2*K) { int key=o-K; p.ops.push_back(fmt("find or add %d",key)); int v=-1; auto at=t.getLoc(key,v); auto it=r.find(key/2); if ((bool)at!=(it!=r.end()) || (at && v!=it->second.second)) { bad(fmt("lookup of %d is wrong",key)); return;} if (!at) { t.safeInsertAt(at,key,next); r[key/2]={key,next++};} }
         else if (o==2*K) { p.ops.push_back("clear"); t.clear(); l.clear(); r.clear(); q.clear();}
         else { p.ops.push_back("visit"); std::map<int,std::pair<int,int>> s; unsigned n=0; t.doOnAll([&](int k,int v) { s[k/2]={r.count(k/2) ? r[k/2].first : k,v}; n++;}); if (s!=r || n!=r.size()) { bad("doOnAll does not visit exactly the entries"); return;} }
         states(1); if (t.size()!=r.size() || l.size()!=q.size()) { bad("size is wrong"); return;}
         for(int key=0;key<K+2;key++) { int v=-1; auto it=r.find(key/2); bool g=t.get(key,v); if (g!=(it!=r.end()) || (g && v!=it->second.second)) { bad(fmt("get(%d) is wrong",key)); return;} Node<int>* at=nullptr; auto x=l.getLoc(key,at); if ((bool)x!=(q.count(key/2)>0) || (x && at!=q[key/2])) { bad(fmt("node lookup of %d is wrong",key)); return;} }
      }
      if (r.size()>1) { uint64_t h=7; for(auto& [k,v] : r) h=mix(mix(h,v.first),v.second); distinct(h);} trace(); }};
}
// tables built in memory that was used before (all words 1: the mark of a fresh table), of many sizes: nothing may be found in them
static Space htRecycledSpace() {
   return Space{"hash tables in used memory, of every requested size up to 60 and some larger",200,[](uint64_t i) {
      mute(); gBad=false; Path p; gPath=&p; std::size_t sz = i<120 ? i/2 : (i-120)*37+500; p.ops.push_back(fmt("size %zu",sz)); eval(); Scope sc; unsigned fill= i%2 ? 1u : ~0u;
      { Pool pool(1<<20); for(int k=0;k<3;k++) { auto b=(unsigned*)pool.allocate(1<<18); for(int q=0;q<(1<<16);q++) b[q]=fill;} pool.clear(); Hashtable<int,int> t(&pool,sz); int v=-1; int n=0; t.doOnAll([&](int,int) { n++;}); if (n || t.size()) { bad("a fresh table visits entries"); return;}
        for(int k=0;k<(int)(2*sz+20);k++) { trans(1); if (t.get(k,v) || (bool)t.getLoc(k,v)) { bad("a fresh table finds an entry"); return;}} for(int k=0;k<50;k++) t.insert(k*5,k); for(int k=0;k<250;k++) { bool in=k%5==0; if (t.get(k,v)!=in || (in && v!=k/5)) { bad("an entry is wrong"); return;}}}
      { Pool pool(1<<20); for(int k=0;k<3;k++) { auto b=(unsigned*)pool.allocate(1<<18); for(int q=0;q<(1<<16);q++) b[q]=fill;} pool.clear(); LHashtable<int> t(&pool,sz); Node<int>* at=nullptr; int n=0; t.doOnAll([&](Node<int>*) { n++;}); if (n || t.size()) { bad("a fresh table visits entries"); return;}
        for(int k=0;k<(int)(2*sz+20);k++) { trans(1); if ((bool)t.getLoc(k,at)) { bad("a fresh table finds an entry"); return;}} }
      states(1); distinct(i+1); trace(); }};
}
static Space htSizeSpace() {
   return Space{"hash tables of every requested size 0..2000 and around the largest",2000+40,[](uint64_t i) {
      mute(); gBad=false; Path p; gPath=&p; std::size_t sz = i<2000 ? i : 209939-20+(i-2000); p.ops.push_back(fmt("size %zu",sz)); eval();
      { Scope sc; Pool pool(1<<16); Hashtable<int,int> t(&pool,sz); for(int k=0;k<40;k++) t.insert(k*7919,k); for(int k=0;k<40;k++) { int v=-1; trans(1); if (!t.get(k*7919,v) || v!=k) { bad("an entry is lost"); return;}} int v; if (t.get(5,v)) { bad("phantom entry"); return;} }
      { Scope sc; Pool pool(1<<16); LHashtable<int> t(&pool,sz); for(int k=0;k<40;k++) { Node<int>* at=nullptr; auto l=t.getLoc(k*7919,at); if (l) { bad("phantom entry"); return;} int kk=k*7919; t.safeInsertAt(l,new (&pool) Node<int>(&pool,std::move(kk),k,true)); } for(int k=0;k<40;k++) { Node<int>* at=nullptr; trans(1); if (!t.getLoc(k*7919,at) || (int)at->getId()!=k) { bad("an entry is lost"); return;}} }
      states(1); distinct(i+1); trace(); }};
}
// ================================================================================ C17: sorting
static Space sortSpace(int n,int keys) {
   return Space{fmt("sorting all sequences of length %d over %d keys",n,keys),(uint64_t)pow(keys,n),[=](uint64_t i) {
      mute(); gBad=false; Path p; gPath=&p; std::vector<std::pair<int,int>> v; uint64_t c=i; for(int k=0;k<n;k++,c/=keys) v.push_back({(int)(c%keys),k}); eval(); states(1);
      for(int dir=0;dir<2;dir++) { auto w=v; w.push_back({-7,-7}); auto cmp=[dir](const std::pair<int,int>& a,const std::pair<int,int>& b) { trans(1); return dir ? a.first<b.first : a.first>b.first;};
         mergeSort(w.data(),(std::size_t)n,cmp);
         p.ops={fmt("sort #%llu %s",(unsigned long long)i,dir?"up":"down")};
         if (w.back()!=std::make_pair(-7,-7)) { bad("wrote past the end"); return;} w.pop_back();
         for(int k=1;k<n;k++) if (dir ? w[k].first<w[k-1].first : w[k].first>w[k-1].first) { bad("not sorted"); return;}
         auto a=v,b=w; std::sort(a.begin(),a.end()); std::sort(b.begin(),b.end()); if (a!=b) { bad("elements lost or duplicated"); return;} trace(); }
      if (n>1) distinct(mix(i,n*64+keys)); if (wantSample() && i%10007==11) { std::string s; for(auto& x : v) s+=std::to_string(x.first)+" "; sample("sort "+s);} }};
}
// elements that own memory: sets, strings
static Space sortOwnSpace(int n,int keys) {
   return Space{fmt("sorting all sequences of %d strings and of %d sets over %d keys",n,n,keys),(uint64_t)pow(keys,n),[=](uint64_t i) {
      mute(); gBad=false; Path p; gPath=&p; eval(); states(1); p.ops={fmt("sort #%llu",(unsigned long long)i)};
      std::vector<std::string> v; std::vector<GNSet> g; uint64_t c=i; for(int k=0;k<n;k++,c/=keys) { int q=(int)(c%keys); v.push_back(std::string(40,(char)('a'+q))+std::to_string(k)); GNSet x; x.insert(q).insert(70+k); g.push_back(x);}
      auto w=v; mergeSort(w.data(),(std::size_t)n,[](const std::string& a,const std::string& b) { trans(1); return a[0]<b[0];});
      for(int k=1;k<n;k++) if (w[k][0]<w[k-1][0]) { bad("strings are not sorted"); return;}
      auto a=v,b=w; std::sort(a.begin(),a.end()); std::sort(b.begin(),b.end()); if (a!=b) { bad("strings lost or duplicated"); return;}
      auto h=g; mergeSort(h.data(),(std::size_t)n,[](const GNSet& a,const GNSet& b) { trans(1); return *a.begin()<*b.begin();}); std::vector<char> seen(n,0);
      for(int k=0;k<n;k++) { if (k && *h[k].begin()<*h[k-1].begin()) { bad("sets are not sorted"); return;} int id=-1; for(auto e : h[k]) id=e-70; if (id<0 || id>=n || seen[id]++ || !(h[k]==g[id])) { bad("sets lost or duplicated"); return;}}
      if (n>1) distinct(mix(i,n*64+keys+7)); trace(); }};
}
static Space permSpace(int n) {
   uint64_t f=1; for(int k=2;k<=n;k++) f*=k;
   return Space{fmt("sorting all permutations of %d",n),f,[=](uint64_t i) { mute(); gBad=false; Path p; gPath=&p; std::vector<int> pool,v; for(int k=0;k<n;k++) pool.push_back(k); uint64_t c=i; for(int k=n;k>0;k--) { v.push_back(pool[c%k]); pool.erase(pool.begin()+c%k); c/=k;} eval(); states(1);
      auto w=v; p.ops={fmt("permutation #%llu",(unsigned long long)i)}; mergeSort(w.data(),(std::size_t)n,[](int a,int b) { return a<b;}); for(int k=0;k<n;k++) if (w[k]!=k) { bad("a permutation is not sorted"); return;} trans(n); trace(); distinct(mix(i,n*1000)); }};
}
// ================================================================================ C18: union-find
static Space ufSpace(int n,int depth) {
   return Space{fmt("union-find over %d elements: all sequences of %d merges",n,depth),(uint64_t)pow(n*n,depth),[=](uint64_t i) {
      mute(); gBad=false; Path p; gPath=&p; UnionFind<int> uf; std::vector<UnionFind<int>::Node::Ptr> nd; std::vector<int> cls; for(int k=0;k<n;k++) { nd.push_back(uf.makeSet(k)); cls.push_back(k);} eval(); uint64_t c=i;
      for(int k=0;k<depth;k++,c/=n*n) { int a=c%(n*n)/n,b=c%n; p.ops.push_back(fmt("merge %d %d",a,b)); trans(1);
         auto root=uf.merge(nd[a],nd[b]); int ca=cls[a],cb=cls[b]; for(auto& x : cls) if (x==cb) x=ca;
         if ((i+k)%2) for(int x=0;x<n;x++) for(int y=0;y<n;y++) if ((uf.setFor(nd[x])==uf.setFor(nd[y]))!=(cls[x]==cls[y])) { bad(fmt("%d and %d",x,y)); return;}
         if (root!=uf.setFor(nd[a])) { bad("merge does not return the representative of the merged set"); return;}
         states(1);}
      for(int x=0;x<n;x++) for(int y=0;y<n;y++) if ((uf.setFor(nd[x])==uf.setFor(nd[y]))!=(cls[x]==cls[y])) { bad(fmt("%d and %d are %s",x,y,cls[x]==cls[y]?"separated":"joined")); return;}
      for(int x=0;x<n;x++) { std::ostringstream os; os << uf.setFor(nd[x]); int sz=0; for(int y : cls) sz+=y==cls[x]; auto q=os.str().rfind(":: "); if (q==std::string::npos || std::stoi(os.str().substr(q+3))!=sz) { bad(fmt("size of the set of %d is printed as %s instead of %d",x,os.str().c_str(),sz)); return;}}
      uint64_t h=n; for(int x : cls) h=mix(h,x); distinct(mix(h,i%512)); trace(); if (wantSample() && i%5003==1) sample(p.show()); }};
}
// =================================================================================================
static std::vector<Space> build() {
   std::vector<Space> s; bool t=thorough();
#ifdef VF_NOARENA
   const bool san=true;
#else
   const bool san=false;
#endif
   if (prop=="C09" || prop=="C10") {
      bool c10=prop=="C10"; int d=san ? 3 : t ? 5 : 4;
      for(int st=0;st<3;st++) s.push_back(setSpace(d,c10,st));
      s.push_back(natSpace<1>(san?3:t?5:4,c10)); s.push_back(natSpace<2>(san?3:t?5:4,c10)); s.push_back(natSpace<3>(san?2:4,c10));
      if (!c10) { s.push_back(rangeSpace(san?70:140)); s.push_back(helperSpace()); s.push_back(iotaSpace()); s.push_back(wideSpace());}
   }
   if (prop=="C11") { s.push_back(reversals()); mirrorSpaces<1>(s,t); mirrorSpaces<2>(s,t&&!san); mirrorSpaces<3>(s,t&&!san); if (!san) mirrorSpaces<4>(s,false);
      if (san) { std::vector<Space> k; for(auto& x : s) if (x.name.find("3 values")==std::string::npos) k.push_back(x); s=k;} }
   if (prop=="C12") { for(int cap : {1,2,3}) for(bool mn : {true,false}) s.push_back(heapSpace(cap,mn,san?5:(t?8:6)+(!mn)));
      for(int cap : {1,2,5,16}) { s.push_back(heapBuildSpace(san?5:t?9:7,4,cap)); } s.push_back(heapBuildSpace(san?7:t?12:10,3,3)); s.push_back(heapBuildSpace(san?10:t?18:15,2,4)); }
   if (prop=="C13") { for(int n : {0,1,2}) s.push_back(queueSpace<int>(n,san?10:t?20:16,2)); for(int n : {0,1,3}) { s.push_back(queueSpace<int>(n,san?6:t?11:9,3)); s.push_back(queueSpace<int>(n,san?5:t?9:7,6)); s.push_back(queueSpace<Own>(n,san?5:t?9:7,6)); s.push_back(queueSpace<Own>(n,san?9:t?15:12,2));} for(int n : {0,1,3,7}) s.push_back(queueGrowSpace(n,san?40:t?300:80)); }
   if (prop=="C14") { for(int seg : {16,64,96}) s.push_back(poolSpace(seg,san?4:t?7:5)); s.push_back(poolSpace(128,san?4:t?7:6)); s.push_back(poolManySpace()); s.push_back(poolRepeatSpace()); }
   if (prop=="C15") { s.push_back(vecSpace<int>(san?4:t?7:6)); s.push_back(vecMoveSpace<int>()); s.push_back(vecMoveSpace<Own>()); s.push_back(farraySpace<int>(san?4:t?6:5)); s.push_back(matrixSpace<int>(san?6:t?16:9)); s.push_back(vecSpace<Own>(san?4:t?6:5)); s.push_back(farraySpace<Own>(san?4:t?6:5)); s.push_back(matrixSpace<Own>(san?4:t?12:7)); s.push_back(matrixPairSpace<int>(san?4:t?12:6)); s.push_back(matrixPairSpace<Own>(san?4:t?9:6)); }
   if (prop=="C16") { int d=san?4:t?6:5; s.push_back(htEqualSpace<PairHash>("a slot per pair",d-(san?1:0))); s.push_back(htEqualSpace<PairHash1>("one slot",d-(san?1:0))); s.push_back(htSpace<std::hash<int>>("identity hash",d,2)); s.push_back(htSpace<BadHash>("colliding hash",d,2)); s.push_back(htSpace<FarHash>("huge hash",d-1,547)); s.push_back(htSpace<BadHash,Own>("colliding hash",d-1,2));
      int e=san?5:t?8:6; s.push_back(lhtSpace<std::hash<int>>("identity hash",e,2)); s.push_back(lhtSpace<BadHash>("colliding hash",e,2)); s.push_back(lhtSpace<FarHash>("huge hash",e-1,547)); s.push_back(lhtSpace<BadHash,Own>("colliding hash",e-1,2)); s.push_back(htSizeSpace()); s.push_back(htRecycledSpace()); }
   if (prop=="C17") { for(int n=0;n<=(san?6:t?10:8);n++) s.push_back(sortSpace(n,n<=(san?4:6)?4:3)); for(int n=9;n<=(san?12:t?20:16);n++) s.push_back(sortSpace(n,2)); for(int n=1;n<=(san?6:t?10:8);n++) s.push_back(permSpace(n)); for(int n=0;n<=(san?5:t?8:7);n++) s.push_back(sortOwnSpace(n,3)); }
   if (prop=="C18") { s.push_back(ufSpace(3,san?4:t?7:6)); s.push_back(ufSpace(4,san?3:t?6:4)); s.push_back(ufSpace(5,san?2:t?5:4)); s.push_back(ufSpace(6,t?4:3)); }
   return s;
}
int main(int argc,char** argv) {
   return drive(argc,argv,build,"every operation sequence of the stated length over the stated alphabet, the real container compared with a plain reference after every operation; non-trivial: the result is not empty or holds at least two elements (distinct by content)");
}
