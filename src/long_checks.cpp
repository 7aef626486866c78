// C09-C18, second part: long histories and large sizes, around every power of two up to 2^16 and beyond. Each space
// lists its sizes and patterns completely; the reference is again a std container.
#include "vf.hpp"
#include <cstring>
#include <bitset>
#include <ranges>
#include <sstream>
#include <deque>
#include <list>
#include <unordered_map>
#include <math.h>
#include "util.hpp"
#include "vec.hpp"
#include "heap.hpp"
#include "queue.hpp"
#include "hashtable.hpp"
#include "lighthash.hpp"
#include "msort.hpp"
#include "uf.hpp"
std::size_t coddVerifTableSize=2; int coddVerifQueueSize=4;
using namespace vf;
static void mute() { std::cout.setstate(std::ios::failbit);}
#ifdef VF_NOARENA
static const bool san=true;
#else
static const bool san=false;
#endif
// sizes around the limits of narrower integers and of doubling storage
static std::vector<int> sizes(int top) {
   std::vector<int> r; for(int p : {8,16,32,64,100,128,200,256,512,1000,1024,2048,4096,8192,16384,32768,50000,65536,131072}) for(int d : {-1,0,1,2}) if (p+d<=top) r.push_back(p+d);
   return r;
}
static int cap(int plain,int asan,int thor) { return san ? asan : thorough() ? thor : plain;}
// key patterns: k-th key of n
static constexpr int NPAT=7;
static const char* patName[]={"ascending","descending","multiplicative","equal","two keys","saw","organ pipe"};
static int key(int pat,int k,int n) {
   switch(pat) {
      case 0: return k; case 1: return n-k; case 2: return (int)(((uint64_t)k*2654435761u)%1000003); case 3: return 5;
      case 4: return k%2; case 5: return k%17; default: return k<n/2 ? k : n-k;
   }
}
// ---- C12 -------------------------------------------------------------------------------------------
struct HK { int key=0,id=-1; HK() {} HK(int k,int i) : key(k),id(i) {} bool operator==(const HK& o) const { return id==o.id;} HK& operator--(int) { --key; return *this;} friend std::ostream& operator<<(std::ostream& os,const HK& h) { return os<<h.key;} };
typedef Heap<HK,bool(*)(const HK&,const HK&)> H;
static bool lessK(const HK& a,const HK& b) { return a.key<b.key;}
static bool moreK(const HK& a,const HK& b) { return a.key>b.key;}
// the heap holds exactly `keys` (id -> key), comes out in order
static bool drainHeap(H& h,std::vector<int>& keys,bool mn,const std::string& what) {
   std::size_t n=0; for(int k : keys) n+= k!=INT_MIN;
   if (h.size()!=n) { fail(what+fmt(": size %u instead of %zu",h.size(),n)); return false;}
   int last=0; bool first=true;
   while(n--) { HK v=h.extractMax(); trans(1);
      if (v.id<0 || v.id>=(int)keys.size() || keys[v.id]==INT_MIN) { fail(what+fmt(": an element comes out that is not in the heap (#%d)",v.id)); return false;}
      if (keys[v.id]!=v.key) { fail(what+": an element comes out with another key"); return false;}
      if (!first && (mn ? v.key<last : v.key>last)) { fail(what+fmt(": %d comes out after %d",v.key,last)); return false;}
      first=false; last=v.key; keys[v.id]=INT_MIN; }
   if (!h.empty()) { fail(what+": not empty after draining"); return false;}
   return true;
}
// all insertion orders of n distinct keys (or all key sequences), then remove a, then b, then drain
static Space heapRemoveSpace(int n,int keys,int capac) {
   bool perm=keys==0; uint64_t N=1; if (perm) for(int k=2;k<=n;k++) N*=k; else N=(uint64_t)llround(pow(keys,n));
   return Space{fmt("heap of %d: %s, capacity %d, every pair of elements removed",n,perm?"all insertion orders":fmt("all sequences of %d keys",keys).c_str(),capac),N,[=](uint64_t i) {
      mute(); std::vector<int> ks; if (perm) { std::vector<int> p; for(int k=0;k<n;k++) p.push_back(k); uint64_t c=i; for(int k=n;k>0;k--) { ks.push_back(p[c%k]); p.erase(p.begin()+c%k); c/=k;} } else { uint64_t c=i; for(int k=0;k<n;k++,c/=keys) ks.push_back(c%keys);}
      for(bool mn : {true,false}) for(int a=0;a<n;a++) for(int b=-1;b<n;b++) { if (a==b || (b>=0 && b<a && (i+a)%4)) continue;
         Scope sc; eval(); Pool pool(1024); H h(&pool,capac,mn?lessK:moreK); std::vector<const H::LocType*> loc; std::vector<int> live=ks;
         for(int k=0;k<n;k++) loc.push_back(h.insertHeap(HK(ks[k],k)));
         auto what=[&] { std::string s="keys"; for(int k : ks) s+=" "+std::to_string(k); return s+fmt(" (%s first), remove #%d, #%d",mn?"smallest":"largest",a,b);};
         for(int x : {a,b}) if (x>=0) { HK v=h.remove(const_cast<H::LocType*>(loc[x])); trans(1); if (v.id!=x) { fail(what()+fmt(": removed #%d",v.id)); return;} live[x]=INT_MIN;
            for(int k=0;k<n;k++) if (live[k]!=INT_MIN && loc[k]->value().id!=k) { fail(what()+fmt(": the location of #%d holds another element",k)); return;}}
         states(1); if (!drainHeap(h,live,mn,what())) return; trace();}
      distinct(mix(i,n*100+keys)); if (wantSample() && i%97==3) { std::string s; for(int k : ks) s+=std::to_string(k)+" "; sample("keys "+s);} }};
}
static Space heapLongSpace() {
   auto sz=sizes(cap(70000,2100,140000)); static const int caps[]={1,2,16,1000};
   return Space{fmt("heaps of up to %d elements: sizes x %d key patterns x 4 uses x 4 capacities",sz.back(),NPAT),(uint64_t)sz.size()*NPAT*4*4,[=](uint64_t i) {
      mute(); int n=sz[i/(NPAT*16)],pat=i/16%NPAT,use=i/4%4,cp=caps[i%4]; eval(); bool mn=(i+pat)%2;
      if (n>20000 && (int)(i%4)!=pat%4) return; 
      Pool pool(1<<16); H h(&pool,cp,use>=2||mn ? lessK : moreK); if (use>=2) mn=true; std::vector<int> ks; std::vector<H::LocType*> loc; std::string what=fmt("%d keys, %s, use %d, capacity %d",n,patName[pat],use,cp);
      for(int k=0;k<n;k++) { int q=key(pat,k,n); ks.push_back(q); trans(1); if (use<2) loc.push_back(const_cast<H::LocType*>(h.insertHeap(HK(q,k)))); else loc.push_back(h.insert(HK(q,k)));}
      if (use>=2) h.buildHeap();
      for(int k=0;k<n;k++) if (loc[k]->value().id!=k) { fail(what+fmt(": the location of #%d holds another element",k)); return;}
      states(n);
      if (use==1) for(int k=0;k<n;k+=3) { HK v=h.remove(loc[k]); if (v.id!=k) { fail(what+fmt(": remove(#%d) removed #%d",k,v.id)); return;} ks[k]=INT_MIN;}
      if (use==3) for(int r=0;r<2;r++) for(int k=r;k<n;k+=2+r) { h.decrease(loc[k]); ks[k]--; }
      if (use==2 && n<3000) for(int k=0;k<n;k+=n/7+1) if (h.find(HK(0,k))!=loc[k]) { fail(what+": find"); return;}
      for(int k=0;k<n;k++) if (ks[k]!=INT_MIN && (loc[k]->value().id!=k || loc[k]->value().key!=ks[k])) { fail(what+fmt(": the location of #%d holds another element",k)); return;}
      if (!drainHeap(h,ks,mn,what)) return;
      h.insertHeap(HK(1,0)); h.clear(); if (!h.empty() || h.size()) { fail(what+": clear"); return;}
      h.insertHeap(HK(2,1)); h.insertHeap(HK(3,2)); if (h.extractMax().id!=(mn?1:2)) { fail(what+": reuse after clear"); return;}
      distinct(i+1); trace(); if (wantSample()) sample(what); },1};
}
// ---- C13 -------------------------------------------------------------------------------------------
static Space queueLongSpace() {
   auto sz=sizes(cap(70000,3000,140000)); static const int inits[]={0,1,5,32,1000};
   return Space{fmt("queues of up to %d elements: sizes x 5 initial sizes x 3 uses",sz.back()),(uint64_t)sz.size()*15,[=](uint64_t i) {
      mute(); int n=sz[i/15],init=inits[i/3%5],use=i%3; eval(); CQueue<int> q(init); int x=1,y=1; std::string what=fmt("queue(%d), %d elements, use %d",init,n,use);
      // use 0: fill and drain; 1: wrap around first and keep a sliding window; 2: retract every third by location
      if (use==1) for(int k=0;k<n/2+3;k++) { q.enQueue(x++); q.enQueue(x++); if (q.deQueue()!=y++) { fail(what+": order"); return;} trans(3);}
      std::vector<Location<int>*> loc; int base=x;
      while(q.size()<n) { loc.push_back(q.enQueue(x++)); trans(1);}
      states(n); if (q.size()!=n || q.empty()) { fail(what+": size"); return;}
      for(std::size_t k=0;k<loc.size();k++) if (loc[k]->value()!=base+(int)k) { fail(what+": a location holds another element"); return;}
      int c=y; bool ok=true; q.doOnAll([&](auto l) { ok&=l->value()==c++;}); if (!ok || c!=x) { fail(what+": content"); return;}
      if (use==2) { std::set<int> left; for(int v=y;v<x;v++) left.insert(v); for(std::size_t k=0;k<loc.size();k+=3) { q.retract(loc[k]); left.erase(base+(int)k); trans(1);}
         if (q.size()!=(int)left.size()) { fail(what+": size after retracting"); return;}
         while(!q.empty()) { int v=q.deQueue(); if (!left.erase(v)) { fail(what+fmt(": %d comes out",v)); return;}} if (!left.empty()) { fail(what+": elements lost"); return;} }
      else { while(!q.empty()) if (q.deQueue()!=y++) { fail(what+": order while draining"); return;} if (y!=x) { fail(what+": elements lost"); return;}}
      q.clear(); q.enQueue(7); if (q.size()!=1 || q.peek()!=7 || q.deQueue()!=7) { fail(what+": reuse"); return;}
      distinct(i+1); trace(); if (wantSample()) sample(what); },1};
}
// ---- C14 -------------------------------------------------------------------------------------------
static Space poolLongSpace() {
   auto cnt=sizes(cap(70000,3000,140000)); static const int segs[]={16,64,4096};
   return Space{fmt("pools with up to %d blocks: counts x 3 segment sizes x 2 patterns of sizes",cnt.back()),(uint64_t)cnt.size()*6,[=](uint64_t i) {
      mute(); int n=cnt[i/6],seg=segs[i/2%3],pat=i%2; eval(); Pool pool(seg); std::string what=fmt("%d blocks, segments of %d, pattern %d",n,seg,pat);
      auto sizeOf=[&](int k) { return pat ? 1+(k*37)%(seg+40) : 16+(k%7==0 ? seg : 0);};
      std::vector<std::pair<unsigned*,int>> live; auto put=[&](int k) { int sz=(sizeOf(k)+3)/4*4; auto p=(unsigned*)pool.allocate(sz); if ((uintptr_t)p%16) return false; p[0]=k*2654435761u; p[sz/4-1]=k*2654435761u; live.push_back({p,sz}); trans(1); return true;};
      auto ok=[&](std::size_t m) { for(std::size_t k=0;k<m;k++) { unsigned v=(unsigned)k*2654435761u; if (live[k].first[0]!=v || live[k].first[live[k].second/4-1]!=v) return false;} return true;};
      // marks near the limits
      std::vector<std::pair<PoolMark,int>> marks; std::set<int> at{0,1,n/2,n-1}; for(int q : {31,32,33,63,64,255,256,257,511,512,32767,32768,65535,65536}) if (q<n) at.insert(q);
      for(int k=0;k<n;k++) { if (at.count(k)) marks.push_back({pool.mark(),k}); if (!put(k)) { fail(what+": not aligned"); return;}}
      states(n); if (!ok(live.size())) { fail(what+": a block was overwritten"); return;}
      for(auto it=marks.rbegin();it!=marks.rend();++it) {
         pool.clear(it->first); live.resize(it->second); int more=std::min(200,n-it->second+50);
         for(int k=0;k<more;k++) if (!put(it->second+k)) { fail(what+": not aligned"); return;}
         if (!ok(live.size())) { fail(what+fmt(": a block from before the mark at %d was overwritten",it->second)); return;}
         live.resize(it->second); pool.clear(it->first);
      }
      pool.clear(); live.clear(); for(int k=0;k<std::min(n,3000);k++) put(k); if (!ok(live.size())) { fail(what+": overwritten after clear"); return;}
      distinct(i+1); trace(); if (wantSample()) sample(what); },1};
}
static Space poolBigSpace() {
   static const long big[]={1000,65535,65536,65537,1<<20,(1<<22)-16,(1<<22)-15,1<<22,(1<<22)+1,(1<<22)+16,9000000};
   return Space{"default pool: all sequences of 4 blocks out of 11 large sizes, back to a mark in the middle",11*11*11*11,[=](uint64_t i) {
      mute(); eval(); Pool pool; uint64_t c=i; std::vector<std::pair<char*,long>> live; PoolMark m=pool.mark(); std::string what;
      auto put=[&](long sz) { auto p=(char*)pool.allocate(sz); what+=fmt(" %ld",sz); p[0]=(char)(live.size()+1); p[sz-1]=(char)(live.size()+1); p[sz/2]=(char)(live.size()+1); for(auto& [q,n] : live) if (p<q+n && q<p+sz) return false; live.push_back({p,sz}); return (uintptr_t)p%16==0;};
      auto ok=[&] { for(std::size_t k=0;k<live.size();k++) { auto [p,n]=live[k]; if (p[0]!=(char)(k+1) || p[n-1]!=(char)(k+1) || p[n/2]!=(char)(k+1)) return false;} return true;};
      for(int k=0;k<4;k++,c/=11) { if (k==2) m=pool.mark(); if (!put(big[c%11]) || !ok()) { fail("blocks"+what+": overlap or not aligned"); return;} trans(1);}
      live.resize(2); pool.clear(m); what+=" back"; for(int k=0;k<4;k++) { if (!put(big[(i+k*5)%11]) || !ok()) { fail("blocks"+what+": overlap or not aligned"); return;} trans(1);}
      states(1); distinct(i+1); trace(); }};
}
// a standard container on top of a pool
static Space adapterSpace() {
   auto sz=sizes(cap(5000,600,40000));
   return Space{"standard vectors in a pool",(uint64_t)sz.size()*2,[=](uint64_t i) {
      mute(); int n=sz[i/2]; eval(); Pool pool(i%2 ? (std::size_t)n*4+64 : (std::size_t)SEGSIZE); typedef stl::StackAdapter<int,Pool::Ptr> A; A al(&pool); std::vector<int,A> a(al),b(al); std::string what=fmt("two vectors of %d in one pool",n);
      if (i%2) { a.reserve(n); b.reserve(n);} for(int k=0;k<n;k++) { a.push_back(k); b.push_back(-k); trans(2);} 
      for(int k=0;k<n;k++) if (a[k]!=k || b[k]!=-k) { fail(what+": content"); return;}
      std::vector<int,A> c(a); c[0]=99; if (a[0]!=0 || (int)c.size()!=n) { fail(what+": copy"); return;}
      states(1); distinct(i+1); trace(); },1};
}
// ---- C15 -------------------------------------------------------------------------------------------
struct Own { std::vector<int> v; Own() {} Own(int k) : v(k%5+1,k) {} bool operator==(const Own& o) const { return v==o.v;} };
static Space vecLongSpace() {
   auto sz=sizes(cap(70000,3000,140000));
   return Space{fmt("vectors of up to %d elements: sizes x 3 initial sizes x 3 uses",sz.back()),(uint64_t)sz.size()*9,[=](uint64_t i) {
      mute(); int n=sz[i/9],init=(int)(i/3%3)*7,use=i%3; eval(); Pool pool(4096); typedef Vec<int,unsigned> V; V v(&pool,init); std::vector<int> r; std::string what=fmt("vector(%d), %d elements, use %d",init,n,use);
      if (use==0) for(int k=0;k<n;k++) { if (v.push_back(k*3)!=(unsigned)k) { fail(what+": index"); return;} r.push_back(k*3);}
      else if (use==1) { for(int k=0;k<n;k++) { v[k]=k*5; r.push_back(k*5);} }
      else { for(int k=0;k<n;k++) { v.push_back(k); r.push_back(k);} for(int k=0;k<n/3;k++) { unsigned at=(unsigned)((uint64_t)k*40503u%r.size()); int moved=-1; v.remove(at,[&](int x) { moved=x;}); if (at+1<r.size() && moved!=r.back()) { fail(what+": relinked the wrong element"); return;} r[at]=r.back(); r.pop_back();} }
      trans(n);
      auto same=[&](const V& x,const std::vector<int>& y) { if (x.size()!=y.size()) return false; for(unsigned k=0;k<y.size();k++) if (x.get(k)!=y[k]) return false; std::size_t k=0; for(auto e : x) if (k>=y.size() || e!=y[k++]) return false; if (k!=y.size()) return false; k=0; for(auto q=x.cbegin();q!=x.cend();++q) if (k>=y.size() || *q!=y[k++]) return false; return k==y.size();};
      if (!same(v,r)) { fail(what+": content"); return;}
      Pool other(64); V w(&other,v),u(v),z(&pool); z=v; V mv(std::move(u)); if (!same(w,r) || !same(z,r) || !same(mv,r)) { fail(what+": copy"); return;}
      w.push_back(-1); z.at(0,-9); if (!same(v,r)) { fail(what+": copies share storage"); return;}
      z.clear(); z=mv; if (!same(z,r)) { fail(what+": assignment after clear"); return;}
      V sh(&pool); sh.push_back(4); z=sh; if (!same(z,{4})) { fail(what+": assignment of a shorter vector"); return;}
      states(n); distinct(i+1); trace(); if (wantSample()) sample(what); },1};
}
static Space farrayLongSpace() {
   auto sz=sizes(cap(70000,3000,140000));
   return Space{fmt("arrays of up to %d elements, one cell changed",sz.back()),(uint64_t)sz.size()*6,[=](uint64_t i) {
      mute(); int n=sz[i/6]; static const int num[]={0,1,2,3,4,5}; int at= (int)((int64_t)(n-1)*num[i%6]/5); eval(); typedef FArray<int> F; F a(n,4); std::vector<int> r(n,4); for(int k=0;k<n;k++) { a[k]=k*7; r[k]=k*7;}
      F b(a),c,d(3,1); c=a; d=a; std::string what=fmt("array of %d, cell %d",n,at);
      if (!(a==b) || !(a==c) || !(a==d) || std::hash<F>{}(a)!=std::hash<F>{}(b) || a.size()!=(std::size_t)n) { fail(what+": copies differ"); return;}
      b[at]=-1; if (a==b || a[at]!=r[at] || b==c) { fail(what+": == does not see a changed cell"); return;}
      std::size_t k=0; for(auto x : a) if (k>=r.size() || x!=r[k++]) { fail(what+": iteration"); return;} if (k!=r.size()) { fail(what+": iteration"); return;}
      for(int k=0;k<n;k++) if (b[k]!=(k==at ? -1 : r[k]) || c[k]!=r[k] || d[k]!=r[k]) { fail(what+": content"); return;}
      F e(std::move(b)); if (e[at]!=-1 || e.size()!=(std::size_t)n) { fail(what+": move"); return;}
      typedef FArray<Own> O; if (n<3000) { O x(n); for(int k=0;k<n;k++) x[k]=Own(k); O y(x); y[at]=Own(n+1); for(int k=0;k<n;k++) if (!(x[k]==Own(k)) || !(y[k]==Own(k==at?n+1:k))) { fail(what+": cells that own memory"); return;} O z; z=x; z=std::move(y); if (!(z[at]==Own(n+1))) { fail(what+": cells that own memory"); return;}}
      states(1); trans(n); distinct(i+1); trace(); },1};
}
static Space matrixLongSpace() {
   static const int d[][3]={{1,70000,2},{70000,1,2},{256,257,1},{300,300,1},{1000,66,1},{3,5,7000},{41,41,41},{2,32768,2},{32768,2,2},{129,2,300},{2,129,300},{200,200,5}};
   return Space{"matrices of many cells, 12 shapes",12,[](uint64_t i) {
      mute(); eval(); int r=d[i][0],c=d[i][1],e=d[i][2]; std::string what=fmt("%d x %d x %d",r,c,e); if (san && (i==0 || i==1)) r=c=260;
      Matrix<int,2> m(r,c); for(int a=0;a<r;a++) for(int b=0;b<c;b++) m[a][b]=a*31337+b; Matrix<int,2> q(m);
      for(int a=0;a<r;a++) for(int b=0;b<c;b++) if (m[a][b]!=a*31337+b || q[a][b]!=a*31337+b) { fail(what+": a cell has the wrong value"); return;}
      int dims[3]={r,c,e}; FMatrix<FArray<int>,3> t(dims); int x=0; for(int a=0;a<r;a++) for(int b=0;b<c;b++) for(int f=0;f<e;f++) t[a][b][f]=x++; x=0;
      for(int a=0;a<r;a++) for(int b=0;b<c;b++) for(int f=0;f<e;f++) if (t[a][b][f]!=x++) { fail(what+": a cell of a 3-d matrix has the wrong value"); return;}
      if (t.getDim(0)!=r || t.getDim(1)!=c || t.getDim(2)!=e) { fail(what+": dimensions"); return;}
      trans(x); states(1); distinct(i+1); trace(); },1};
}
// 4 and 5 dimensions, every shape up to 4
static Space matrixDimSpace() {
   return Space{"matrices of 4 and 5 dimensions, all shapes up to 4",1024,[](uint64_t i) {
      mute(); eval(); int s[5]; uint64_t c=i; for(int k=0;k<5;k++,c/=4) s[k]=1+c%4; std::string what=fmt("shape %d %d %d %d %d",s[0],s[1],s[2],s[3],s[4]);
      FMatrix<FArray<int>,5> t(s); FMatrix<FArray<int>,4> f(s); int x=0,y=0;
      for(int a=0;a<s[0];a++) for(int b=0;b<s[1];b++) for(int c=0;c<s[2];c++) for(int d=0;d<s[3];d++) { f[a][b][c][d]=y++; for(int e=0;e<s[4];e++) t[a][b][c][d][e]=x++;}
      FMatrix<FArray<int>,5> u(t); FMatrix<FArray<int>,4> g; g=f; x=y=0; const auto& ct=t;
      for(int a=0;a<s[0];a++) for(int b=0;b<s[1];b++) for(int c=0;c<s[2];c++) for(int d=0;d<s[3];d++) { if (f[a][b][c][d]!=y || g[a][b][c][d]!=y) { fail(what+": a cell has the wrong value"); return;} y++; for(int e=0;e<s[4];e++) { if (t[a][b][c][d][e]!=x || u[a][b][c][d][e]!=x) { fail(what+": a cell has the wrong value"); return;} x++;}}
      std::ostringstream os,w; os << f; y=0; for(int a=0;a<s[0];a++) for(int b=0;b<s[1];b++) for(int c=0;c<s[2];c++) for(int d=0;d<s[3];d++) w << "m[" << a << "][" << b << "][" << c << "][" << d << "] = " << y++ << "\n";
      if (os.str()!=w.str()) { fail(what+": prints wrong"); return;} (void)ct;
      trans(x+y); states(1); distinct(i+1); trace(); }};
}
// ---- C16 -------------------------------------------------------------------------------------------
struct SameHash { std::size_t operator()(int k) const { return 5; } };
struct Mod3 { std::size_t operator()(int k) const { return k%3; } };
template <class T> struct Adapt;
template <class HF> struct Adapt<Hashtable<int,int,HF>> { Pool pool; Hashtable<int,int,HF> t; Adapt(std::size_t sz) : pool(1<<14),t(&pool,sz) {}
   bool has(int k,int& v) { int w=-1; bool g=t.get(k,v); auto l=t.getLoc(k,w); return g && (bool)l && v==w;} bool not_(int k) { int v; return !t.get(k,v) && !(bool)t.getLoc(k,v);}
   void put(int k,int v,int how) { if (how==0) t.insert(k,v); else if (how==1) t.safeInsert(k,v); else { int w; auto l=t.getLoc(k,w); t.safeInsertAt(l,k,v);} }
   template <class F> void all(F f) { t.doOnAll([&](int k,int v) { f(k,v);});} };
template <class HF> struct Adapt<LHashtable<int,HF>> { Pool pool; LHashtable<int,HF> t; Adapt(std::size_t sz) : pool(1<<14),t(&pool,sz) {}
   bool has(int k,int& v) { Node<int>* n=nullptr; auto l=t.getLoc(k,n); if (!l) return false; v=(int)n->getId(); return n->get()==k;} bool not_(int k) { Node<int>* n; return !(bool)t.getLoc(k,n);}
   void put(int k,int v,int how) { Node<int>* n=nullptr; auto l=t.getLoc(k,n); int kk=k; auto nd=new (&pool) Node<int>(&pool,std::move(kk),v,true); if (how%2) t.safeInsertAt(l,nd); else t.rawInsertAt(l,nd);}
   template <class F> void all(F f) { t.doOnAll([&](Node<int>* n) { f(n->get(),(int)n->getId());});} };
// cleared many times: entries put in one epoch must not show in any later one
template <class T> Space clearSpace(const char* nm,std::size_t size,int rounds) {
   return Space{fmt("%s: cleared %d times, refilled at steps",nm,rounds),6,[=](uint64_t i) {
      mute(); eval(); Adapt<T> a(size); static const int step[]={1,7,255,256,257,65536}; int st=step[i]; std::map<int,int> r; int val=1;
      auto judge=[&](int round) { 
         if (a.t.size()!=r.size()) { fail(fmt("%s, refilled every %d: size %u instead of %zu after %d clears",nm,st,(unsigned)a.t.size(),r.size(),round)); return false;}
         for(int k=0;k<8;k++) { int v=-1; auto it=r.find(k); if (it==r.end() ? !a.not_(k) : !(a.has(k,v) && v==it->second)) { fail(fmt("%s, refilled every %d: lookup of %d is wrong after %d clears",nm,st,k,round)); return false;}}
         if (round%16<2 || round%256<2 || r.size()>0) { std::map<int,int> s; unsigned n=0; a.all([&](int k,int v) { s[k]=v; if (++n>100) return;}); if (s!=r || n!=r.size()) { fail(fmt("%s: the visit is wrong after %d clears",nm,round)); return false;}}
         return true;};
      for(int c=0;c<rounds;c++) { trans(1);
         if (c%st==0) for(int k=0;k<3+(int)(c/st)%3;k++) { int kk=(k*3+c/st)%8; if (!r.count(kk)) { a.put(kk,val,c%3); r[kk]=val++; }}
         if (!judge(c)) return; a.t.clear(); r.clear(); if (!judge(c+1)) return; states(1); if (c%st==0 && st<300) a.pool.mark();}
      distinct(mix(i,size)); trace(); if (wantSample()) sample(fmt("%s cleared %d times, refilled every %d",nm,rounds,st)); },1};
}
template <class T> Space fillSpace(const char* nm) {
   auto sz=sizes(cap(70000,2100,140000)); static const std::size_t tabs[]={1,547,30000,209939};
   return Space{fmt("%s: filled with up to %d keys, 4 table sizes",nm,sz.back()),(uint64_t)sz.size()*4,[=](uint64_t i) {
      mute(); eval(); int n=sz[i/4]; std::size_t tab=tabs[i%4]; if (tab==1 && n>3000) return; Adapt<T> a(tab); std::string what=fmt("%s(%zu) with %d keys",nm,tab,n);
      auto k=[](int q) { return (int)((unsigned)q*2654435761u);};
      for(int rep=0;rep<2;rep++) {
         for(int q=0;q<n;q++) { a.put(k(q),q+rep,q%3); trans(1);} if (a.t.size()!=(unsigned)n) { fail(what+fmt(": size %u",(unsigned)a.t.size())); return;}
         for(int q=0;q<n;q++) { int v=-1; if (!a.has(k(q),v) || v!=q+rep) { fail(what+fmt(": entry %d is lost",q)); return;}}
         for(int q=n;q<n+50;q++) if (!a.not_(k(q))) { fail(what+": phantom entry"); return;}
         int cnt=0; std::vector<char> seen(n,0); bool ok=true; a.all([&](int key,int v) { cnt++; int q=v-rep; if (q<0 || q>=n || seen[q]++ || k(q)!=key) ok=false;}); if (!ok || cnt!=n) { fail(what+": the visit is wrong"); return;}
         a.t.clear(); if (a.t.size()!=0 || !a.not_(k(0)) || !a.not_(k(n-1))) { fail(what+": clear"); return;}
      }
      states(n); distinct(i+1); trace(); },1};
}
// ---- C17 -------------------------------------------------------------------------------------------
static Space sortLongSpace() {
   auto sz=sizes(cap(70000,5000,140000)); if (!san) { sz.push_back(1100000);} // more than fits on the stack
   return Space{fmt("sorting up to %d elements: sizes x %d key patterns x 2 directions",sz.back(),NPAT),(uint64_t)sz.size()*NPAT*2,[=](uint64_t i) {
      mute(); eval(); int n=sz[i/(NPAT*2)],pat=i/2%NPAT; bool up=i%2; std::vector<std::pair<int,int>> v; for(int k=0;k<n;k++) v.push_back({key(pat,k,n),k}); auto w=v; w.push_back({-7,-7}); w.insert(w.begin(),{-8,-8}); std::string what=fmt("%d keys, %s",n,patName[pat]);
      mergeSort(w.data()+1,(std::size_t)n,[up](const std::pair<int,int>& a,const std::pair<int,int>& b) { return up ? a.first<b.first : a.first>b.first;}); trans(n);
      if (w.front()!=std::make_pair(-8,-8) || w.back()!=std::make_pair(-7,-7)) { fail(what+": wrote outside the sequence"); return;}
      for(int k=2;k<=n;k++) if (up ? w[k].first<w[k-1].first : w[k].first>w[k-1].first) { fail(what+": not sorted"); return;}
      std::vector<char> seen(n,0); for(int k=1;k<=n;k++) { auto [q,id]=w[k]; if (id<0 || id>=n || seen[id]++ || v[id].first!=q) { fail(what+": elements lost or duplicated"); return;}}
      states(1); distinct(i+1); trace(); },1};
}
// every position of one odd element in every length up to n
static Space sortOneSpace(int n) {
   return Space{fmt("sorting: one small and one large element at every pair of positions, lengths up to %d",n),(uint64_t)n,[=](uint64_t i) {
      mute(); int len=(int)i+1; for(int a=0;a<len;a++) for(int b=0;b<len;b++) { if (a==b && len>1) continue; eval(); std::vector<int> v(len); for(int k=0;k<len;k++) v[k]=10+k%3; v[a]=1; v[b]=99; auto w=v; std::sort(w.begin(),w.end()); mergeSort(v.data(),(std::size_t)len,[](int x,int y) { return x<y;}); trans(len); if (v!=w) { fail(fmt("length %d, smallest at %d, largest at %d: not sorted",len,a,b)); return;} states(1); trace();} distinct(i+1); }};
}
// ---- C18 -------------------------------------------------------------------------------------------
static Space ufLongSpace() {
   auto sz=sizes(cap(70000,3000,140000));
   return Space{fmt("union-find over up to %d elements: sizes x 6 orders of merging",sz.back()),(uint64_t)sz.size()*6,[=](uint64_t i) {
      mute(); eval(); int n=sz[i/6],how=i%6; UnionFind<int> uf; std::vector<UnionFind<int>::Node::Ptr> nd; for(int k=0;k<n;k++) nd.push_back(uf.makeSet(k)); std::string what=fmt("%d elements, order %d",n,how);
      std::vector<int> par(n); for(int k=0;k<n;k++) par[k]=k; std::function<int(int)> fnd=[&](int x) { while(par[x]!=x) x=par[x]=par[par[x]]; return x;};
      auto mg=[&](int a,int b) { auto r=uf.merge(nd[a],nd[b]); trans(1); par[fnd(a)]=fnd(b); return r==uf.setFor(nd[a]) && r==uf.setFor(nd[b]);};
      bool ok=true;
      switch(how) {
         case 0: for(int k=1;k<n;k++) ok&=mg(k-1,k); break; case 1: for(int k=1;k<n;k++) ok&=mg(k,0); break; case 2: for(int k=1;k<n;k++) ok&=mg(0,k); break;
         case 3: for(int w=1;w<n;w*=2) for(int k=0;k+w<n;k+=2*w) ok&=mg(k,k+w); break; // balanced
         case 4: for(int k=n-1;k>=3;k--) ok&=mg(k,k%3); break; // three classes
         case 5: for(int k=0;k+7<n;k++) ok&=mg(k,k+7); break; }
      if (!ok) { fail(what+": merge does not return the representative of the merged set"); return;}
      std::map<UnionFind<int>::Node*,int> rep; std::map<int,UnionFind<int>::Node*> of; std::map<int,int> count;
      for(int k=0;k<n;k++) { auto r=uf.setFor(nd[k]).get(); int c=fnd(k); count[c]++; auto it=rep.find(r); if (it==rep.end()) rep[r]=c; else if (it->second!=c) { fail(what+fmt(": %d is joined to another class",k)); return;} auto jt=of.find(c); if (jt==of.end()) of[c]=r; else if (jt->second!=r) { fail(what+fmt(": %d is separated from its class",k)); return;}}
      int checked=0; for(auto& [c,sz] : count) { if (checked++>20) break; std::ostringstream os; os << uf.setFor(nd[c]); auto q=os.str().rfind(":: "); if (q==std::string::npos || std::stoi(os.str().substr(q+3))!=sz) { fail(what+": size of a class "+os.str()); return;}}
      states(n); distinct(i+1); trace(); },1};
}
// millions of merges of representatives, no lookup in between: the chains to the representative must stay short enough to be walked
static Space ufDeepSpace() {
   int n=cap(1500000,200000,3000000);
   return Space{fmt("union-find over %d elements: 7 orders of merging representatives, then lookups",n),7,[=](uint64_t i) {
      mute(); eval(); int how=i; typedef UnionFind<int>::Node::Ptr N; UnionFind<int> uf; std::vector<N> nd; nd.reserve(n); for(int k=0;k<n;k++) nd.push_back(uf.makeSet(k)); N r=nd[0]; bool ok=true;
      switch(how) {
         case 0: for(int k=1;k<n;k++) r=uf.merge(r,nd[k]); break; case 1: for(int k=1;k<n;k++) r=uf.merge(nd[k],r); break;
         case 2: for(int k=1;k<n;k++) r=uf.merge(nd[k-1],nd[k]); break; case 3: for(int k=1;k<n;k++) r=uf.merge(nd[k],nd[k-1]); break;
         case 4: for(int k=1;k<n;k++) r=k%2 ? uf.merge(r,nd[k]) : uf.merge(nd[k],r); break;
         case 5: for(int k=2;k+1<n;k+=2) { auto p=uf.merge(nd[k],nd[k+1]); r=uf.merge(p,r); trans(1);} if (n%2) r=uf.merge(r,nd[n-1]); r=uf.merge(nd[1],r); break;
         case 6: { std::vector<N> q=nd; while(q.size()>1) { std::vector<N> z; for(std::size_t k=0;k+1<q.size();k+=2) z.push_back(uf.merge(q[k+1],q[k])); if (q.size()%2) z.push_back(q.back()); q.swap(z);} r=q[0]; break;} }
      trans(n); for(int k : {0,1,n-1,n/2,n/3}) ok&=uf.setFor(nd[k])==r; for(int k=0;k<n && ok;k++) ok&=uf.setFor(nd[k])==r;
      if (!ok) { fail(fmt("%d elements all merged (order %d), but not all with one representative",n,how)); return;}
      states(n); distinct(i+77); trace(); },1};
}
// ---- C09, C10 --------------------------------------------------------------------------------------
static std::string diff(const GNSet& g,const std::vector<char>& r) { // "" when g is exactly r
   int n=0,mn=-1,mx=-1; for(int k=0;k<(int)r.size();k++) if (r[k]) { n++; if (mn<0) mn=k; mx=k;}
   if (g.size()!=n) return fmt("size %d instead of %d",g.size(),n);
   if (g.empty()!=(n==0)) return "empty";
   std::vector<char> s(r.size(),0); int last=-1; for(auto v : g) { if (v<=last) return "iteration order"; last=v; if (v>=(int)r.size() || !r[v]) return fmt("iteration yields %d",(int)v); s[v]=1;}
   if (s!=r) return "iteration misses elements";
   for(int k=0;k<(int)r.size();k+=1+(k%37)) if (g.contains(k)!=(bool)r[k]) return fmt("contains(%d)",k);
   if (n && (min(g)!=mn || max(g)!=mx)) return "smallest or largest";
   return "";
}
static Space setLongSpace(bool c10) {
   auto sz=sizes(cap(70000,3000,140000));
   return Space{fmt("large sets of up to %d values: sizes x 8 uses",sz.back()),(uint64_t)sz.size()*8,[=](uint64_t i) {
      mute(); eval(); int n=sz[i/8],use=i%8; std::vector<char> r(n+200,0); GNSet g {}; std::string what=fmt("values up to %d, use %d",n,use);
      auto in=[&](int v) { g.insert(v); r[v]=1; trans(1);};
      switch(use) {
         case 0: for(int k=0;k<=n;k++) in(k); break;
         case 1: for(int k=n;k>=0;k-=3) in(k); break;
         case 2: g=GNSet(0,n); for(int k=0;k<=n;k++) r[k]=1; for(int k=0;k<=n;k+=2) { g.remove(k); r[k]=0;} break;
         case 3: { GNSet a {},b {}; a.insert(3); b.insert(n); b.insert(n/2); a.unionWith(b); g=a; r[3]=r[n]=r[n/2]=1; GNSet c(0,n/3); g.unionWith(c); for(int k=0;k<=n/3;k++) r[k]=1; break;}
         case 4: { g=GNSet(0,n); g.removeAbove(n/2); g.removeBelow(n/4); for(int k=std::max(0,n/4);k<=n/2;k++) r[k]=1; break;}
         case 5: { GNSet a(0,n),b(n/3,n/3+70); g=a-b; for(int k=0;k<=n;k++) r[k]= k<n/3 || k>n/3+70; break;}
         case 6: { GNSet a(0,n),b(std::max(0,n-70),n+100); g=a&b; for(int k=std::max(0,n-70);k<=n;k++) r[k]=1; break;}
         case 7: { g=GNSet(n,n); GNSet h(g); h.insert(0); GNSet w(std::move(h)); g=std::move(w); r[0]=r[n]=1; break;}
      }
      states(1);
      if (!c10) { auto d=diff(g,r); if (!d.empty()) { fail(what+": "+d); return;} GNSet k(g); d=diff(k,r); if (!d.empty()) { fail(what+" (copied): "+d); return;} 
         if (n<3000) { std::ostringstream os,w; os << g; w << "{"; bool f=true; for(int k=0;k<(int)r.size();k++) if (r[k]) { if (!f) w << ","; f=false; w << k;} w << "}"; if (os.str()!=w.str()) { fail(what+": prints wrong"); return;}} }
      else { GNSet f((unsigned short)0); for(int k=(int)r.size()-1;k>=0;k--) if (r[k]) f.insert(k); GNSet q {}; for(int k=0;k<(int)r.size();k++) if (r[k]) q.insert(k); q.insert(n+5000); q.remove(n+5000); auto h=std::hash<GNSet>{}(g);
         if (!(f==g) || f!=g || !(q==g) || g!=q || !(g==f)) { fail(what+": equal sets differ"); return;}
         if (std::hash<GNSet>{}(f)!=h || std::hash<GNSet>{}(q)!=h) { fail(what+": equal sets have different hash values"); return;}
         for(int at : {0,1,63,64,n/2,n-1,n,n+1,n+64,n+130}) { GNSet x(g); if (r[at]) x.remove(at); else x.insert(at); if (x==g || !(x!=g) || g==x || !(g!=x)) { fail(what+fmt(": sets that differ in %d are equal",at)); return;} } }
      distinct(i+1); trace(); if (wantSample()) sample(what); },1};
}
template <unsigned short W> Space natLongSpace(bool c10) {
   return Space{fmt("fixed sets of %d words: full, every other, complements",(int)W),8,[=](uint64_t i) {
      mute(); eval(); typedef NatSet<W> N; const int n=W*64; N a; std::vector<char> r(n,0); std::string what=fmt("%d words, use %d",(int)W,(int)i);
      switch(i) { case 0: for(int k=0;k<n;k++) { a.insert(k); r[k]=1;} break; case 1: for(int k=0;k<n;k+=2) { a.insert(k); r[k]=1;} break; case 2: a.complement(); r.assign(n,1); break; case 3: a.insert(n-1); a.complement(); r.assign(n,1); r[n-1]=0; break;
         case 4: a=N(5,n-2); for(int k=5;k<=n-2;k++) r[k]=1; break; case 5: { N x(0,n/2),y(n/3,n-2); a=x&y; for(int k=n/3;k<=n/2;k++) r[k]=1; break;} case 6: { N x(0,n/3),y(n/2,n-2); a=x|y; for(int k=0;k<n-1;k++) r[k]= k<=n/3 || k>=n/2; break;} case 7: a.insert(n/2); a.clear(); break;}
      int c=0,mx=-1; for(int k=0;k<n;k++) if (r[k]) { c++; mx=k;} states(1); trans(n);
      if (!c10) { if (a.size()!=c || a.empty()!=(c==0) || a.largest()!=mx) { fail(what+": size or largest"); return;} int k=0; for(auto v : a) { while(k<n && !r[k]) k++; if (v!=k) { fail(what+": iteration"); return;} k++;} while(k<n && !r[k]) k++; if (k!=n) { fail(what+": iteration misses elements"); return;} for(int k=0;k<n;k++) if (a.contains(k)!=(bool)r[k]) { fail(what+": contains"); return;} auto d=diff(GNSet(a),r); if (!d.empty()) { fail(what+" as a general set: "+d); return;}}
      else { N b; for(int k=n-1;k>=0;k--) if (r[k]) b.insert(k); if (!(a==b) || std::hash<N>{}(a)!=std::hash<N>{}(b)) { fail(what+": equal sets differ"); return;} for(int k=0;k<n;k+=1+k%13) { N x; for(int q=0;q<n;q++) if ((bool)r[q]!=(q==k)) x.insert(q); if (x==a || a==x) { fail(what+fmt(": sets that differ in %d are equal",k)); return;}}
         if (!(GNSet(a)==GNSet(b)) || std::hash<GNSet>{}(GNSet(a))!=std::hash<GNSet>{}(GNSet(b))) { fail(what+": equal as fixed sets, different as general sets"); return;}}
      distinct(mix(i+1,W)); trace(); },1};
}
// hash and equality across 0..8 trailing empty words, built in every way
static Space capacitySpace(bool c10) {
   return Space{"general sets of every capacity 0..700: insertion, equality, hash",701,[=](uint64_t i) {
      mute(); eval();
      for(int e : {0,1,62,63,64,65,127,128,200,319,320,500,700}) { GNSet g((unsigned short)i); std::string what=fmt("GNSet(%d places), insert %d",(int)i,e); if (!g.empty() || g.size() || g.contains(e) || g.begin()!=g.end()) { fail(what+": not empty at first"); return;}
         GNSet z {}; if (!(g==z) || g!=z || !(z==g) || std::hash<GNSet>{}(g)!=std::hash<GNSet>{}(z)) { fail(what+": empty sets differ"); return;}
         g.insert(e); trans(1); std::vector<char> r(800,0); r[e]=1; auto d=diff(g,r); if (!d.empty()) { fail(what+": "+d); return;}
         if (c10) { GNSet h {}; h.insert(e); GNSet u(e,e); if (!(h==g) || !(g==h) || g!=h || !(u==g) || std::hash<GNSet>{}(h)!=std::hash<GNSet>{}(g) || std::hash<GNSet>{}(u)!=std::hash<GNSet>{}(g)) { fail(what+": equal sets differ"); return;}
            h.insert(e+1); if (h==g || !(h!=g) || g==h) { fail(what+": different sets are equal"); return;} if (z==g || !(g!=z)) { fail(what+": equal to the empty set"); return;}}
         GNSet p((unsigned short)i); p.unionWith(g); d=diff(p,r); if (!d.empty()) { fail(what+", united: "+d); return;} p.interWith(g); d=diff(p,r); if (!d.empty()) { fail(what+", intersected: "+d); return;}
         g.removeAbove(e); d=diff(g,r); if (!d.empty()) { fail(what+", removeAbove: "+d); return;} g.removeBelow(e); d=diff(g,r); if (!d.empty()) { fail(what+", removeBelow: "+d); return;} if (e) { g.removeAbove(e-1); r[e]=0; d=diff(g,r); if (!d.empty()) { fail(what+", removeAbove-1: "+d); return;} }
         states(1);}
      distinct(i+1); trace(); }};
}
// ---- C11: more words -------------------------------------------------------------------------------
template <unsigned short W> Space mirrorWide() {
   const int n=W*64;
   return Space{fmt("mirrors over %d words: pairs around word boundaries and long runs, every offset",(int)W),(uint64_t)3*W*4,[=](uint64_t i) {
      mute(); typedef NatSet<W> N; int w=i/12,b=i/4%3,kind=i%4; int e=w*64+(b==0?0:b==1?31:63);
      for(int f=0;f<n;f++) { if (f%64>2 && f%64<61 && f%19) continue; std::vector<int> el; if (kind==0) el={e}; else if (kind==1) el={e,f}; else if (kind==2) for(int k=std::min(e,f);k<=std::max(e,f);k++) el.push_back(k); else for(int k=0;k<n;k++) { if (k!=e && k!=f) el.push_back(k);} 
         if (kind==0 && f!=e) continue;
         N s; int mx=0; for(int x : el) { s.insert(x); mx=std::max(mx,x);} states(1);
         for(int o=mx;o<n;o++) { eval(); N m(o,s),m2=o-s,want; for(int x : el) want.insert(o-x); trans(1); if (!(m==want) || !(m2==want)) { std::ostringstream os; os << s << " -> " << m; fail(fmt("%d - S over %d words is wrong: ",o,(int)W)+os.str().substr(0,600)); return;}} trace(); distinct(mix(i*1000+f,W)); }}};
}
// ---- helper functions over vectors, maps, sets
static Space foldSpace() {
   return Space{"sums over vectors, maps and sets, all contents over 3 values",(uint64_t)3*3*3*3*3,[](uint64_t i) {
      mute(); eval(); std::vector<int> v; uint64_t c=i; for(int k=0;k<5;k++,c/=3) v.push_back((int)(c%3)-1); v.resize(i%6 ? v.size()-i%6+1 : 5);
      double want=0; for(int x : v) want+=x*1.5+0.25; states(1); trans(v.size());
      if (sum<double>(v,[](const int& x) { return x*1.5+0.25;})!=want) { fail("sum over a vector"); return;}
      std::map<int,double> m; for(std::size_t k=0;k<v.size();k++) m[(int)k*10]=v[k]*0.5; want=0; for(auto& [k,x] : m) want+=k*x; if (sum<double>(m,[](const int& k,const double& x) { return k*x;})!=want) { fail("sum over a map"); return;}
      std::set<int> st(v.begin(),v.end()); int ws=0; for(int x : st) ws+=x*3; if (sum(st,[](const int& x) { return x*3;})!=ws) { fail("sum over an ordered set"); return;}
      std::set<int> a(v.begin(),v.end()),b; for(int k=(int)v.size()-1;k>=0;k--) b.insert(v[k]); if (std::hash<std::set<int>>{}(a)!=std::hash<std::set<int>>{}(b)) { fail("equal ordered sets, different hash values"); return;}
      distinct(i+1); trace(); }};
}
static std::vector<Space> build() {
   std::vector<Space> s; bool t=thorough();
   if (prop=="C09" || prop=="C10") { bool c=prop=="C10"; s.push_back(setLongSpace(c)); s.push_back(natLongSpace<5>(c)); s.push_back(natLongSpace<17>(c)); s.push_back(natLongSpace<300>(c)); if (!san) s.push_back(natLongSpace<1023>(c)); s.push_back(capacitySpace(c)); if (!c) s.push_back(foldSpace()); }
   if (prop=="C11") { s.push_back(mirrorWide<3>()); if (!san) { s.push_back(mirrorWide<5>()); if (t) s.push_back(mirrorWide<8>());} }
   if (prop=="C12") { if (!san) { s.push_back(heapRemoveSpace(t?8:7,0,1)); s.push_back(heapRemoveSpace(t?10:8,3,4)); s.push_back(heapRemoveSpace(t?15:12,2,2)); } else s.push_back(heapRemoveSpace(6,0,1)); s.push_back(heapLongSpace()); }
   if (prop=="C13") s.push_back(queueLongSpace());
   if (prop=="C14") { s.push_back(poolLongSpace()); if (!san) s.push_back(poolBigSpace()); s.push_back(adapterSpace()); }
   if (prop=="C15") { s.push_back(vecLongSpace()); s.push_back(farrayLongSpace()); s.push_back(matrixLongSpace()); s.push_back(matrixDimSpace()); }
   if (prop=="C16") { int n=san?700:t?140000:70000; s.push_back(clearSpace<Hashtable<int,int,std::hash<int>>>("hash table",547,n)); s.push_back(clearSpace<Hashtable<int,int,Mod3>>("hash table, colliding hash",2,n)); s.push_back(clearSpace<LHashtable<int,std::hash<int>>>("node table",547,n)); s.push_back(clearSpace<LHashtable<int,SameHash>>("node table, one slot",2,n));
      s.push_back(fillSpace<Hashtable<int,int,std::hash<int>>>("hash table")); s.push_back(fillSpace<LHashtable<int,std::hash<int>>>("node table")); }
   if (prop=="C17") { s.push_back(sortLongSpace()); s.push_back(sortOneSpace(san?40:t?200:90)); }
   if (prop=="C18") { s.push_back(ufLongSpace()); s.push_back(ufDeepSpace()); }
   return s;
}
int main(int argc,char** argv) {
   return drive(argc,argv,build,"long histories and large sizes around every power of two, each size x use pattern enumerated and compared with a plain reference (distinct by size and use)");
}
