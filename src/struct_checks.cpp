// C23 node lists and layer arrays, C24 elapsed times, C25 vectors and buffers in pools, C26 handles, C27 bounds.
#include "vf.hpp"
#include "own.hpp"
#include "vclock.hpp"
#include <deque>
#include <sstream>
#include <math.h>
#include "families.hpp"
#include "RuntimeMonitor.hpp"
using namespace vf;
static void mute() { std::cout.setstate(std::ios::failbit);}
struct Path { std::vector<std::string> ops; Path() { ops.reserve(64);} std::string show() const { std::string s; for(auto& o : ops) s+=o+"; "; return s;} };
static Path* gPath; static bool gBad;
static bool bad(const std::string& m) { if (!gBad) fail(m+" after: "+gPath->show()); gBad=true; return false;}
struct Case { Path p; Case() { mute(); gBad=false; gPath=&p; eval();} void op(std::string s) { p.ops.push_back(std::move(s)); trans(1);} };
static uint64_t seqHash(const std::vector<int>& v,uint64_t h=17) { for(int x : v) h=mix(h,x+3); return h;}
template <class C> static uint64_t seqHashC(const C& v,uint64_t h) { for(int x : v) h=mix(h,x+3); return h;}

// ================================================================================ C23
template <class L> static std::vector<int> ids(L& l,int how) {
   std::vector<int> r; int guard=0;
   if (how==0) for(auto n : l) { r.push_back(n->getId()); if (++guard>5000) break;}
   else if (how==1) for(auto i=l.begin();i!=l.end();i++) { r.push_back((*i)->getId()); if (++guard>5000) break;}
   else for(auto i=l.begin();!(i==l.end());++i) { auto q=i; auto was=q++; if (!(was==i)) r.push_back(-1); r.push_back((*was)->getId()); if (++guard>5000) break;}
   return r;
}
static Space listSpace(int K,int depth) {
   const int N=2*K+3;
   return Space{fmt("node lists: all sequences of length %d over %d nodes",depth,K),ipow(N,depth),[=](uint64_t i) {
      Case c; Pool pool(1<<12); std::vector<ANode*> nd; for(int k=0;k<K;k++) nd.push_back(new (&pool) ANode(&pool,k,true));
      ANList l; std::deque<int> r; uint64_t code=i;
      for(int s=0;s<depth;s++,code/=N) { int o=code%N;
         if (o<K) { if (std::count(r.begin(),r.end(),o)) return; c.op(fmt("add %d",o)); l.push_back(nd[o]); r.push_back(o);}
         else if (o<2*K) { o-=K; auto at=std::find(r.begin(),r.end(),o); if (at==r.end()) return; c.op(fmt("remove %d",o)); l.remove(nd[o]); r.erase(at);}
         else if (o==2*K) { if (r.empty()) return; c.op("drop the last"); l.pop_back(); r.pop_back();}
         else if (o==2*K+1) { c.op("clear"); l.clear(); for(int x : r) nd[x]->reset(); r.clear();}
         else { c.op("go on with a copy"); ANList m(l); l.clear(); new (&l) ANList(m);}
         states(1);
         if (l.size()!=r.size()) { bad(fmt("size is %zu instead of %zu",l.size(),r.size())); return;}
         for(int h=0;h<3;h++) { auto v=ids(l,h); if (!std::equal(v.begin(),v.end(),r.begin(),r.end())) { std::string t; for(int x : v) t+=std::to_string(x)+" "; bad("the list is "+t); return;}}
         if (!r.empty()) { if ((int)l.front()->getId()!=r.front() || (int)l.back()->getId()!=r.back()) { bad("front or back is wrong"); return;}
            // backwards from the last
            auto it=l.begin(); for(std::size_t k=1;k<r.size();k++) ++it; for(int k=(int)r.size()-1;k>=0;k--) { if ((int)(*it)->getId()!=r[k]) { bad("backwards iteration is wrong"); return;} if (k) { if (k&1) --it; else it--; }}}
         else if (l.begin()!=l.end() || l.front() || l.back()) { bad("an empty list has an element"); return;}
         for(int k=0;k<K;k++) if (l.confirmMembership(nd[k])!=(std::count(r.begin(),r.end(),k)>0)) { bad(fmt("membership of %d is wrong",k)); return;}
      }
      if (!r.empty()) distinct(seqHashC(r,i%977)); trace(); }};
}
struct NdaCase { // the array as the reference sees it
   NDArray a; std::deque<int> r; bool dense=true; int room=0;   // dense: nothing removed since the last clear; room: places freed at the front
   NdaCase(std::size_t cap) : a(cap) {}
   bool judge() {
      states(1);
      if (a.size()!=r.size()) return bad(fmt("size is %zu instead of %zu",a.size(),r.size()));
      for(int h=0;h<3;h++) { auto v=ids(a,h); if (!std::equal(v.begin(),v.end(),r.begin(),r.end())) { std::string t; for(int x : v) t+=std::to_string(x)+" "; return bad("the array is "+t);} }
      if (a.size()!=r.size()) return bad(fmt("size is %zu instead of %zu after looking at the elements",a.size(),r.size()));
      if (!r.empty()) { if ((int)a.front()->getId()!=r.front()) return bad("the front is wrong");
         auto it=a.end(); for(int k=(int)r.size()-1;k>=0;k--) { if (k&1) --it; else it--; if ((int)(*it)->getId()!=r[k]) return bad("backwards iteration is wrong");}
         if (it!=a.begin()) return bad("backwards iteration does not end at the beginning");}
      else if (a.begin()!=a.end()) return bad("an empty array has an element");
      if (dense) for(std::size_t k=0;k<r.size();k++) { if ((int)a[k]->getId()!=r[k]) return bad("indexing is wrong"); if ((int)(*a.at(k))->getId()!=r[k]) return bad("at() is wrong");}
      return true;
   }
};
static Space arraySpace(std::size_t cap,int depth) {
   const int N=10;
   return Space{fmt("layer arrays(%zu): all sequences of length %d",cap,depth),ipow(N,depth),[=](uint64_t i) {
      Case c; Pool pool(1<<12); int nid=0; auto node=[&](int id) { return ANode::Ptr(new (&pool) ANode(&pool,id,true));};
      NdaCase x(cap); uint64_t code=i;
      for(int s=0;s<depth;s++,code/=N) { int o=code%N; const int n=x.r.size();
         // identifiers rise and fall so that sorting has work to do
         auto fresh=[&] { int k=nid++; return (k*7)%16+16*(k/16);};
         switch(o) {
            case 0: case 1: { int id=fresh(); c.op(fmt("add %d",id)); x.a.push_back(node(id)); x.r.push_back(id); if (o==1) { id=fresh(); c.op(fmt("add %d",id)); x.a.push_back(node(id)); x.r.push_back(id);} break;}
            case 2: { if (!n) return; c.op("take the first"); ANode::Ptr f=x.a.front(); if ((int)f->getId()!=x.r.front()) { bad("the front is wrong"); return;} x.a.pop_front(); x.r.pop_front(); x.dense=false; x.room++; break;}
            case 3: { if (!x.room) return; int id=fresh(); c.op(fmt("add %d in front",id)); x.a.push_front(node(id)); x.r.push_front(id); x.room--; break;}
            case 4: case 5: case 6: { int k= o==4 ? 0 : o==5 ? n/2 : n-1; if (!n || (o==5 && (n/2==0 || n/2==n-1)) || (o==6 && n==1)) return; c.op(fmt("erase no. %d",k)); auto it=x.a.begin(); for(int q=0;q<k;q++) ++it;
               auto nx=x.a.erase(it); x.r.erase(x.r.begin()+k); x.dense=false;
               if (k<(int)x.r.size() ? (int)(*nx)->getId()!=x.r[k] : nx!=x.a.end()) { bad("erase does not return the next element"); return;} break;}
            case 7: { if (!x.dense) return; c.op("sort"); x.a.sort([](const ANode::Ptr& p,const ANode::Ptr& q) { return p->getId()<q->getId();}); std::sort(x.r.begin(),x.r.end()); break;}
            case 8: { if (!x.dense) return; int k=n/2; c.op(fmt("cut from no. %d",k)); x.a.eraseSuffix(x.a.at(k)); x.r.resize(k); break;}
            case 9: c.op("clear"); x.a.clear(); x.r.clear(); x.dense=true; x.room=0; break;
         }
         if (!x.judge()) return;
      }
      if (!x.r.empty()) distinct(seqHashC(x.r,i%977)); trace(); }};
}
// erasing through the iterator while walking over the array, every subset of what to erase
static Space sweepSpace(int n) {
   return Space{fmt("layer arrays: every subset of %d elements erased while iterating",n),1ull<<n,[=](uint64_t i) {
      Case c; Pool pool(1<<12); NdaCase x(2); for(int k=0;k<n;k++) x.a.push_back(ANode::Ptr(new (&pool) ANode(&pool,k,true)));
      c.op(fmt("erase subset %llx of %d",(unsigned long long)i,n)); auto it=x.a.begin(); for(int k=0;k<n;k++) { if ((int)(*it)->getId()!=k) { bad("the iterator is at the wrong element"); return;} if (i>>k&1) { if (k&1) it=x.a.erase(it); else it.erase();} else { ++it; x.r.push_back(k);} }
      if (it!=x.a.end()) { bad("the iterator is not at the end"); return;} x.dense= i==0;
      if (!x.judge()) return; while(!x.r.empty()) { c.op("take the first"); x.a.pop_front(); x.r.pop_front(); x.dense=false; if (!x.judge()) return;}
      distinct(i+1); trace(); }};
}
static Space arrayLongSpace(int n) {
   return Space{fmt("layer arrays and node lists of up to %d nodes x how much is cut off",n),(uint64_t)n*5,[=](uint64_t i) {
      Case c; int sz=i/5+1,cut=sz*(int)(i%5)/4; Pool pool(1<<16); std::vector<ANode::Ptr> nd; for(int k=0;k<sz;k++) nd.push_back(new (&pool) ANode(&pool,(k*37)%sz+(sz%37?0:sz*k),true));
      NDArray a; ANList l; for(auto p : nd) { a.push_back(p); l.push_back(p);} c.op(fmt("%d nodes, cut at %d",sz,cut));
      a.sort([](const ANode::Ptr& p,const ANode::Ptr& q) { return p->getId()>q->getId();}); std::vector<unsigned> r; for(auto p : nd) r.push_back(p->getId()); std::vector<unsigned> order=r; std::sort(r.rbegin(),r.rend());
      auto same=[&](auto& q,const std::vector<unsigned>& w) { std::vector<unsigned> v; for(auto p : q) v.push_back(p->getId()); return v==w && q.size()==w.size();};
      if (!same(a,r)) { bad("the sorted array is wrong"); return;} if (!same(l,order)) { bad("the list is wrong"); return;}
      auto from=a.at(cut); for(auto it=from;it!=a.end();it++) { l.remove(*it); order.erase(std::find(order.begin(),order.end(),(*it)->getId()));} a.eraseSuffix(from); r.resize(cut);
      if (!same(a,r)) { bad("the cut array is wrong"); return;} if (!same(l,order)) { bad("the list after removals is wrong"); return;}
      a.clear(); if (a.size()!=0 || a.begin()!=a.end()) { bad("a cleared array is not empty"); return;} for(auto p : nd) a.push_back(p); r.clear(); for(auto p : nd) r.push_back(p->getId()); if (!same(a,r)) { bad("a reused array is wrong"); return;}
      states(3); distinct(i+1); trace(); }};
}
// ================================================================================ C24
#ifndef VF_NOARENA
static Space timeSpace() {
   static std::vector<int64_t> D,B;
   if (D.empty()) { for(int64_t u : {0ll,1ll,1000ll,1000000ll,1000000000ll,60000000000ll,3600000000000ll}) for(int64_t k : {1,2,3,7,10,59,60,61,99,100,101,127,128,255,256,257,500,999,1000,1001,4999,5000,5001,32767,32768,65535,65536,86400,600000}) for(int64_t e : {-1,0,1}) if (u*k+e>=0 && u*k<=(int64_t)400*86400*1000000000ll) D.push_back(u*k+e);
      for(int64_t ms : {2147483646ll,2147483647ll,2147483648ll,2147483649ll,4294967295ll,4294967296ll,4294967297ll,2147483ll,2147484ll,4294967ll,4294968ll}) for(int64_t e : {-1000000,-1,0,1,1000000}) D.push_back(ms*1000000+e);
      std::sort(D.begin(),D.end()); D.erase(std::unique(D.begin(),D.end()),D.end()); for(int64_t b : {1000000000000ll,1700000000000000000ll,1700000000999999999ll,1700000000500000000ll}) B.push_back(b);}
   return Space{fmt("%zu lengths of time from 4 starting points",D.size()),D.size()*B.size(),[](uint64_t i) {
      Case c; int64_t d=D[i/B.size()],b=B[i%B.size()]; c.op(fmt("%lld ns pass, starting at %lld ns",(long long)d,(long long)b));
      namespace R=RuntimeMonitor; vclk::hist.reserve(4096); vclk::hist.clear(); vclk::step=vclk::jump=0; vclk::jumpAt=0; vclk::ns=vclk::begin=b; vclk::on=true;
      auto s=R::now(),s2=R::cputime(); auto w=R::wctime(); if (s<s2 || s2<s) { vclk::on=false; bad("the two clocks differ"); return;}
      vclk::ns=b+d; auto e=R::now(),e2=R::cputime(); auto w2=R::wctime();
      double ms=d/1e6,el=R::elapsedSince(s),m1=R::elapsedMilliseconds(s,e),m2=R::elapsedMilliseconds(s2,e2),se=R::elapsedSeconds(s,e),se1=R::elapsedSeconds(s); long ml=R::milli(s,e); unsigned long us=R::elapsedSinceMicro(s);
      vclk::on=false;
      auto off=[](double got,double want,double unit) { return got<0 || std::abs(got-want)>unit;};
      double tol=1.0+ms*1e-12;
      if (off(el,ms,tol)) bad(fmt("elapsedSince gives %.9g ms",el)); else if (off(m1,ms,tol) || off(m2,ms,tol)) bad(fmt("elapsedMilliseconds gives %.9g",m1)); else if (off(se,ms/1000,tol/1000)) bad(fmt("elapsedSeconds gives %.9g",se)); else if (off(se1,ms/1000,tol/1000)) bad(fmt("elapsedSeconds up to now gives %.9g",se1));
      else if (off((double)ml,ms,tol)) bad(fmt("milli gives %ld",ml)); else if (off((double)us,d/1e3,1.0+ms*1e-9)) bad(fmt("elapsedSinceMicro gives %lu",us));
      else if (off(std::chrono::duration<double,std::milli>(w2-w).count(),ms,tol)) bad("wctime does not follow the clock");
      states(2); distinct(mix(d+1,i%B.size())); trace(); }};
}
#endif
// ================================================================================ C25
struct Odd { char v[3]; Odd(int x=0) { v[0]=x; v[1]=x>>1; v[2]=1;} operator int() const { return v[0];} };
struct Wide { long double a; int v; Wide(int x=0) : a(x),v(x) {} operator int() const { return (int)a==v && (std::uintptr_t)this%alignof(Wide)==0 ? v : -99999;} };
template <class T> static Space stlSpace(const char* nm,int depth) {
   typedef std::vector<T,stl::StackAdapter<T,Pool*>> V; const int N=22;
   return Space{fmt("vectors of %s in pools: all sequences of length %d",nm,depth),ipow(N,depth),[=](uint64_t i) {
      Case c; Pool p1(1<<12),p2(1<<13); Pool* ps[2]={&p1,&p2};
      { V v[2]={V(stl::StackAdapter<T,Pool*>(&p1)),V(stl::StackAdapter<T,Pool*>(&p2))}; std::vector<int> r[2]; uint64_t code=i; int next=1,at[2]={0,1};
      for(int s=0;s<depth;s++,code/=N) { int o=code%N,k=o/11; o%=11; auto& a=v[k]; auto& b=v[1-k]; auto& ra=r[k]; auto& rb=r[1-k]; const char* who=k?"second":"first";
         switch(o) {
            case 0: c.op(fmt("%s: append %d",who,next)); a.push_back(T(next)); ra.push_back(next++); break;
            case 1: if (ra.empty()) return; c.op(fmt("%s: drop the last",who)); a.pop_back(); ra.pop_back(); break;
            case 2: c.op(fmt("%s: insert %d in front",who,next)); a.insert(a.begin(),T(next)); ra.insert(ra.begin(),next++); break;
            case 3: if (ra.empty()) return; c.op(fmt("%s: erase the first",who)); a.erase(a.begin()); ra.erase(ra.begin()); break;
            case 4: c.op(fmt("%s = the other",who)); a=b; ra=rb; at[k]=at[1-k]; break;
            case 5: c.op(fmt("%s = the other, moved; the other cleared",who)); a=std::move(b); b.clear(); ra=rb; rb.clear(); at[k]=at[1-k]; break;
            case 6: if (k) return; c.op("swap"); a.swap(b); std::swap(ra,rb); std::swap(at[0],at[1]); break;
            case 7: c.op(fmt("%s: 3 elements more",who)); a.resize(a.size()+3); ra.resize(ra.size()+3); break;
            case 8: c.op(fmt("%s: clear and shrink",who)); a.clear(); a.shrink_to_fit(); ra.clear(); break;
            case 9: c.op(fmt("%s: copied and put back",who)); { V t(a); V u(std::move(t)); a=u;} break;
            case 10: c.op(fmt("%s: reserve",who)); a.reserve(a.capacity()+5); break;
         }
         states(1);
         for(int q=0;q<2;q++) { if (v[q].size()!=r[q].size()) { bad("the size is wrong"); return;} for(std::size_t x=0;x<r[q].size();x++) if ((int)v[q][x]!=r[q][x]) { bad(fmt("element %zu of the %s is wrong",x,q?"second":"first")); return;}}
         if (v[0].max_size()<16 || v[1].max_size()<16) { bad("max_size"); return;}
         for(int q=0;q<2;q++) if (!(v[q].get_allocator()==stl::StackAdapter<T,Pool*>(ps[at[q]]))) { bad("a vector draws from the wrong pool"); return;}
         if ((v[0].get_allocator()==v[0].get_allocator())!=true || v[0].get_allocator()!=v[0].get_allocator()) { bad("an allocator is not equal to itself"); return;}
      }
      bool eq=stl::StackAdapter<T,Pool*>(&p1)==stl::StackAdapter<T,Pool*>(&p2); if (eq) { bad("allocators of two pools are equal"); return;}
      if (!r[0].empty() || !r[1].empty()) distinct(mix(seqHash(r[0],i%977),seqHash(r[1])));
      }
      trace(); }};
}
static Space bufferSpace(int depth) {
   static const std::size_t Z[]={0,1,3,8,16,31,64,65};
   return Space{fmt("fixed buffers: all sequences of %d requests",depth),ipow(8,depth),[=](uint64_t i) {
      Case c; auto buf=std::make_unique<stl::CoreAlloc<64>>(); uint64_t code=i; std::size_t used=0; std::vector<std::pair<char*,std::size_t>> bl; if (buf->capacity()!=64) { bad("capacity"); return;}
      for(int s=0;s<depth;s++,code/=8) { auto z=Z[code%8]; c.op(fmt("%zu bytes",z)); char* p=nullptr; bool thrown=false; try { p=(char*)buf->allocate(z);} catch(const std::bad_alloc&) { thrown=true;}
         states(1); if (thrown!=(used+z>64)) { bad(thrown ? "refused although there is room" : "handed out more than there is"); return;} if (thrown) continue;
         used+=z; char* b=(char*)buf->base(); if (p<b || p+z>b+64) { bad("a block lies outside the buffer"); return;}
         for(auto& [q,y] : bl) if (p<q+y && q<p+z) { bad("two blocks overlap"); return;} memset(p,0x5a,z); bl.push_back({p,z}); buf->free(p);}
      if (used) distinct(mix(used,i)); trace(); }};
}
// ================================================================================ C26
struct HB { int v; static inline int live=0; HB(int x=0) : v(x) { live++;} virtual ~HB() { live--;} int get() const { return v;} };
struct HD : HB { int w; HD(int x,int y) : HB(x),w(y) {} };
template <template <class> class P> static Space handleSpace(const char* nm,int depth) {
   typedef P<HB> H; typedef P<HD> HDp; const int N=19;
   return Space{fmt("%s: all sequences of length %d",nm,depth),ipow(N,depth),[=](uint64_t i) {
      Case c; HB::live=0; { HB x(1),y(2); HD z(3,4); const int base=HB::live; H h[2]; HDp d; HB* r[2]={nullptr,nullptr}; HD* rd=nullptr; uint64_t code=i; int own=0; // own: objects only handles know
      for(int s=0;s<depth;s++,code/=N) { int o=code%N,k=o<16 ? o/8 : 0; if (o<16) o%=8; else o-=8;
         bool lost=false; HB* before=r[k];
         switch(o) {
            case 0: c.op("h = h2"); h[k]=h[1-k]; r[k]=r[1-k]; break;
            case 1: c.op("h = &x"); h[k]=&x; r[k]=&x; break;
            case 2: c.op("h = H(&y)"); h[k]=H(&y); r[k]=&y; break;
            case 3: c.op("h = nullptr"); h[k]=H(nullptr); r[k]=nullptr; break;
            case 4: c.op("h = derived"); if constexpr (std::is_constructible_v<H,HDp&>) h[k]=H(d); else h[k]=d.get(); r[k]=rd; break;
            case 5: c.op("h = derived, moved copy"); { HDp t(d); if constexpr (std::is_constructible_v<H,HDp&&>) h[k]=H(std::move(t)); else h[k]=t.get();} r[k]=rd; break;
            case 6: c.op("h = copy of itself"); { H t(h[k]); h[k]=std::move(t);} break;
            case 7: c.op("swap"); { H t(std::move(h[0])); h[0]=std::move(h[1]); h[1]=std::move(t); std::swap(r[0],r[1]);} break;
            case 8: c.op("d = &z"); d=&z; rd=&z; break;
            case 9: c.op("d = null"); d=HDp(); rd=nullptr; break;
            case 10: { c.op("make and free"); auto t=H(new HD(7,8)); if (HB::live!=base+1) { bad("object count"); return;} H u(t); if (!(u==t) || u->v!=7) { bad("a handle of a new object is wrong"); return;} if (depth&1) t.free(); else t.dealloc(); if (t || HB::live!=base) { bad("free does not end the object, or keeps the handle"); return;} break;}
         }
         (void)lost; (void)before; (void)own; states(1);
         for(int q=0;q<2;q++) { if (h[q].get()!=r[q] || (bool)h[q]!=(r[q]!=nullptr)) { bad("a handle points elsewhere"); return;}
            const H& ch=h[q]; if (ch.get()!=r[q]) { bad("a const handle points elsewhere"); return;}
            if (r[q] && (h[q]->v!=r[q]->v || (*h[q]).get()!=r[q]->v || &*h[q]!=r[q])) { bad("a handle gives another object"); return;}
            if ((h[q]==d)!=(r[q]==rd)) { bad("comparison with a handle of a derived type is wrong"); return;}}
         if ((h[0]==h[1])!=(r[0]==r[1])) { bad("comparison is wrong"); return;}
         if (d.get()!=rd || (rd && d->w!=4)) { bad("the derived handle is wrong"); return;}
         if (HB::live!=base) { bad("handles end or make objects by themselves"); return;}
      }
      if (r[0] || r[1]) distinct(i+1);
      }
      if (HB::live!=0) bad("objects were lost or ended twice"); trace(); }};
}
static Space makeHandleSpace() {
   return Space{"make_handle: arguments",64,[](uint64_t i) { Case c; HB::live=0; int a=(int)i-32,b=(int)i*3; c.op(fmt("make_handle(%d,%d)",a,b)); auto h=make_handle<HD>(a,b); if (h->v!=a || h->w!=b || HB::live!=1) bad("the object is not made of the arguments");
      handle_ptr<HB> g(h); if (!(g==h)) bad("the base handle is not equal"); h.free(); if (h || HB::live) bad("free"); auto e=make_handle<HB>(); if (e->v!=0) bad("no arguments"); e.dealloc(); if (HB::live) bad("dealloc"); states(1); distinct(i+1); trace(); }};
}
// ================================================================================ C27
static Space boundsSpace(int depth) {
   const int N=14;
   return Space{fmt("bounds: all sequences of length %d",depth),ipow(N,depth),[=](uint64_t i) {
      Case c; Scope sc; coddVerifTableSize=2; typedef std::vector<std::vector<int>> Log;
      Automaton a(1,1,1); a.to[0][0][0]=0; a.prepare(); Automaton b=a; b.maximize=false; M=&a; gOff=0; gStr=1; gHashMode=0; AbstractDD::Ptr mx=makeModelDD(a,LK_GNSET); M=&b; AbstractDD::Ptr mn=makeModelDD(b,LK_GNSET);
      Log log[12],want[12]; int nlog=0; std::string order,wantOrder; uint64_t code=i;
      std::optional<Bounds> B; std::vector<std::optional<Bounds::CBHandle>> hd; std::optional<double> p; std::vector<int> inc; std::vector<int> cbs;
      auto cb=[&](int k) { return [&,k](const std::vector<int>& v) { log[k].push_back(v); order+=(char)('a'+k);};};
      for(int s=0;s<depth;s++,code/=N) { int o=code%N;
         if (s==0) { // construction
            if (o==0) { c.op("Bounds()"); B.emplace();} else if (o==1) { c.op("Bounds(callback)"); cbs.push_back(nlog); hd.push_back(std::nullopt); B.emplace(SolutionCB(cb(nlog++)));} else if (o==2) { c.op("Bounds(max diagram)"); B.emplace(mx); p=a.none();} else if (o==3) { c.op("Bounds(min diagram)"); B.emplace(mn); p=b.none();} else return;
         } else switch(o) {
            case 0: c.op("primal 16777217.1"); B->setPrimal(16777217.1); p=16777217.1; break;
            case 1: c.op("primal -0.3"); B->setPrimal(-0.3); p=-0.3; break;
            case 2: c.op("primal 0"); B->setPrimal(0); p=0; break;
            case 3: c.op("attach max"); B->attach(mx); if (!p) p=a.none(); break;
            case 4: c.op("attach min"); B->attach(mn); if (!p) p=b.none(); break;
            case 5: c.op("one callback more"); cbs.push_back(nlog); hd.push_back(B->onSolution(cb(nlog++))); break;
            case 6: case 7: case 8: case 9: { inc = o==6 ? std::vector<int>{} : o==7 ? std::vector<int>{3} : o==8 ? std::vector<int>{-1,0,70000} : std::vector<int>{2,2}; c.op(fmt("incumbent of %zu labels",inc.size())); B->setIncumbent(inc.begin(),inc.end()); for(int k : cbs) { want[k].push_back(inc); wantOrder+=(char)('a'+k);} break;}
            case 10: { c.op("incumbent from a node"); Pool pl(4096); Vec<int,unsigned> v(&pl); for(int k=0;k<5;k++) v.push_back(k*k); inc={0,1,4,9,16}; B->setIncumbent(v.begin(),v.end()); for(int k : cbs) { want[k].push_back(inc); wantOrder+=(char)('a'+k);} break;}
            case 11: { c.op("copy"); Bounds t(*B); B=t; for(auto& h : hd) h.reset(); break;}
            case 12: { c.op("primal of another copy"); Bounds t(*B); t.setPrimal(77); t.onSolution([](const std::vector<int>&) {}); break;}
            case 13: { std::size_t k=0; while(k<hd.size() && !hd[k]) k++; if (k==hd.size()) return; c.op(fmt("forget callback %d",cbs[k])); B->forget(*hd[k]); cbs.erase(cbs.begin()+k); hd.erase(hd.begin()+k); break;}
         }
         states(1);
         if (B->hasPrimal()!=p.has_value() || (p && B->getPrimal()!=*p)) { bad(fmt("the primal value is %g",B->getPrimal())); return;}
         for(int k=0;k<nlog;k++) if (log[k]!=want[k]) { bad("a callback was not told exactly the incumbents since it was added"); return;}
         if (order!=wantOrder) { bad("the callbacks are not called in the order they were added"); return;}
         if (p) { std::ostringstream os,w; os << *B; std::string t=os.str(); w << *p; auto at=t.find("P:"); if (at==std::string::npos || t.compare(at+2,w.str().size(),w.str())) { bad("prints "+t); return;}
            std::vector<int> got; std::istringstream is(t.substr(std::min(t.size(),t.find("[",t.find("INC"))))); for(char ch; is.get(ch);) if (isdigit(ch) || ch=='-') { is.unget(); int x; is>>x; got.push_back(x);} if (got!=inc) { bad("prints "+t); return;}}
      }
      if (!wantOrder.empty() || p) distinct(mix(seqHash(inc,i),wantOrder.size())); trace(); }};
}
template <class C> static Space senseSpace(const char* nm,bool mx) {
   static const double V[]={-2147483647.0,-1e9,-2,-1,-0.5,-1e-9,0,1e-9,0.5,1,2,16777216.5,16777217,1e9,2147483647.0};
   return Space{fmt("%s: all pairs of values",nm),15*15,[=](uint64_t i) { Case c; double x=V[i/15],y=V[i%15]; c.op(fmt("%.17g and %.17g",x,y)); C k; bool bt=mx ? x>y : x<y;
      Scope sc; coddVerifTableSize=2; Automaton a(1,1,1); a.maximize=mx; a.to[0][0][0]=0; a.prepare(); M=&a; gOff=0; gStr=1; gHashMode=0; auto dd=makeModelDD(a,LK_GNSET);
      if (k.better(x,y)!=bt || k.betterEQ(x,y)!=(bt || x==y) || dd->isBetter(x,y)!=bt || dd->isBetterEQ(x,y)!=(bt || x==y) || dd->better(x,y)!=(bt ? x : y)) bad("the comparison is wrong");
      if (k.bestValue()==k.worstValue() || k.better(k.bestValue(),k.worstValue())==k.better(k.worstValue(),k.bestValue())) bad("the extreme values are wrong");
      if (x!=dd->initialBest() && std::abs(x)<2147483647.0 && !dd->isBetter(x,dd->initialBest())) bad("a value is not better than no value"); if (std::abs(x)<2147483647.0 && !dd->isBetter(dd->initialWorst(),x)) bad("the worst initial value is beaten");
      states(1); distinct(i+1); trace(); }};
}
static std::vector<Space> build() {
   std::vector<Space> s; bool t=thorough();
#ifdef VF_NOARENA
   const bool san=true;
#else
   const bool san=false;
#endif
   if (prop=="C23") { s.push_back(listSpace(3,san?5:t?8:6)); s.push_back(listSpace(4,san?4:t?7:5)); for(std::size_t c : {1,2,3}) s.push_back(arraySpace(c,san?4:t?7:6)); s.push_back(arraySpace(128,san?3:5)); s.push_back(sweepSpace(san?8:t?16:12)); s.push_back(arrayLongSpace(san?140:t?600:300)); }
#ifndef VF_NOARENA
   if (prop=="C24") s.push_back(timeSpace());
#endif
   if (prop=="C25") { s.push_back(stlSpace<int>("integers",san?3:t?5:4)); s.push_back(stlSpace<Own>("elements that own memory",san?3:4)); s.push_back(stlSpace<Odd>("3-byte elements",san?3:4)); s.push_back(stlSpace<Wide>("16-byte elements",san?3:4)); s.push_back(bufferSpace(san?4:t?7:6)); }
   if (prop=="C26") { s.push_back(handleSpace<handle_ptr>("handles",san?3:t?5:4)); s.push_back(handleSpace<strict_ptr>("strict handles",san?3:t?5:4)); s.push_back(makeHandleSpace()); }
   if (prop=="C27") { s.push_back(boundsSpace(san?4:t?6:5)); s.push_back(senseSpace<Maximize<double>>("maximisation",true)); s.push_back(senseSpace<Minimize<double>>("minimisation",false)); }
   return s;
}
int main(int argc,char** argv) {
   return drive(argc,argv,build,"every sequence of operations up to the stated length (operations that do not apply end the sequence: it is a prefix of another), checked against a plain reference after every operation; non-trivial: something is stored at the end (distinct by content and sequence)");
}
