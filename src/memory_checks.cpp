// C28: every short history of uses of a model, with all memory counted: what is over gives its memory back, and doing
// it again needs no more than doing it once. States own memory, so a state that is not destroyed is seen as well.
#include "bb.hpp"
#include <set>
using namespace vf;
extern int64_t liveBytes,liveBlocks;
// while a diagram is drawn over and over, the programs it would launch are not: fork hands out a process number and waiting returns at once
#include <sys/wait.h>
#include <sys/syscall.h>
static bool drawing=false;
extern "C" pid_t _Fork(void);
extern "C" pid_t fork(void) { return drawing ? 4000000 : _Fork();}
extern "C" pid_t waitpid(pid_t p,int* st,int o) { if (drawing) { if (st) *st=0; return p;} return (pid_t)syscall(SYS_wait4,p,st,o,nullptr);}
extern "C" int mkstemp(char* t) { if (!drawing) return mkostemp(t,0); const char* d=getenv("VF_TMP"); std::string f=std::string(d?d:"/tmp")+fmt("/drawing%d",(int)getpid()); if (f.size()<200) strcpy(t,f.c_str()); return open(t,O_RDWR|O_CREAT|O_TRUNC,0600);}
static const char* opName[]={"search w1","search w2 that is stopped","search on the common bounds","exact diagram","relaxed diagram w1 and its cutset","restricted diagram w2","diagrams of a subproblem","continue with a duplicate","nodes copied to an allocator"};
static constexpr int NOP=9;
struct World {
   const Model& m; Cfg c; AbstractDD::Ptr dd; Bounds shared; Exact ex; Restricted r2; Relaxed x1; unsigned w; int cuts;
   World(const Model& m,const Cfg& c,unsigned w,int cuts) : m(m),c(c),r2(w+1),x1(w),w(w),cuts(cuts) { useCfg(c); M=&m; dd=makeModelDD(m,c.lk);}
};
static ANode::Ptr rootOf(AbstractNodeAllocator::Ptr pool,AbstractDD::Ptr y) { return pool->cloneNode(y->init());}
static void doOp(World& w,int o) {
   trans(1);
   auto compile=[&](Strategy& st) { auto y=w.dd->duplicate(); auto pool=y->makeNDAllocator(); ANode::Ptr r=rootOf(pool,y); Bounds b; b.attach(w.dd); w.dd->setStrategy(&st); w.dd->apply(r,b);};
   switch(o) {
      case 0: { Bounds b; BAndB e(w.dd,w.w); e.search(b); break;}
      case 1: { Bounds b; BAndB e(w.dd,w.w+1); int n=0; e.setTimeLimit([&n](double) { return ++n>2;}); e.search(b); break;}
      case 2: { BAndB e(w.dd,w.w+1); e.search(w.shared); break;}
      case 3: compile(w.ex); break;
      case 4: compile(w.x1); for(int k=0;k<w.cuts;k++) w.dd->computeCutSet(); break;
      case 5: compile(w.r2); break;
      case 6: { auto y=w.dd->duplicate(),z=w.dd->duplicate(); auto pool=y->makeNDAllocator(); z->setStrategy(&w.ex); ANode::Ptr r=rootOf(pool,y); Bounds b; b.attach(z); z->apply(r,b);
         ANode::Ptr last=nullptr; for(auto k=z->getRoot()->beginKids();k!=z->getRoot()->endKids();k++) { Edge::Ptr e=*k; if (!w.m.sink(stateOf(e->_to))) last=e->_to;}
         if (last) { auto n=pool->cloneNode(last); if (n) { w.dd->setStrategy(&w.x1); w.dd->apply(n,b); w.dd->setStrategy(&w.r2); w.dd->apply(n,b);} }
         z->setStrategy(nullptr ? nullptr : &w.x1); break;}
      case 7: { auto d=w.dd->duplicate(); w.dd=d; break;}
      case 8: { auto z=w.dd->duplicate(); auto pool=z->makeNDAllocator(); z->setStrategy(&w.ex); Bounds b; b.attach(z); z->compute(b); std::vector<ANode::Ptr> q{z->getRoot()}; std::set<ANode*> seen; 
         for(std::size_t i=0;i<q.size();i++) { auto n=pool->cloneNode(q[i]); if (n) pool->release(n); for(auto k=q[i]->beginKids();k!=q[i]->endKids();k++) { Edge::Ptr e=*k; if (seen.insert(e->_to.get()).second) q.push_back(e->_to);} } break;}
   }
}
static uint64_t allocs=0;
// the whole history, then everything goes away
static void gone(const Model& m,const Cfg& c,unsigned w,const std::vector<int>& seq,int cuts) {
   int64_t b0=liveBytes,n0=liveBlocks; int64_t peak=0;
   { World wd(m,c,w,cuts); for(int o : seq) { doOp(wd,o); peak=std::max(peak,liveBytes-b0); states(1);} }
   eval();
   if (liveBytes!=b0 || liveBlocks!=n0) { std::string h; for(int o : seq) h+=std::string(opName[o])+"; "; fail(fmt("when all is gone, %lld bytes in %lld blocks are still allocated after: ",(long long)(liveBytes-b0),(long long)(liveBlocks-n0))+h+c.show()+" "+m.show()); return;}
   trace(); uint64_t h=mix(peak,w); for(int o : seq) h=mix(h,o); if (distinct(h) && wantSample() && sh->evals%97==0) { std::string t; for(int o : seq) t+=std::string(opName[o])+"; "; sample(t+fmt("up to %lld bytes",(long long)peak)+" "+m.show());}
}
// the same history again and again on the same objects
static void again(const Model& m,const Cfg& c,unsigned w,const std::vector<int>& seq,int times,int cuts) {
   World wd(m,c,w,cuts); int64_t b1=0,n1=0; eval();
   for(int r=0;r<times;r++) { for(int o : seq) doOp(wd,o); states(1);
      if (r==0) { b1=liveBytes; n1=liveBlocks;}
      else if (liveBytes>b1 || liveBlocks>n1) { std::string h; for(int o : seq) h+=std::string(opName[o])+"; "; fail(fmt("done %d times instead of once, %lld bytes in %lld blocks more are in use: ",r+1,(long long)(liveBytes-b1),(long long)(liveBlocks-n1))+h+c.show()+" "+m.show()); return;} }
   trace(); uint64_t h=mix(b1,w+99); for(int o : seq) h=mix(h,o); distinct(h);
}
static void warm(const Model& m,const Cfg& c) { static bool done=false; if (done) return; done=true; for(int k=0;k<2;k++) { World w(m,c,1,1); for(int o=0;o<NOP;o++) doOp(w,o);}}
static std::vector<Space> build() {
   std::vector<Space> s; bool t=thorough();
   static const Opt opts[]={ {0,0,0},{0,0,2},{1,0,0},{2,2,0},{0,1,0},{4,3,0},{0,0,1},{3,1,2} };
   auto add=[&](const Family& f,int len,uint64_t step,int times) {
      uint64_t nseq=ipow(NOP,len);
      s.push_back(Space{fmt("every %llu-th of ",(unsigned long long)step)+f.name+fmt(", all histories of %d uses, each %s",len,times?fmt("%d times",times).c_str():"followed by the end"),(f.n+step-1)/step,[=](uint64_t i) { mute(); uint64_t h=(i+1)*0x9e3779b97f4a7c15ull; h^=h>>31;
         f.gen(i*step,[&](Model& m) { applyOpt(m,opts[h%8]); Cfg c=cfgFor(i*3+1,1); warm(m,c); std::vector<int> seq(len);
            for(uint64_t q=0;q<nseq && !failedNow;q++) { uint64_t v=q; for(int k=0;k<len;k++,v/=NOP) seq[k]=v%NOP; unsigned w=1+(q+i)%2; if (times) again(m,c,w,seq,times,1); else gone(m,c,w,seq,1);} }); },1});
   };
   add(knapsacks(3,2,2,4),2,t?1:23,0); add(misps(4,{1,2}),2,t?3:61,0); add(tsps(4,{1,2},false),2,t?51:1001,0); add(allAutomata(2,2,2,{-1,0.5},true),2,t?97:2003,0); add(colorings(4),2,t?1:7,0);
   add(knapsacks(3,2,2,4),3,t?23:173,0); add(completeAutomata(3,2,2,0,1.5,true),3,t?401:8009,0);
   add(knapsacks(3,2,2,4),1,t?1:7,40); add(misps(4,{1,2}),2,t?17:303,12); add(completeAutomata(3,2,2,0,1.5,true),2,t?1001:4001,12);
   // one diagram, its cutset (and its drawing order, values) asked for until what a call keeps fills several segments
   auto cuts=[&](const Family& f,uint64_t step) { s.push_back(Space{fmt("every %llu-th of ",(unsigned long long)step)+f.name+", the cutset of one diagram 300000 times",(f.n+step-1)/step,[=](uint64_t i) { mute(); uint64_t h=(i+1)*0x9e3779b97f4a7c15ull; h^=h>>31;
      f.gen(i*step,[&](Model& m) { applyOpt(m,opts[h%8]); Cfg c=cfgFor(i*3+1,1); warm(m,c); World w(m,c,1+h%2,0); auto y=w.dd->duplicate(); auto pool=y->makeNDAllocator(); Relaxed x(1+h%2); w.dd->setStrategy(&x); ANode::Ptr r=rootOf(pool,y); Bounds b; b.attach(w.dd); w.dd->apply(r,b);
         eval(); bool some=!w.dd->computeCutSet().empty(); int64_t b1=liveBytes,n1=liveBlocks; for(int k=0;k<300000;k++) w.dd->computeCutSet(); states(1); trans(300001);
         if (liveBytes>b1 || liveBlocks>n1) { fail(fmt("after 300000 more times the cutset, %lld bytes in %lld blocks more are in use: ",(long long)(liveBytes-b1),(long long)(liveBlocks-n1))+c.show()+" "+m.show()); return;}
         trace(); if (some) distinct(mix(b1,w.w+i)); }); },1});};
   cuts(knapsacks(3,2,2,4),t?3:17); cuts(misps(4,{1,2}),t?17:97); cuts(completeAutomata(3,2,2,0,1.5,true),t?1001:2003);
   auto draws=[&](const Family& f,uint64_t step,int times) { s.push_back(Space{fmt("every %llu-th of ",(unsigned long long)step)+f.name+fmt(", diagrams drawn %d times",times),(f.n+step-1)/step*3,[=](uint64_t j) { mute(); uint64_t i=j/3; int kind=j%3; uint64_t h=(i+1)*0x9e3779b97f4a7c15ull; h^=h>>31;
      f.gen(i*step,[&](Model& m) { applyOpt(m,opts[h%8]); Cfg c=cfgFor(i*3+1,1); warm(m,c); World w(m,c,1+h%2,0); Bounds b; b.attach(w.dd); w.dd->setStrategy(kind==0 ? (Strategy*)&w.ex : kind==1 ? (Strategy*)&w.x1 : (Strategy*)&w.r2); w.dd->compute(b); eval(); drawing=true;
         int64_t b1=0,n1=0; bool same=true; { std::ostringstream first,os; w.dd->print(first,"x"); w.dd->print(os,"x"); b1=liveBytes; n1=liveBlocks; for(int k=0;k<times;k++) { std::ostringstream x; w.dd->print(x,"x"); same=same && x.str()==first.str(); trans(1);} }
         drawing=false; const char* d=getenv("VF_TMP"); unlink((std::string(d?d:"/tmp")+fmt("/drawing%d",(int)getpid())).c_str()); states(1);
         if (liveBytes>b1 || liveBlocks>n1) { fail(fmt("drawn %d times more, %lld bytes in %lld blocks more are in use: ",times,(long long)(liveBytes-b1),(long long)(liveBlocks-n1))+c.show()+" "+m.show()); return;}
         if (!same) { fail("drawn again, the output is different: "+c.show()+" "+m.show()); return;}
         trace(); distinct(mix(mix(b1,kind),i)); }); },1});};
   draws(knapsacks(3,2,2,4),t?3:17,700); draws(misps(4,{1,2}),t?17:97,700); draws(completeAutomata(3,2,2,0,1.5,true),t?2003:20011,700);
   // diagrams of a thousand nodes: what a use keeps of the pool adds up to a segment soon
   s.push_back(Space{"a thousand nodes, all histories of one use and of two uses",(uint64_t)(NOP+NOP*NOP)*(t?4:1),[t](uint64_t i) { mute(); int k=i/(NOP+NOP*NOP); i%=NOP+NOP*NOP; Walk w; w.inst=k; w.maximize=k%2==0; w.L=4; w.N=300; w.p0=0; w.holes=0; w.costs={0,1,2,3,5,8,13}; static const int nl[]={300,2,2,2},mul[]={1,1,5,1},ad[]={0,0,-2,0}; for(int d=0;d<4;d++) { w.nl.push_back(nl[d]); w.mul.push_back(mul[d]); w.add.push_back(ad[d]);} w.prepare(); if (k%2) applyOpt(w,Opt{1,0,0});
      Cfg c=cfgFor(k,200); c.lk=LK_GNSET; c.off=0; c.str=1; c.hash=0; warm(w,c); std::vector<int> seq; if (i<(uint64_t)NOP) seq={(int)i}; else { i-=NOP; seq={(int)i%NOP,(int)i/NOP};}
      again(w,c,200,seq,seq.size()==1?60:25,seq.size()==1 ? 120 : 2); if (!failedNow) gone(w,c,200,seq,3); },1});
   return s;
}
int main(int argc,char** argv) {
   return drive(argc,argv,build,"every history of the stated length over searches (also stopped, also with common bounds), exact, relaxed and restricted diagrams, cutsets, subproblems, duplicates and node allocators, with every allocation and every state counted; non-trivial: distinct by history and memory needed");
}
