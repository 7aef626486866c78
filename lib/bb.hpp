// Runs the branch and bound on a model and records everything a user can observe.
#pragma once
#include "families.hpp"
#include "vclock.hpp"

struct CapBuf : std::streambuf {         // what the library prints
   std::string s; std::vector<std::size_t> at; // at: readings of the clock before each line began
   void begin() { if (s.empty() || s.back()=='\n') at.push_back(vclk::at());}
   int overflow(int c) override { vf::NoArena na; if (c!=EOF) { begin(); s.push_back((char)c);} return c;}
   std::streamsize xsputn(const char* p,std::streamsize n) override { vf::NoArena na;
      for(std::streamsize k=0;k<n;) { auto e=(const char*)memchr(p+k,'\n',n-k); std::streamsize l=e ? e-(p+k)+1 : n-k; begin(); s.append(p+k,l); k+=l;} return n;}
};
struct Capture {
   CapBuf b; std::streambuf* old; std::ios::iostate st;
   Capture() { st=std::cout.rdstate(); std::cout.clear(); old=std::cout.rdbuf(&b);}
   ~Capture() { std::cout.rdbuf(old); std::cout.clear(st);}
};
inline void mute() { std::cout.setstate(std::ios::failbit);}

struct Run {
   double primal=0;
   std::vector<std::vector<int>> inc;
   int calls=0,after=0;                   // limit callback: calls, calls after it said stop
   bool timeOk=true;
   std::string out; std::vector<std::size_t> lineAt,incAt; // readings of the clock before each line, each incumbent
   std::string other;                     // what went wrong with the other solution callback
};
// how the clock goes during a search: 0 the real one, 1 six seconds per reading, 2 a millisecond per reading, 2+k the same with a jump of six seconds at reading k
inline int gClock=0;
inline void startClock(int mode) { if (mode==1) vclk::start(6000); else if (mode>=2) vclk::start(1,mode-2,6000);}
// stopAt: the limit callback says stop from its stopAt-th call on (0: never).
inline Run runBB(const Model& m,const Cfg& c,Bounds& bnds,std::vector<std::vector<int>>& inc,int stopAt=0,bool lim=false,bool cap=false,
                 AbstractDD::Ptr dd=nullptr) {
   useCfg(c); M=&m;
   Run r; double lastT=0;
   inc.clear();
   if (!dd) dd=makeModelDD(m,c.lk);
   BAndB eng(dd,c.w);
   if (lim) eng.setTimeLimit([&](double t) {
      if (t < lastT || t < 0 || (vclk::on ? !vclk::plausible(t,vclk::at()) : t > 1e7)) r.timeOk=false; lastT=t;
      if (stopAt && r.calls>=stopAt) r.after++;
      r.calls++;
      return stopAt && r.calls>=stopAt;
   });
   startClock(gClock); gLive=m.live() ? &bnds : nullptr;
   if (cap) { Capture k; eng.search(bnds); vf::NoArena na; r.out=std::move(k.b.s); r.lineAt=std::move(k.b.at);}
   else eng.search(bnds);
   vclk::stop(); gLive=nullptr;
   r.primal=bnds.getPrimal();
   { vf::NoArena na; r.inc.clear(); for(auto& v : inc) r.inc.push_back(decL(v));}
   return r;
}
// prior: the bounds have been through that many calls of the limit in an earlier search already
inline Run solve(const Model& m,const Cfg& c,std::optional<double> warm=std::nullopt,bool cap=false,int prior=0,double* from=nullptr,bool lim=false) {
   vf::Scope sc;
   std::vector<std::vector<int>> inc,inc2; std::vector<std::size_t> at;
   auto cb=[&](const std::vector<int>& v) { vf::NoArena na; inc.push_back(v); at.push_back(vclk::at());};
   auto cb2=[&](const std::vector<int>& v) { vf::NoArena na; inc2.push_back(v);};
   // every way to make the bounds: with a callback, empty, for a diagram; callbacks are all told
   const int way=(c.q+(int)c.lk+(int)c.w)%4; AbstractDD::Ptr dd; std::optional<Bounds> ob; useCfg(c); M=&m;
   if (way==0) { ob.emplace(cb); ob->onSolution(cb2);} else if (way==1) { ob.emplace(); ob->onSolution(cb2); ob->onSolution(cb);}
   else if (way==2) { dd=makeModelDD(m,c.lk); ob.emplace(dd); ob->onSolution(cb);} else ob.emplace(SolutionCB(cb));
   Bounds& b=*ob;
   if (warm) b.setPrimal(*warm);
   if (prior) { const int g=gClock; gClock=1; runBB(m,c,b,inc,prior,true,true); gClock=g; vf::NoArena na; inc.clear(); inc2.clear(); at.clear(); if (from) *from=b.getPrimal();}
   Run r=runBB(m,c,b,inc,0,lim,cap,dd); { vf::NoArena na; r.incAt=at; if (way<2 && inc!=inc2) r.other="two solution callbacks were told different things"; if (!b.hasPrimal()) r.other="there is no primal value after a search";}
   return r;
}
inline std::string showL(const std::vector<int>& v) { std::string s="["; for(int x : v) s+=std::to_string(x)+" "; return s+"]";}
inline std::string showR(const Run& r) { std::string s=vf::fmt("primal=%g incumbents:",r.primal); for(auto& v : r.inc) s+=" "+showL(v); return s;}
