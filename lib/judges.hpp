// What a search must satisfy (C01, C02, C03, C08, C21), given the optimum of the model.
#pragma once
#include "bb.hpp"
#include <sstream>
using namespace vf;
// ---- judgements -------------------------------------------------------------------------------
static bool judgeOptimal(const Model& m,const Reference& ref,const Cfg& c,const Run& r,std::optional<double> warm) {
   double start = warm ? *warm : m.none();
   bool canImprove = ref.feasible && m.better(ref.opt,start);
   double want = canImprove ? ref.opt : start;
   if (r.primal != want || r.inc.empty() == canImprove) {
      fail(fmt("search result %g, true optimum %s%g, warm start %s; ",r.primal,ref.feasible?"":"(infeasible) ",ref.opt,warm?std::to_string(*warm).c_str():"none")
           + c.show() + " " + m.show() + " " + showR(r));
      return false;
   }
   return true;
}
static bool judgeIncumbents(const Model& m,const Reference& ref,const Cfg& c,const Run& r,std::optional<double> warm) {
   double last = warm ? *warm : m.none();
   for(auto& v : r.inc) {
      auto val = replayLabels(m,v);
      const char* why=nullptr;
      if (!val) why="incumbent is not a solution of the problem";
      else if (!m.better(*val,last)) why="incumbent does not improve on the previous value";
      if (why) { fail(fmt("%s: %s (value %g, before %g); ",why,showL(v).c_str(),val?*val:0.0,last)+c.show()+" "+m.show()+" "+showR(r)); return false;}
      last=*val;
   }
   if (!r.other.empty()) { fail(r.other+"; "+c.show()+" "+m.show()+" "+showR(r)); return false;}
   if (r.primal != last) { fail(fmt("final value %g, last incumbent is worth %g; ",r.primal,last)+c.show()+" "+m.show()+" "+showR(r)); return false;}
   return true;
}
static uint64_t sig(const Run& r) {
   uint64_t h=mixd(1,r.primal); for(auto& v : r.inc) { h=mix(h,77); for(int x : v) h=mix(h,x);} return h;
}
static void note(const Model& m,const Reference& ref,const Cfg& c,const Run& r) {
   eval(); states(ref.cnt); trans(r.inc.size());
   if (ref.cnt>1 && !r.inc.empty()) {
      uint64_t h=mix(sig(r),c.w); h=mix(mix(h,ref.cnt),ref.sg);
      if (distinct(h) && wantSample() && (sh->evals % 997)==0) sample(m.show()+" | "+c.show()+" | "+showR(r));
   }
}
enum What { OPT, INC, BOTH };
static void checkOne(Model& m,uint64_t i,unsigned w,const Cfg& c,const Reference& ref,What what,std::optional<double> warm=std::nullopt) {
   const bool ask=what==BOTH && m.hasLocal(); gAsked[0]=gAsked[1]=0;
   Run r = solve(m,c,warm,false,0,nullptr,ask);
   // a second node: it came out of the diagram of the first, and has a bound of its own
   if (ask && r.calls>1 && (gAsked[0]<1 || gAsked[1]<2)) { fail(fmt("a search of %d nodes asked for the local bound of %d states of diagrams and %d nodes of the search; ",r.calls,gAsked[0],gAsked[1])+c.show()+" "+m.show()); return;}
   note(m,ref,c,r); trace();
   if (what!=INC) judgeOptimal(m,ref,c,r,warm);
   if (what!=OPT) judgeIncumbents(m,ref,c,r,warm);
}
// ---- C03: interruption at every decision point -------------------------------------------------
static std::string limOf(const std::string& out) { auto p=out.rfind("LIM?:"); return p==std::string::npos ? "?" : out.substr(p+5,1);}
static void checkInterrupt(Model& m,const Cfg& c,const Reference& ref) {
   std::vector<std::vector<int>> inc;
   auto cb=[&](const std::vector<int>& v) { NoArena na; inc.push_back(v);};
   Run full; gClock=2;
   { Scope sc; Bounds b(cb); full=runBB(m,c,b,inc,0,true,true);}
   auto bad=[&](const std::string& w,int k,const Run& r) { fail(fmt("stop at call %d of %d: ",k,full.calls)+w+"; "+c.show()+" "+m.show()+" | uninterrupted "+showR(full)+" | "+showR(r));};
   eval(); 
   if (limOf(full.out)!="0") bad("search that ran to the end reports LIM?:"+limOf(full.out),0,full);
   if (!full.timeOk) bad("the limit was not told the time elapsed since the search began",0,full);
   if (full.primal != (ref.feasible ? ref.opt : m.none())) bad("search with a limit that never fires is not optimal",0,full);
   if (full.calls==0) bad("the limit was never consulted",0,full);
   for(int k=1;k<=full.calls;k++) {
      Scope sc;
      Bounds b(cb);
      AbstractDD::Ptr dd; useCfg(c); M=&m; if ((k+c.w)%2) dd=makeModelDD(m,c.lk); // the same diagram for both searches, or another
      Run r=runBB(m,c,b,inc,k,true,true,dd);
      eval(); states(1); trans(1);
      if (r.after || r.calls!=k) { bad(fmt("the search went on after the limit fired (%d calls, %d late)",r.calls,r.after),k,r); return;}
      if (!r.timeOk) { bad("the limit was not told the time elapsed since the search began",k,r); return;}
      if (limOf(r.out)!="1") { bad("stopped by the limit but reports LIM?:"+limOf(r.out),k,r); return;}
      if (r.inc.size()>full.inc.size() || !std::equal(r.inc.begin(),r.inc.end(),full.inc.begin())) { bad("incumbents are not those of the uninterrupted search",k,r); return;}
      double v=m.none(); for(auto& x : r.inc) { auto q=replayLabels(m,x); if (!q) { bad("infeasible incumbent",k,r); return;} v=*q;}
      if (r.primal!=v) { bad(fmt("value %g does not belong to the last incumbent (%g)",r.primal,v),k,r); return;}
      bool improvedSoFar=!r.inc.empty();
      // go on from there with the same bounds
      Run r2=runBB(m,c,b,inc,0,false,true,dd); eval();
      if (limOf(r2.out)!="0") { bad("resumed search reports LIM?:"+limOf(r2.out),k,r2); return;}
      if (r2.primal != full.primal) { bad(fmt("resumed search ends with %g",r2.primal),k,r2); return;}
      for(auto& x : r2.inc) { auto q=replayLabels(m,x); if (!q || !m.better(*q,v)) { bad("resumed search reports a bad incumbent",k,r2); return;} v=*q;}
      if (v!=r2.primal) { bad("resumed value without a matching incumbent",k,r2); return;}
      trace();
      if (full.calls>1) { uint64_t h=mix(mix(sig(full),k),c.w); h=mix(h,sig(r)); h=mix(h,ref.sg); distinct(mix(h,improvedSoFar));
         if (wantSample() && (sh->evals%499)==0) sample(fmt("stop at call %d/%d: ",k,full.calls)+m.show()+" | "+c.show()+" | "+showR(r));}
   }
}
// ---- C21: progress lines ------------------------------------------------------------------------
static void checkProgress(Model& m,const Cfg& c,const Reference& ref,std::optional<double> warm,int clock=0,int prior=0) {
   double from=0; gClock=clock; Run r=solve(m,c,warm,true,prior,&from); eval(); if (prior) warm=from;
   // walk through the output: "P TIGHTEN"/"D TIGHTEN" carry the incumbents, "B&B(" lines the dual/primal
   std::istringstream is(r.out); std::string line;
   auto bad=[&](const std::string& w) { fail(w+": '"+line+"'; "+c.show()+" "+m.show()+" "+showR(r));};
   double cur=warm ? *warm : m.none(); std::size_t k=0; bool done=false; double lastDual=0; bool haveDual=false; std::size_t ln=0,times=0;
   auto timeAt=[&](double sec,std::size_t at) { return clock==0 || vclk::plausible(sec*1000,at,1.01+std::abs(sec)*1e-2);};
   while(std::getline(is,line)) {
      trans(1); const std::size_t at=ln<r.lineAt.size() ? r.lineAt[ln] : 0; ln++;
      if (line.rfind("P TIGHTEN",0)==0 || line.rfind("D TIGHTEN",0)==0) {
         auto p=line.find("<P:"); if (p==std::string::npos) { bad("unreadable incumbent line"); return;}
         if (k>=r.inc.size()) { bad("more incumbents printed than reported"); return;}
         auto v=replayLabels(m,r.inc[k++]); if (!v) { bad("infeasible incumbent"); return;}
         if (std::abs(std::stod(line.substr(p+3)) - *v) > 1e-4 + std::abs(*v)*1e-5) { bad(fmt("printed value differs from the incumbent's (%g)",*v)); return;}
         cur=*v;
         if (times!=k) { bad(fmt("%zu times printed for %zu incumbents",times,k)); return;}
      } else if (line.rfind("TIME:",0)==0) {
         if (times>=r.incAt.size()) { bad("more times printed than incumbents reported"); return;}
         double t=std::stod(line.substr(5)); if (clock && !vclk::plausible(t,r.incAt[times],1.01+std::abs(t)*1e-3)) { bad("the time shown for an incumbent is not the time it was reported"); return;}
         times++;
      } else if (line.rfind("B&B(",0)==0) {
         auto p=line.find(')'); std::istringstream ls(line.substr(p+1)); std::string d,pr; ls>>d>>pr;
         if (std::abs(std::stod(pr)-cur)>1e-6) { bad(fmt("printed primal is not the current value %g",cur)); return;}
         states(1);
         if (clock) { auto q=line.find("time:"); if (q==std::string::npos || !timeAt(std::stod(line.substr(q+5)),at)) { bad("the time shown is not the one elapsed since the search began"); return;} distinct(mix(mix(at,clock),mixd(3,cur)));}
         if (d!="-") {
            double dv=std::stod(d);
            // no solution better than both the primal and the dual may exist
            if (ref.feasible && m.better(ref.opt,cur) && m.better(ref.opt-(m.maximize?1e-6:-1e-6),dv)) { bad(fmt("the dual bound excludes the optimum %g",ref.opt)); return;}
            distinct(mix(mixd(mixd(mixd(5,dv),cur),ref.opt),ref.cnt));
            haveDual=true; lastDual=dv;
            // the gap column
            std::string g; ls>>g;
            const double want=100*std::abs(cur-dv)/cur; if (g!="-") { if (std::abs(std::stod(g)-want)>1e-2+2e-4/std::abs(cur)) { bad(fmt("printed gap should be %.4f",want)); return;}}
            else if (want<99.9 && want>=0) { bad(fmt("the gap of %.4f is not shown",want)); return;}
         }
         trace();
      } else if (line.rfind("Done(",0)==0) {
         done=true;
         auto p=line.find("):"); double f=std::stod(line.substr(p+2));
         if (std::abs(f-r.primal)>std::abs(r.primal)*1e-5+1e-4) { bad("final line does not carry the final value"); return;}
         if (clock) { auto q=line.find("Time:"); auto sl=q==std::string::npos ? q : line.find('/',q); if (sl==std::string::npos) { bad("no times on the final line"); return;}
            double a=std::stod(line.substr(q+5)),b=std::stod(line.substr(sl+1)); if (!timeAt(b,at)) { bad("the total time is not the one elapsed since the search began"); return;}
            if (r.inc.empty() ? a!=0 : !timeAt(a,r.incAt.back())) { bad("the time shown for the last incumbent is not the time it was reported"); return;}}
         if ((unsigned)std::stoi(line.substr(5))!=c.w) { bad("final line does not carry the width"); return;}
      }
   }
   if (!done) { line=""; bad("no final line"); return;}
   if (k!=r.inc.size()) { line=""; bad(fmt("%zu incumbents printed, %zu reported",k,r.inc.size())); return;}
   if (wantSample() && haveDual && (sh->evals%211)==0) sample(m.show()+" | "+c.show()+fmt(" | last dual line %g, primal %g",lastDual,r.primal));
}

