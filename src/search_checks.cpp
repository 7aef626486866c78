// C01, C02, C03, C08, C21: the branch and bound as a user sees it.
#include "judges.hpp"
#include "chosen.hpp"

// ---- spaces -------------------------------------------------------------------------------------
using FamFn = std::function<void(Model&,uint64_t,const Reference&)>;
static Space over(const Family& f,const std::string& tag,FamFn fn,uint64_t chunk=0) {
   return Space{f.name+tag,f.n,[f,fn](uint64_t i) { mute(); f.gen(i,[&](Model& m) { Reference ref=referenceOf(m); fn(m,i,ref);});},chunk};
}
static const Opt allOpts[]={ {0,0,0},{0,0,1},{0,0,2},{1,0,0},{2,0,0},{3,0,0},{4,0,2},{0,1,0},{0,2,0},{0,3,2},{1,1,0},{2,2,0},{3,1,2},{4,3,0},{4,2,1},{2,3,0},{0,0,0,1},{0,0,2,2},{2,2,0,1} };
static const Opt pruneOpts[]={ {1,0,0},{2,0,0},{3,0,0},{4,0,2},{0,1,0},{0,2,0},{0,3,2},{1,1,0},{2,2,0},{3,1,2},{4,3,0},{4,2,1},{2,3,0},{0,0,0,1},{0,0,2,2},{2,2,0,1} };

// every option x every width
static FamFn cross(What what,const Opt* o,int no,std::vector<unsigned> ws,bool warm) {
   return [=](Model& m,uint64_t i,const Reference& ref) {
      for(int k=0;k<no;k++) { applyOpt(m,o[k]);
         for(unsigned w : ws) {
            checkOne(m,i,w,cfgFor(i*31+k*7+w,w),ref,what);
            if (warm && ref.feasible)
               for(double d : {-1.0,-0.25,0.0,0.25,1.0}) checkOne(m,i,w,cfgFor(i*31+k*7+w+5,w),ref,what,ref.opt+d);
         }
      }
   };
}
// options rotate with the case number, widths all
static FamFn rotate(What what,const Opt* o,int no,std::vector<unsigned> ws,bool warm) {
   return [=](Model& m,uint64_t i,const Reference& ref) {
      uint64_t h=(i+1)*0x9e3779b97f4a7c15ull; h^=h>>31;
      applyOpt(m,o[h%no]);
      for(unsigned w : ws) checkOne(m,i,w,cfgFor(i*13+w,w),ref,what);
      if (warm && ref.feasible) checkOne(m,i,ws[h/64%ws.size()],cfgFor(i*13+7,ws[h/64%ws.size()]),ref,what,ref.opt + (int)(h/1024%3)-1);
   };
}
static std::vector<Family> smallFamilies() {
   std::vector<Family> f;
   for(bool mx : {true,false}) {
      f.push_back(allAutomata(2,2,2,{-1,0.5},mx));
      f.push_back(allAutomata(2,2,2,{16777216.5,16777217},mx)); // need more than the 24 bits of a float
      f.push_back(allAutomata(2,2,1,{-1,0,2},mx,true));
   }
   f.push_back(knapsacks(3,2,2,4));
   f.push_back(misps(4,{1,2}));
   f.push_back(tsps(4,{1,2},false));
   f.push_back(colorings(4));
   return f;
}
static std::vector<Family> mediumFamilies() {
   std::vector<Family> f;
   for(bool mx : {true,false}) {
      f.push_back(allAutomata(2,2,2,{-1,0,2},mx));
      f.push_back(allAutomata(3,2,1,{1,2.5},mx,true));
      f.push_back(completeAutomata(3,2,2,0,1.5,mx));
   }
   f.push_back(knapsacks(4,2,2,5));
   f.push_back(misps(5,{1,2}));
   f.push_back(misps(4,{-1,0.5,3}));
   f.push_back(tsps(5,{1,2},true));
   f.push_back(tsps(4,{1,2,-1},true));
   f.push_back(colorings(5));
   return f;
}
static std::vector<Family> largeFamilies() {
   std::vector<Family> f;
   f.push_back(allAutomata(3,2,2,{0,1},true));
   f.push_back(completeAutomata(4,2,2,0,1,false));
   f.push_back(sparseCostAutomata(3,3,0,1,2,true));
   f.push_back(sparseCostAutomata(3,3,2,1,0,false));
   f.push_back(tsps(4,{1,2,3},false));
   f.push_back(misps(6,{1,2}));
   f.push_back(colorings(6));
   f.push_back(knapsacks(5,3,2,8));
   return f;
}
// every sequence of answers the model may give about merging, dominance, bounds, over a whole search
static Space chosenSearch(const Family& f,What what,std::vector<unsigned> ws,int free) {
   return over(f,fmt(", first %d answers",free),[=](Model& m,uint64_t i,const Reference& ref) { auto& ch=static_cast<Chosen&>(m);
      for(unsigned w : ws) { Script sc(free); Cfg c=cfgFor(i*13+w,w);
         do { ch.fresh(sc); checkOne(m,i,w,c,ref,what); if (failedNow) return;} while(sc.next());}
   });
}
static std::vector<Space> build() {
   std::vector<Space> s;
   const int na=sizeof allOpts/sizeof(Opt),np=sizeof pruneOpts/sizeof(Opt);
   if (prop=="C01" || prop=="C02") {
      What w = prop=="C01" ? OPT : INC;
      if (w==INC) for(bool mx : {true,false}) { // states reached by sequences of different lengths
         s.push_back(over(dags(4,1,{0,2},{0,1},mx)," x every option",cross(w,allOpts,na,{1,2},false))); s.push_back(over(dags(4,2,{0,1},{0},mx)," x rotating options",rotate(w,allOpts,na,{1,2},true)));
         if (thorough()) s.push_back(over(dags(5,2,{1},{0,2},mx)," x rotating options",rotate(w,allOpts,na,{1,2,3},true)));}
      for(auto& f : smallFamilies()) s.push_back(over(f," x every option",cross(w,allOpts,na,{1,2,3},false)));
      for(auto& f : mediumFamilies()) s.push_back(over(f," x rotating options",rotate(w,allOpts,na,{1,2,3,8},true)));
      if (thorough()) for(auto& f : largeFamilies()) s.push_back(over(f," x rotating options",rotate(w,allOpts,na,{1,2,3},false)));
      for(bool mx : {true,false}) { s.push_back(chosenSearch(chosen(2,4,thorough()?4:1,mx,true,false,false),w,{1,2},thorough()?10:7)); s.push_back(chosenSearch(chosen(3,3,thorough()?4:2,mx,true,false,false),w,{1,2},thorough()?9:6));}
   } else if (prop=="C08") {
      for(bool mx : {true,false}) for(int k=1;k<4;k++) { bool d=k&1,l=k&2; s.push_back(chosenSearch(chosen(2,4,thorough()?4:1,mx,false,d,l),BOTH,{1,2,3},thorough()?12:8)); s.push_back(chosenSearch(chosen(3,3,thorough()?4:2,mx,true,d,l),BOTH,{1,2},thorough()?10:7));}
      for(auto& f : smallFamilies()) s.push_back(over(f," x every pruning option",cross(BOTH,pruneOpts,np,{1,2},true)));
      for(auto& f : mediumFamilies()) s.push_back(over(f," x rotating pruning options",rotate(BOTH,pruneOpts,np,{1,2,3},true)));
      if (thorough()) for(auto& f : largeFamilies()) s.push_back(over(f," x rotating pruning options",rotate(BOTH,pruneOpts,np,{1,2},true)));
   } else if (prop=="C03") {
      auto fn=[](std::vector<unsigned> ws,bool all) { return [=](Model& m,uint64_t i,const Reference& ref) {
         uint64_t h=(i+1)*0x9e3779b97f4a7c15ull; h^=h>>31;
         for(unsigned w : ws) { applyOpt(m,allOpts[h++%na]); checkInterrupt(m,cfgFor(i*13+w,w),ref);}
      };};
      for(auto& f : smallFamilies()) s.push_back(over(f,", stopped everywhere",fn({1,2},true)));
      for(auto& f : mediumFamilies()) if (thorough() || f.n<40000) s.push_back(over(f,", stopped everywhere",fn({1,2},true)));
      if (thorough()) for(auto& f : largeFamilies()) s.push_back(over(f,", stopped everywhere",fn({2},true)));
   } else if (prop=="C21") {
      auto fn=[](std::vector<unsigned> ws,bool all) { return [=](Model& m,uint64_t i,const Reference& ref) {
         uint64_t h=(i+1)*0x9e3779b97f4a7c15ull; h^=h>>31;
         for(unsigned w : ws) { applyOpt(m,allOpts[h++%na]);
            checkProgress(m,cfgFor(i*13+w,w),ref,std::nullopt,1); const int reads=(int)vclk::at(); // a line at every step
            if (all) for(int k=1;k<=reads;k++) checkProgress(m,cfgFor(i*13+w,w),ref,std::nullopt,2+k); else checkProgress(m,cfgFor(i*13+w,w),ref,std::nullopt,2+1+(int)(h%(reads+1)));
            if (ref.feasible && (h&3)==0) checkProgress(m,cfgFor(i*13+w,w),ref,ref.opt+(m.maximize?-1:1),(int)(h&4)/4);
            if (ref.feasible && (h&3)==1) checkProgress(m,cfgFor(i*13+w,w),ref,std::nullopt,1,1+(int)(h>>3)%3);}
      };};
      for(auto& f : smallFamilies()) s.push_back(over(f,", progress lines, the clock jumping anywhere",fn({1,2},true)));
      for(auto& f : mediumFamilies()) s.push_back(over(f,", progress lines",fn({1,2},false)));
      if (thorough()) for(auto& f : largeFamilies()) s.push_back(over(f,", progress lines",fn({1,2},false)));
   }
   return s;
}
int main(int argc,char** argv) {
   return drive(argc,argv,build,"every model of the listed finite families x optional bounds/dominance/merging x widths x rotating table, hash, queue and label-container configurations; non-trivial: the problem has at least two solutions and the search reported an incumbent (distinct by solution values, width and reported incumbents)");
}
