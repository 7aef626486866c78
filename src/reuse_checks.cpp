// C19: every short history of uses of the same model objects; each use must give what it gives on its own.
#include "bb.hpp"
#include <map>
using namespace vf;
typedef std::vector<int> Lab;
static Lab labelsOf(ANode* n) { Lab l; for(auto i=n->beginOptLabels();i!=n->endOptLabels();i++) l.push_back(*i); return l;}
static uint64_t hs(const S& s) { return mix(mix(mix(3,s.d),s.x),s.y);}
// what a diagram shows, independent of node identifiers and orders
static std::string picture(const Model& m,AbstractDD::Ptr dd,bool cut) {
   std::string o=fmt("value %g exact %d incumbent ",dd->currentOpt(),(int)dd->isExact());
   if (dd->currentOpt()!=m.none()) o+=showL(dd->incumbent());
   std::map<ANode*,int> idx; std::vector<ANode*> q{dd->getRoot().get()}; idx[q[0]]=0; std::multiset<uint64_t> nodes; unsigned arcs=0;
   for(std::size_t i=0;i<q.size() && i<5000;i++) { ANode* n=q[i]; uint64_t h=mixd(mix(hs(stateOf(n)),n->isExact()),n->getBound());
      for(auto k=n->beginKids();k!=n->endKids();k++,arcs++) { Edge::Ptr e=*k; h += mixd(mix(hs(stateOf(e->_to)),e->_lbl),e->_obj)*31; if (idx.emplace(e->_to.get(),1).second) q.push_back(e->_to.get());}
      for(int l : labelsOf(n)) h=mix(h,l); nodes.insert(h);}
   uint64_t all=1; for(auto h : nodes) all=mix(all,h);
   o+=fmt(" nodes %zu arcs %u content %016llx",q.size(),arcs,(unsigned long long)all);
   if (cut) { std::multiset<uint64_t> c; for(auto n : dd->computeCutSet()) c.insert(mixd(mixd(hs(stateOf(n)),n->getBound()),n->getBackwardBound())); uint64_t h=1; for(auto x : c) h=mix(h,x); o+=fmt(" cutset %zu/%016llx",c.size(),(unsigned long long)h);}
   return o;
}
struct World {
   const Model& m; Cfg c; AbstractDD::Ptr dd; std::vector<Lab> inc; std::unique_ptr<Bounds> shared; double cur;
   Exact ex; Restricted r1,r2; Relaxed x1,x2;
   std::unique_ptr<BAndB> eng[3]; // one engine per width serves all the searches on a diagram
   void engines() { for(int k=1;k<3;k++) eng[k]=std::make_unique<BAndB>(dd,k);}
   World(const Model& m,const Cfg& c) : m(m),c(c),r1(1),r2(2),x1(1),x2(2) { useCfg(c); M=&m; dd=makeModelDD(m,c.lk); shared=std::make_unique<Bounds>([this](const Lab& v) { inc.push_back(v);}); cur=m.none(); engines();}
};
static const char* opName[]={"search w1","search w2 on the common bounds","exact diagram","relaxed diagram w1","restricted diagram w2","exact diagram of a subproblem","continue with a duplicate","search w1 stopped at once, common bounds","relaxed diagram w2 of a subproblem"};
static constexpr int NOP=9;
static std::string incs(const std::vector<Lab>& v) { std::string s; for(auto& l : v) s+=showL(l); return s;}
// one operation; the result as text, compared with the same operation on a fresh object
static std::string doOp(World& w,int o) {
   const Model& m=w.m; useCfg(w.c); M=&m; trans(1);
   auto diagram=[&](Strategy* st,bool cut,bool sub) {
      AbstractDD::Ptr y=w.dd->duplicate(); auto pool=y->makeNDAllocator(); std::vector<Lab> inc; Bounds b([&](const Lab& v) { inc.push_back(v);}); b.attach(w.dd);
      ANode::Ptr root;
      if (!sub) root=pool->cloneNode(y->init());
      else { Relaxed rx(1); y->setStrategy(&rx); ANode::Ptr r0=pool->cloneNode(y->init()); AbstractDD::Ptr z=w.dd->duplicate(); z->setStrategy(&rx); Bounds b0; b0.attach(z); z->apply(r0,b0); auto cs=z->computeCutSet(); ANode::Ptr pick=nullptr; for(auto n : cs) if (n!=z->getRoot() && (!pick || stateOf(n)<stateOf(pick))) pick=n;
             if (!pick) root=r0; else { root=pool->cloneNode(pick); if (!root) return std::string("refused");} }
      w.dd->setStrategy(st); bool imp=w.dd->apply(root,b);
      return fmt("%s improved %d bound %g ",st->getName().c_str(),(int)imp,b.getPrimal())+incs(inc)+" "+picture(m,w.dd,cut);
   };
   auto search=[&](unsigned width,Bounds& b,std::vector<Lab>& inc,bool stop) {
      BAndB& e=*w.eng[width]; if (stop) e.setTimeLimit([](double) { return true;}); else e.setTimeLimit(nullptr);
      e.search(b); (void)inc; return fmt("primal %g",b.getPrimal());
   };
   switch(o) {
      case 0: { std::vector<Lab> inc; Bounds b([&](const Lab& v) { inc.push_back(v);}); std::string r=search(1,b,inc,false); return r+" "+incs(inc);}
      case 1: case 7: {
         std::size_t n=w.inc.size(); std::string r=search(o==1?2:1,*w.shared,w.inc,o==7);
         double last=w.cur; for(std::size_t k=n;k<w.inc.size();k++) { auto v=replayLabels(m,decL(w.inc[k])); if (!v || !m.better(*v,last)) return "bad incumbent "+showL(w.inc[k]); last=*v;}
         if (last!=w.shared->getPrimal()) return fmt("bounds hold %g, the incumbents lead to %g",w.shared->getPrimal(),last);
         if (o==7 && w.inc.size()!=n) return "a search that was stopped before it began found something";
         w.cur=last; return o==1 ? r : std::string("stopped");}
      case 2: return diagram(&w.ex,false,false);
      case 3: return diagram(&w.x1,true,false);
      case 4: return diagram(&w.r2,false,false);
      case 5: return diagram(&w.ex,false,true);
      case 6: { auto d=w.dd->duplicate(); w.dd=d; w.engines(); return "duplicated";}
      case 8: return diagram(&w.x2,true,true);
   }
   return "?";
}
static void history(const Model& a,const Model& b,const Cfg& ca,const Cfg& cb,const std::vector<int>& seq,const std::vector<std::string>& alone,const Reference& ra,const Reference& rb) {
   Scope sc; World wa(a,ca),wb(b,cb); eval(); std::string hist; bool any=false;
   for(int o : seq) {
      World& w = o<NOP ? wa : wb; const Reference& r = o<NOP ? ra : rb; int k=o%NOP;
      hist+=std::string(o<NOP?"A: ":"B: ")+opName[k]+"; ";
      std::string got=doOp(w,k); states(1);
      if (got!=alone[o]) { fail("after "+hist+"the result is ["+got+"], alone it is ["+alone[o]+"]; "+(o<NOP?ca:cb).show()+" "+w.m.show()); return;}
      if (k<=1 && got.rfind(fmt("primal %g",r.feasible ? r.opt : w.m.none()),0)!=0) { fail("after "+hist+"the search is not optimal: "+got+" "+w.m.show()); return;}
      any|=r.feasible;
   }
   trace();
   if (any) { uint64_t h=17; for(int o : seq) { h=mix(h,o); for(char ch : alone[o]) h=mix(h,ch);} if (distinct(h) && wantSample() && sh->evals%3001==0) sample(hist+" A="+a.show()+" B="+b.show());}
}
// One diagram object compiles one subproblem after another, as the search does with its diagrams: every sequence of
// (subproblem, strategy) of the given length; each diagram must be the one a fresh object compiles.
// shared: the widths are those of one strategy of each kind, set before each use, and two diagrams take turns with them.
static void recompile(Model& m,const Cfg& c,int len,int maxSubs,bool shared) {
   NoArena na0; arenaOn=na0.was;
   useCfg(c); M=&m;
   auto src=makeModelDD(m,c.lk); Exact se; src->setStrategy(&se); { Bounds b; b.attach(src); src->compute(b);}
   std::vector<ANode::Ptr> nodes; { std::set<ANode*> seen; std::vector<ANode::Ptr> q{src->getRoot()}; seen.insert(q[0].get());
      for(std::size_t i=0;i<q.size() && i<200;i++) { if (!m.sink(stateOf(q[i]))) nodes.push_back(q[i]); for(auto k=q[i]->beginKids();k!=q[i]->endKids();k++) { Edge::Ptr e=*k; if (seen.insert(e->_to.get()).second) q.push_back(e->_to);} } }
   auto pool=src->makeNDAllocator(); std::vector<ANode::Ptr> roots; 
   // spread over the depths: the root, then nodes from the back and the front
   for(std::size_t k=0;k<nodes.size() && (int)roots.size()<maxSubs;k++) { std::size_t at= k==0 ? 0 : k%2 ? k/2+1 : nodes.size()-k/2; if (at>=nodes.size()) break; auto n=pool->cloneNode(nodes[at]); if (n) roots.push_back(n);}
   const int NS=5; static const char* sn[]={"exact","restricted w1","restricted w2","relaxed w1","relaxed w2"};
   struct Set { Exact e; Restricted r1,r2; Relaxed x1,x2; Set() : r1(1),r2(2),x1(1),x2(2) {} Strategy* at(int k,bool shared) { if (shared && k>0) { auto w=k%2 ? 1 : 2; auto& y= k<3 ? (WidthBounded&)r1 : (WidthBounded&)x1; y.setWidth(w); return &y;} Strategy* a[]={&e,&r1,&r2,&x1,&x2}; return a[k];} };
   auto one=[&](AbstractDD::Ptr dd,Set& st,int op) { int k=op%NS; std::vector<Lab> inc; Bounds b([&](const Lab& v) { inc.push_back(v);}); b.attach(dd); dd->setStrategy(st.at(k,shared)); bool imp=dd->apply(roots[op/NS],b); trans(1);
      return fmt("improved %d bound %g ",(int)imp,b.getPrimal())+incs(inc)+" "+picture(m,dd,k>=3);};
   int nop=roots.size()*NS; std::vector<std::string> alone;
   for(int o=0;o<nop;o++) { arenaOn=na0.was; std::string r; { Scope sc; auto dd=makeModelDD(m,c.lk); Set st; std::string q=one(dd,st,o); arenaOn=false; r=q; } alone.push_back(r);}
   arenaOn=na0.was;
   uint64_t n=ipow(nop,len); std::vector<int> seq(len);
   for(uint64_t q=0;q<n;q++) { uint64_t v=q; for(int k=0;k<len;k++,v/=nop) seq[k]=v%nop;
      Scope sc; eval(); auto dd=makeModelDD(m,c.lk),d2= shared ? dd->duplicate() : dd; Set st;
      for(int k=0;k<len;k++) { states(1); std::string got=one(k%2 ? d2 : dd,st,seq[k]);
         if (got!=alone[seq[k]]) { std::string h; for(int j=0;j<=k;j++) { std::ostringstream os; os << stateOf(roots[seq[j]/NS]); h+=std::string(sn[seq[j]%NS])+" of "+os.str()+"; ";}
            fail((shared ? "two diagrams and one strategy of a kind used in turn for " : "one diagram compiled for ")+h+"gives ["+got+"], alone it is ["+alone[seq[k]]+"]; "+c.show()+" "+m.show()); return;} }
      trace(); uint64_t h=23; for(int o : seq) { h=mix(h,o); for(char ch : alone[o]) h=mix(h,ch);} distinct(h);
   }
}
static std::vector<Space> build() {
   std::vector<Space> s; bool t=thorough();
#ifdef VF_NOARENA
   const bool san=true;
#else
   const bool san=false;
#endif
   static const Opt opts[]={ {0,0,0},{0,0,2},{1,0,0},{2,2,0},{0,1,0},{4,3,0},{0,0,1},{3,1,2} };
   // pairs of models: the listed members of the families
   auto add=[&](const Family& f,const Family& g,int len,uint64_t step) {
      uint64_t nseq=ipow(2*NOP,len); uint64_t nm=(f.n+step-1)/step;
      // case: model pair, for longer histories also the first use; inside: all continuations
      uint64_t heads=len>2 ? 2*NOP : 1;
      s.push_back(Space{fmt("histories of %d uses, every %llu-th of ",len,(unsigned long long)step)+f.name+" next to "+g.name,nm*heads,[=](uint64_t ih) { uint64_t i=ih/heads,head=ih%heads;
         mute(); uint64_t ia=i*step, ib=(ia*7919+13)%g.n; uint64_t h=(i+1)*0x9e3779b97f4a7c15ull; h^=h>>31;
         f.gen(ia,[&](Model& a) { applyOpt(a,opts[h%8]); g.gen(ib,[&](Model& b) { applyOpt(b,opts[h/8%8]);
            Cfg ca=cfgFor(i*3+1,1),cb=cfgFor(i*5+2,1); Reference ra=referenceOf(a),rb=referenceOf(b);
            std::vector<std::string> alone;
            for(int o=0;o<2*NOP;o++) { NoArena na; std::string r; { arenaOn=na.was; Scope sc; World w(o<NOP?a:b,o<NOP?ca:cb); std::string q=doOp(w,o%NOP); arenaOn=false; r=q; arenaOn=na.was;} arenaOn=false; alone.push_back(r);}
            std::vector<int> seq(len);
            for(uint64_t q=head;q<nseq;q+=heads) { uint64_t v=q; bool useA=false; for(int k=0;k<len;k++) { seq[k]=v%(2*NOP); v/=2*NOP; useA|=seq[k]<NOP;} if (!useA) continue; history(a,b,ca,cb,seq,alone,ra,rb); if (failedNow) return;}
         });});
      },1});
   };
   auto addSeq=[&](const Family& f,int len,int subs,uint64_t step) {
      s.push_back(Space{fmt("one diagram, or two in turn with common strategies, compiled %d times in a row (%d subproblems x 5 strategies), every %llu-th of ",len,subs,(unsigned long long)step)+f.name,(f.n+step-1)/step,[=](uint64_t i) {
         mute(); uint64_t h=(i+1)*0x9e3779b97f4a7c15ull; h^=h>>31; f.gen(i*step,[&](Model& m) { applyOpt(m,opts[h%8]); for(bool sh : {false,true}) { recompile(m,cfgFor(i*3+1,1),len,subs,sh); if (failedNow) return;}}); },1});
   };
   Family f1=allAutomata(2,2,2,{-1,0.5},true), f2=knapsacks(3,2,2,4), f3=misps(4,{1,2}), f4=tsps(4,{1,2},false), f5=allAutomata(3,2,1,{1,2.5},false,true), f6=completeAutomata(3,2,2,0,1.5,true);
   Family g1=colorings(5),g2=misps(5,{1,2}),g3=knapsacks(4,2,2,5),g4=tsps(5,{1,2},true),g5=sparseCostAutomata(3,3,0,1,2,true);
   if (san) { addSeq(f3,2,3,t?5:41); addSeq(g3,2,4,t?11:201); addSeq(g4,2,4,t?17:151);}
   else if (!t) { addSeq(f3,2,5,1); addSeq(g1,2,6,3); addSeq(g2,2,6,151); addSeq(g3,2,6,7); addSeq(g4,2,6,11); addSeq(f6,2,4,1027); addSeq(g5,2,5,10007); addSeq(f5,2,4,1009); addSeq(f3,3,3,33); addSeq(g4,3,4,211); addSeq(g3,3,4,401);}
   else { addSeq(f3,2,8,1); addSeq(g1,2,10,1); addSeq(g2,2,10,7); addSeq(g3,2,8,1); addSeq(g4,2,10,1); addSeq(f6,2,6,101); addSeq(g5,2,8,1007); addSeq(f5,2,6,97); addSeq(f3,3,4,3); addSeq(g4,3,6,31); addSeq(g3,3,6,53); addSeq(f3,4,2,101);}
   if (san) { add(f6,f4,2,t?131:1031); add(f3,f5,2,t?17:63); add(f4,f2,2,t?51:401); add(f2,f3,3,t?7:79);}
   else if (!t) { add(f6,f4,3,1027); add(f3,f5,3,43); add(f4,f2,3,201); add(f1,f6,2,11); add(f2,f3,2,1); add(f3,f6,2,1); add(f4,f3,2,3);}
   else { add(f6,f4,3,129); add(f3,f5,3,1); add(f4,f2,3,11); add(f1,f6,3,53); add(f2,f3,3,1); add(f5,f1,3,501); add(f6,f3,4,16001); add(f3,f1,4,129);}
   return s;
}
int main(int argc,char** argv) {
   return drive(argc,argv,build,"every history of the stated length over searches (widths 1, 2, fresh and common bounds, stopped), exact/relaxed/restricted diagrams, subproblems and duplicates of two models' objects; each result compared with the same use on fresh objects and with the enumerated optimum; non-trivial: a feasible model is involved (distinct by history and results)");
}
