// C04 exact, C05 restricted, C06 relaxed diagrams, C07 cutsets, C20 arcs: every diagram of every small model.
#include "bb.hpp"
#include "chosen.hpp"
#include <map>
using namespace vf;
typedef std::vector<int> Lab;

struct GEdge { int to; int lbl; double obj; };
struct G {                                     // the diagram as a plain graph, read off the nodes and arcs
   std::vector<ANode*> nodes; std::map<ANode*,int> idx;
   std::vector<std::vector<GEdge>> kids;
   std::vector<int> order;                     // topological
   int sink=-1;
   bool cyclic=false;
   int of(ANode* n) { auto it=idx.find(n); if (it!=idx.end()) return it->second; int k=nodes.size(); idx[n]=k; nodes.push_back(n); return k;}
};
static G readGraph(const Model& m,AbstractDD::Ptr dd) {
   G g; g.of(dd->getRoot().get());
   for(std::size_t i=0;i<g.nodes.size();i++) {
      g.kids.emplace_back();
      ANode* n=g.nodes[i];
      if (m.sink(stateOf(n))) g.sink=i;
      for(auto k=n->beginKids();k!=n->endKids();k++) { Edge::Ptr e=*k; int t=g.of(e->_to.get()); g.kids[i].push_back({t,dec(e->_lbl),e->_obj});}
      if (g.nodes.size()>100000) { g.cyclic=true; return g;}
   }
   std::vector<int> deg(g.nodes.size(),0); for(auto& v : g.kids) for(auto& e : v) deg[e.to]++;
   std::vector<int> st; for(std::size_t i=0;i<deg.size();i++) if (!deg[i]) st.push_back(i);
   while(!st.empty()) { int n=st.back(); st.pop_back(); g.order.push_back(n); for(auto& e : g.kids[n]) if (--deg[e.to]==0) st.push_back(e.to);}
   g.cyclic = g.order.size()!=g.nodes.size();
   return g;
}
// reference for a subproblem: state s reached with labels pfx and value v
struct Sub { S s; Lab pfx; double v; Reference ref; int from; };
static Reference refFrom(const Model& m,const S& s,const Lab& pfx,double v) {
   Reference r; Lab p=pfx; allSolutions(m,s,p,v,r.sols); r.feasible=!r.sols.empty(); r.opt=m.none();
   for(auto& x : r.sols) if (m.better(x.v,r.opt)) r.opt=x.v;
   std::sort(r.sols.begin(),r.sols.end(),[](const Sol& a,const Sol& b) { return a.l<b.l;});
   return r;
}
static const Sol* findSol(const Reference& r,const Lab& l) {
   auto it=std::lower_bound(r.sols.begin(),r.sols.end(),l,[](const Sol& a,const Lab& b) { return a.l<b;});
   return it!=r.sols.end() && it->l==l ? &*it : nullptr;
}
struct Out { bool improved; double before,after; std::vector<Lab> inc; };
struct Ctx {
   Model& m; Cfg c; const char* kind; const Sub* sub; double p; // p: primal value given
   std::string show() const { return fmt(" [%s, %s, subproblem of prefix %s value %g, primal given %g] ",kind,c.show().c_str(),showL(sub->pfx).c_str(),sub->v,p)+m.show();}
};
static Lab labelsOf(ANode* n) { Lab l; for(auto i=n->beginOptLabels();i!=n->endOptLabels();i++) l.push_back(dec(*i)); return l;}
// replays labels from the initial state: the state reached and the value
static std::optional<std::pair<S,double>> prefix(const Model& m,const Lab& l) {
   S s=m.init(); double v=0;
   for(int x : l) { if (m.sink(s) || x<0 || x>63 || !(m.labels(s)>>x&1)) return std::nullopt; auto n=m.step(s,x); if (!n) return std::nullopt; v+=m.cost(s,x); s=*n;}
   return std::make_pair(s,v);
}
static void paths(const G& g,int n,Lab& l,double v,std::vector<Sol>& out) {
   if (n==g.sink) { out.push_back({l,v}); return;}
   for(auto& e : g.kids[n]) { l.push_back(e.lbl); paths(g,e.to,l,v+e.obj,out); l.pop_back(); if (out.size()>100000) return;}
}
static std::vector<double> forward(const Model& m,const G& g,double v0) {
   std::vector<double> b(g.nodes.size(),m.none()); b[0]=v0;
   for(int n : g.order) for(auto& e : g.kids[n]) if (m.better(b[n]+e.obj,b[e.to])) b[e.to]=b[n]+e.obj;
   return b;
}
static std::vector<std::optional<double>> backward(const Model& m,const G& g) {
   std::vector<std::optional<double>> b(g.nodes.size()); if (g.sink>=0) b[g.sink]=0;
   for(auto it=g.order.rbegin();it!=g.order.rend();++it) for(auto& e : g.kids[*it]) if (b[e.to]) { double x=*b[e.to]+e.obj; if (!b[*it] || m.better(x,*b[*it])) b[*it]=x;}
   return b;
}
static bool m_labelOffered(const Model& m,const S& s,int l) { return l>=0 && l<64 && (m.labels(s)>>l&1);}
// --- C20 -------------------------------------------------------------------------------------------
static bool arcsOk(const Ctx& x,const G& g) {
   auto bad=[&](const std::string& w) { fail(w+x.show()); return false;};
   if (g.cyclic) return bad("the diagram is not acyclic");
   std::map<unsigned,int> ids; std::map<S,int> sts;
   for(std::size_t i=0;i<g.nodes.size();i++) {
      ANode* n=g.nodes[i];
      if (ids[n->getId()]++) return bad("two nodes share an identifier");
      if (sts[stateOf(n)]++) return bad("two nodes of the diagram have the same state");
      uint64_t seen=0; unsigned k=0;
      for(auto a=n->beginKids();a!=n->endKids();a++,k++) {
         Edge::Ptr e=*a;
         if (e->_from.get()!=n) return bad("an outgoing arc does not start at its node");
         int lb=dec(e->_lbl);
         if (lb<0 || lb>63 || (seen>>lb&1)) return bad("two arcs of a node carry the same label");
         seen |= 1ull<<lb;
         int c=0; ANode* t=e->_to.get(); for(auto b=t->beginPar();b!=t->endPar();b++) c += (*b).get()==e.get();
         if (c!=1) return bad(fmt("an arc is listed %d times at its end node",c));
         if (!(m_labelOffered(x.m,stateOf(n),lb))) return bad("an arc carries a label its state does not offer");
         if (e->_obj!=x.m.cost(stateOf(n),lb)) return bad("an arc does not have the cost of its transition");
      }
      if (k!=n->nbChildren()) return bad("number of children");
      unsigned q=0;
      for(auto a=n->beginPar();a!=n->endPar();a++,q++) {
         Edge::Ptr e=*a; ANode* f=e->_from.get();
         if (e->_to.get()!=n) return bad("an incoming arc does not end at its node");
         if (!g.idx.count(f)) return bad("an incoming arc comes from outside the diagram");
         int c=0; for(auto b=f->beginKids();b!=f->endKids();b++) c += (*b).get()==e.get();
         if (c!=1) return bad(fmt("an arc is listed %d times at its start node",c));
      }
      if (q!=n->nbParents()) return bad("number of parents");
      if (i==0 && q) return bad("the root has an incoming arc");
      if ((int)i==g.sink && k) return bad("the sink has an outgoing arc");
      trans(k);
   }
   states(g.nodes.size());
   return true;
}

// --- value level, common to all diagrams -------------------------------------------------------------
static bool applied(const Ctx& x,AbstractDD::Ptr dd,const Out& o,bool mayReport) {
   auto bad=[&](const std::string& w) { fail(fmt("%s (diagram value %g, bound before %g after %g, %zu incumbents)",w.c_str(),dd->currentOpt(),o.before,o.after,o.inc.size())+x.show()); return false;};
   bool better=x.m.better(dd->currentOpt(),o.before);
   if (o.improved!=better) return bad("apply() does not say whether the diagram improves on the primal value");
   if (better && mayReport) {
      if (o.after!=dd->currentOpt()) return bad("an improving diagram value was not recorded");
      if (o.inc.size()!=1) return bad("an improving solution was not reported exactly once");
      auto v=replayLabels(x.m,o.inc[0]); if (!v || *v!=o.after) return bad("the reported incumbent does not have the recorded value "+showL(o.inc[0]));
   } else if (o.after!=o.before || !o.inc.empty()) return bad("the bound changed without an improving solution");
   return true;
}
static bool exactCheck(const Ctx& x,AbstractDD::Ptr dd,const G& g) {
   const Model& m=x.m; const Reference& ref=x.sub->ref;
   auto bad=[&](const std::string& w) { fail(w+x.show()); return false;};
   if (g.cyclic) return bad("the diagram is not acyclic");
   if (!dd->isExact()) return bad("exact diagram not flagged exact");
   std::vector<Sol> ps; Lab l=x.sub->pfx; paths(g,0,l,x.sub->v,ps);
   std::sort(ps.begin(),ps.end(),[](const Sol& a,const Sol& b) { return a.l<b.l;});
   for(std::size_t i=1;i<ps.size();i++) if (ps[i].l==ps[i-1].l) return bad("a label sequence appears twice "+showL(ps[i].l));
   for(auto& q : ps) { const Sol* s=findSol(ref,q.l); if (!s) return bad("a path is not a solution "+showL(q.l)); if (s->v!=q.v) return bad(fmt("a path has value %g instead of %g ",q.v,s->v)+showL(q.l));}
   std::size_t need=0; for(auto& s : ref.sols) need += !m.hasLocal() || m.better(s.v,x.p);
   std::size_t have=0; for(auto& q : ps) have += !m.hasLocal() || m.better(q.v,x.p);
   if (need!=have) return bad(fmt("%zu solutions, %zu paths",need,have));
   auto f=forward(m,g,x.sub->v);
   std::map<S,int> st;
   for(std::size_t i=0;i<g.nodes.size();i++) {
      ANode* n=g.nodes[i];
      if (st[stateOf(n)]++) return bad("two nodes have the same state");
      if (n->getBound()!=f[i]) return bad(fmt("a node has bound %g, its best path is worth %g",n->getBound(),f[i]));
      auto lb=labelsOf(n); auto pv=prefix(m,lb);
      if (!pv || !(pv->first==stateOf(n)) || pv->second!=f[i]) return bad("the labels of a node do not lead to it with its bound "+showL(lb));
   }
   double best = m.none(); for(auto& q : ps) if (m.better(q.v,best)) best=q.v;
   if (dd->currentOpt()!=best) return bad(fmt("diagram value %g, best path %g",dd->currentOpt(),best));
   auto inc=decL(dd->incumbent()); Lab il(inc.begin(),inc.end());
   if (!ps.empty()) { auto v=replayLabels(m,il); if (!v || *v!=best) return bad("incumbent of the diagram is wrong "+showL(il));}
   return true;
}
static unsigned maxWidth(const Model& m,const G& g) {
   std::map<int,unsigned> c; unsigned w=0; for(std::size_t i=1;i<g.nodes.size();i++) if ((int)i!=g.sink) w=std::max(w,++c[stateOf(g.nodes[i]).d]); return w;
}
// largest number of distinct reachable exact states at one depth below s (sink excluded)
static unsigned exactWidth(const Model& m,const S& s) {
   std::vector<S> cur{s}; unsigned w=0;
   while(!cur.empty()) { std::vector<S> nx; for(auto& c : cur) { uint64_t ls=m.labels(c); for(int l=0;l<64;l++) if (ls>>l&1) { auto n=m.step(c,l); if (n && !m.sink(*n)) nx.push_back(*n);}}
      std::sort(nx.begin(),nx.end()); nx.erase(std::unique(nx.begin(),nx.end()),nx.end()); w=std::max<unsigned>(w,nx.size()); cur.swap(nx);}
   return w;
}
static bool restrictedCheck(const Ctx& x,AbstractDD::Ptr dd,const G& g) {
   const Model& m=x.m; const Reference& ref=x.sub->ref;
   auto bad=[&](const std::string& w) { fail(w+x.show()); return false;};
   if (g.cyclic) return bad("the diagram is not acyclic");
   unsigned w=m.layered() ? maxWidth(m,g) : 0;
   if (w>x.c.w) return bad(fmt("a layer has %u nodes",w));
   if (!m.hasDom()) {
      std::vector<Sol> ps; Lab l=x.sub->pfx; paths(g,0,l,x.sub->v,ps);
      double best=m.none();
      for(auto& q : ps) { const Sol* s=findSol(ref,q.l); if (!s) return bad("a path is not a solution "+showL(q.l)); if (s->v!=q.v) return bad(fmt("a path has value %g instead of %g ",q.v,s->v)+showL(q.l)); if (m.better(q.v,best)) best=q.v;}
      if (dd->currentOpt()!=best) return bad(fmt("diagram value %g, best path %g",dd->currentOpt(),best));
   }
   auto inc=decL(dd->incumbent()); Lab il(inc.begin(),inc.end());
   if (dd->currentOpt()!=m.none()) { auto v=replayLabels(m,il); if (!v || *v!=dd->currentOpt()) return bad(fmt("the diagram's value %g is not that of its solution ",dd->currentOpt())+showL(il));}
   if (dd->isExact() && ref.feasible && (!m.hasLocal() || m.better(ref.opt,x.p)) && dd->currentOpt()!=ref.opt)
      return bad(fmt("flagged exact with value %g, best solution %g",dd->currentOpt(),ref.opt));
   if (m.layered() && exactWidth(m,x.sub->s) < x.c.w && !dd->isExact()) return bad("not exact although the width was never reached");
   for(auto n : g.nodes) if ((int)(g.idx.at(n))!=g.sink) { auto lb=labelsOf(n); auto pv=prefix(m,lb);
      if (!pv || !(pv->first==stateOf(n)) || pv->second!=n->getBound()) return bad("the labels of a node do not lead to it with its bound "+showL(lb));}
   return true;
}
static bool relaxedCheck(const Ctx& x,AbstractDD::Ptr dd,const G& g) {
   const Model& m=x.m; const Reference& ref=x.sub->ref;
   auto bad=[&](const std::string& w) { fail(w+x.show()); return false;};
   if (g.cyclic) return bad("the diagram is not acyclic");
   if (m.totalMerge() && maxWidth(m,g)>x.c.w) return bad(fmt("a layer has %u nodes",maxWidth(m,g)));
   bool relevant = ref.feasible && (!m.hasLocal() || m.better(ref.opt,x.p));
   if (relevant && !m.betterEQ(dd->currentOpt(),ref.opt)) return bad(fmt("relaxed value %g is worse than the solution value %g",dd->currentOpt(),ref.opt));
   if (!m.hasDom())
      for(auto& s : ref.sols) if (!m.hasLocal() || m.better(s.v,x.p)) {
         int n=0; double v=x.sub->v; bool ok=true;
         for(std::size_t i=x.sub->pfx.size();i<s.l.size() && ok;i++) { ok=false; for(auto& e : g.kids[n]) if (e.lbl==s.l[i]) { v+=e.obj; n=e.to; ok=true; break;}}
         if (!ok || n!=g.sink) return bad("a solution is lost "+showL(s.l));
         if (!m.betterEQ(v,s.v)) return bad(fmt("a solution of value %g is only worth %g ",s.v,v)+showL(s.l));
      }
   auto f=forward(m,g,x.sub->v); auto b=backward(m,g);
   for(std::size_t i=0;i<g.nodes.size();i++) {
      ANode* n=g.nodes[i];
      if (!m.betterEQ(n->getBound(),f[i])) return bad(fmt("a node has bound %g, a path worth %g reaches it",n->getBound(),f[i]));
      if (n->getBound()!=f[i]) return bad(fmt("a node has bound %g, its best path is worth %g",n->getBound(),f[i]));
      if (b[i] && n->getBackwardBound()!=*b[i]) return bad(fmt("a node promises %g to the sink, its best path is worth %g",n->getBackwardBound(),*b[i]));
      if (n->isExact() && (int)i!=g.sink) { auto lb=labelsOf(n); auto pv=prefix(m,lb);
         if (!pv || !(pv->first==stateOf(n)) || pv->second!=n->getBound()) return bad("an exact node is not reached by its labels with its bound "+showL(lb));}
   }
   double best = g.sink<0 ? m.none() : f[g.sink];
   if (dd->currentOpt()!=best) return bad(fmt("diagram value %g, best path %g",dd->currentOpt(),best));
   if (dd->isExact()) {
      if (relevant && dd->currentOpt()!=ref.opt) return bad(fmt("flagged exact with value %g, best solution %g",dd->currentOpt(),ref.opt));
      if (dd->currentOpt()!=m.none()) { auto inc=decL(dd->incumbent()); auto v=replayLabels(m,Lab(inc.begin(),inc.end())); if (!v || *v!=dd->currentOpt()) return bad("flagged exact but its best path is not a solution");}
   }
   if (m.layered() && exactWidth(m,x.sub->s) <= x.c.w && !dd->isExact()) return bad("not exact although no layer is wider than the width");
   return true;
}
static bool cutsetCheck(const Ctx& x,AbstractDD::Ptr dd,const G& g) {
   const Model& m=x.m; const Reference& ref=x.sub->ref;
   auto bad=[&](const std::string& w) { fail(w+x.show()); return false;};
   auto cs=dd->computeCutSet();
   if (dd->isExact() && !cs.empty()) return bad("an exact diagram has a cutset");
   struct CN { S s; double bd,bb; Lab l; }; std::vector<CN> c;
   for(auto np : cs) {
      ANode* n=np.get();
      if (!g.idx.count(n)) return bad("a cutset node is not in the diagram");
      if (!n->isExact()) return bad("a cutset node is not exact");
      CN k{stateOf(n),n->getBound(),n->getBackwardBound(),labelsOf(n)};
      for(auto& o : c) if (o.s==k.s) return bad("a cutset contains a state twice");
      auto pv=prefix(m,k.l);
      if (!pv || !(pv->first==k.s) || pv->second!=k.bd) return bad(fmt("the labels %s of a cutset node do not lead to it with value %g",showL(k.l).c_str(),k.bd));
      if (m.sink(k.s)) return bad("the sink is in the cutset");
      c.push_back(k);
   }
   // solutions whose path in the diagram meets exact nodes only are settled by the diagram itself
   double bestLeft=m.none(); bool any=false; double bestCovered=m.none();
   for(auto& s : ref.sols) {
      if (!m.better(s.v,x.p)) continue;
      if (m.hasDom()) { any=true; if (m.better(s.v,bestLeft)) bestLeft=s.v; continue;}
      int n=0; bool exact=true; double pv=x.sub->v;
      for(std::size_t i=x.sub->pfx.size();i<s.l.size() && n!=-1;i++) { int t=-1; for(auto& e : g.kids[n]) if (e.lbl==s.l[i]) { t=e.to; pv+=e.obj;} n=t; if (n>=0 && n!=g.sink && !g.nodes[n]->isExact()) exact=false;}
      if (n>=0 && n==g.sink && exact && pv==s.v) continue;
      S st=x.sub->s; double v=x.sub->v; bool ok=false;
      for(std::size_t i=x.sub->pfx.size();i<=s.l.size() && !ok;i++) {
         for(auto& k : c) if (k.s==st && m.betterEQ(k.bd,v) && m.betterEQ(k.bd+k.bb,k.bd+(s.v-v))) ok=true;
         if (i<s.l.size()) { v+=m.cost(st,s.l[i]); st=*m.step(st,s.l[i]);}
      }
      if (!ok) return bad(fmt("no cutset node covers the solution %s of value %g",showL(s.l).c_str(),s.v));
   }
   if (m.hasDom() && any) {
      // the best remaining value must be reachable below some cutset node, or along exact nodes
      auto f=forward(m,g,x.sub->v);
      if (g.sink>=0) for(std::size_t i=0;i<g.nodes.size();i++) if (g.nodes[i]->isExact()) for(auto& e : g.kids[i]) if (e.to==g.sink && m.better(f[i]+e.obj,bestCovered)) bestCovered=f[i]+e.obj;
      for(auto& k : c) { Reference r=refFrom(m,k.s,{},k.bd); if (r.feasible && m.betterEQ(k.bd+k.bb,r.opt) && m.better(r.opt,bestCovered)) bestCovered=r.opt;}
      if (!m.betterEQ(bestCovered,bestLeft)) return bad(fmt("the cutset only leads to %g, a solution of value %g exists",bestCovered,bestLeft));
   }
   return true;
}
// --- one model: every subproblem x strategy x width x primal ---------------------------------------
enum Kind { KE, KR, KX };
static const char* kname[]={"exact","restricted","relaxed"};
static void oneModel(Model& m,uint64_t i,const std::vector<unsigned>& ws,const Opt* opts,int no,bool allOpts,int maxSubs) {
   uint64_t h=(i+1)*0x9e3779b97f4a7c15ull; h^=h>>31;
   for(int k=0;k<no;k++) {
      if (!allOpts && k!=(int)(h%no)) continue;
      applyOpt(m,opts[k]);
      std::vector<Sub> subs; subs.push_back(Sub{m.init(),{},0,refFrom(m,m.init(),{},0),-1});
      // subproblems: the best way to every reachable state (found without the library)
      { std::map<S,std::pair<double,Lab>> best; std::vector<S> cur{m.init()}; best[m.init()]={0,{}};
        while(!cur.empty()) { std::vector<S> nx; for(auto& s : cur) { auto [v,l]=best[s]; uint64_t ls=m.labels(s); for(int b=0;b<64;b++) if (ls>>b&1) { auto n=m.step(s,b); if (!n || m.sink(*n)) continue;
              double nv=v+m.cost(s,b); auto it=best.find(*n); if (it==best.end()) nx.push_back(*n); if (it==best.end() || m.better(nv,it->second.first)) { Lab nl=l; nl.push_back(b); best[*n]={nv,nl};}}} cur.swap(nx);}
        for(auto& [s,vl] : best) if (!(s==m.init()) && (int)subs.size()<maxSubs) subs.push_back(Sub{s,vl.second,vl.first,refFrom(m,s,vl.second,vl.first),0}); }
      for(unsigned w : ws) for(std::size_t si=0;si<subs.size();si++) {
         const Sub& sub=subs[si];
         std::vector<std::optional<double>> ps{std::nullopt};
         if (sub.ref.feasible) { int d=(int)((h>>7)+si+w)%3-1; ps.push_back(sub.ref.opt+d);}
         for(auto& p : ps) for(int kd : {KE,KR,KX}) {
            if (prop=="C04" && kd!=KE) continue;
            if (prop=="C05" && kd!=KR) continue;
            if ((prop=="C06" || prop=="C07") && kd!=KX) continue;
            Scope sc;
            Cfg c=cfgFor(i*7+w+si,w); useCfg(c); M=&m;
            Out o; Bounds b([&](const std::vector<int>& v) { o.inc.push_back(decL(v));});
            auto dd=makeModelDD(m,c.lk);
            Exact ex; Restricted re(w); Relaxed rx(w);
            AbstractDD::Ptr src;
            if (p) b.setPrimal(*p); else b.attach(dd);
            o.before=b.getPrimal();
            dd->setStrategy(kd==KE ? (Strategy*)&ex : kd==KR ? (Strategy*)&re : (Strategy*)&rx);
            Ctx x{m,c,kname[kd],&sub,o.before};
            if (si==0) { dd->compute(b); o.improved=false;}
            else {
               // hand the subproblem over the way the search does: a node of another diagram, cloned, then applied
               src=makeModelDD(m,c.lk); Bounds sb; sb.attach(src); Exact se; src->setStrategy(&se); 
               bool hl=m.hasLocal(); if (hl) sb.setPrimal(m.none());
               src->compute(sb);
               G sg=readGraph(m,src); ANode* nd=nullptr; for(auto n : sg.nodes) if (stateOf(n)==sub.s) nd=n;
               if (!nd) { // bounded away by the local function: not a subproblem of this model
                  continue;
               }
               auto pool=src->makeNDAllocator(); auto cl=pool->cloneNode(nd);
               if (!cl) { fail("a new subproblem was refused"+x.show()); continue;}
               if (labelsOf(nd)!=sub.pfx) { Sub s2=sub; s2.pfx=labelsOf(nd); s2.v=nd->getBound(); s2.ref=refFrom(m,s2.s,s2.pfx,s2.v);
                  Ctx y{m,c,kname[kd],&s2,o.before};
                  o.improved=dd->apply(cl,b); o.after=b.getPrimal(); G g=readGraph(m,dd); eval();
                  bool r = prop=="C04" ? exactCheck(y,dd,g) && applied(y,dd,o,true) : prop=="C05" ? restrictedCheck(y,dd,g) && applied(y,dd,o,true) : prop=="C06" ? relaxedCheck(y,dd,g) && applied(y,dd,o,dd->isExact()) : prop=="C07" ? cutsetCheck(y,dd,g) : arcsOk(y,g);
                  trace(); if (!r) return; continue;
               }
               o.improved=dd->apply(cl,b);
            }
            o.after=b.getPrimal();
            G g=readGraph(m,dd); eval();
            bool r = prop=="C04" ? exactCheck(x,dd,g) : prop=="C05" ? restrictedCheck(x,dd,g) : prop=="C06" ? relaxedCheck(x,dd,g) : prop=="C07" ? cutsetCheck(x,dd,g) : arcsOk(x,g);
            if (r && si && prop!="C20" && prop!="C07") r=applied(x,dd,o,kd!=KX || dd->isExact());
            if (!r) return;
            trace();
            if (prop!="C20") { states(g.nodes.size()); for(auto& v : g.kids) trans(v.size());}
            if (sub.ref.sols.size()>1) { uint64_t q=mix(w,kd); for(std::size_t n=0;n<g.nodes.size();n++) { auto& s=stateOf(g.nodes[n]); q=mix(mix(mix(q,s.d),s.x),s.y); for(auto& e : g.kids[n]) q=mixd(mix(mix(q,e.to),e.lbl),e.obj);}
               if (distinct(q) && wantSample() && (sh->evals%1009)==0) sample(fmt("%s diagram with %zu nodes, value %g",kname[kd],g.nodes.size(),dd->currentOpt())+x.show());}
         }
      }
   }
}
// every sequence of answers the model may give about merging: relaxed diagrams of the whole problem
static void chosenModel(Chosen& m,uint64_t i,const std::vector<unsigned>& ws,int free) {
   Sub sub{m.init(),{},0,refFrom(m,m.init(),{},0),-1};
   for(unsigned w : ws) {
      Script sc(free); Cfg c=cfgFor(i*7+w,w);
      do {
         Scope mem; m.fresh(sc); useCfg(c); M=&m;
         Bounds b; auto dd=makeModelDD(m,c.lk); Relaxed rx(w); b.attach(dd); dd->setStrategy(&rx);
         Ctx x{m,c,"relaxed",&sub,b.getPrimal()};
         dd->compute(b); G g=readGraph(m,dd); eval(); trans(sc.at);
         if (!(prop=="C06" ? relaxedCheck(x,dd,g) : prop=="C07" ? cutsetCheck(x,dd,g) : arcsOk(x,g))) return;
         trace(); if (prop!="C20") states(g.nodes.size());
         if (sub.ref.sols.size()>1) { uint64_t q=mix(w,9); for(std::size_t n=0;n<g.nodes.size();n++) { auto& s=stateOf(g.nodes[n]); q=mix(mix(q,s.d),s.x); for(auto& e : g.kids[n]) q=mixd(mix(mix(q,e.to),e.lbl),e.obj);}
            if (distinct(q) && wantSample() && (sh->evals%50021)==0) sample(fmt("relaxed diagram with %zu nodes, value %g",g.nodes.size(),dd->currentOpt())+x.show());}
      } while(sc.next());
   }
}
static std::vector<Space> build() {
   std::vector<Space> s;
   static const Opt small[]={ {0,0,0},{0,0,1},{0,0,2},{1,0,0},{2,0,0},{4,0,2},{0,1,0},{0,2,0},{0,3,2},{2,2,0},{3,1,2} };
   const int no=sizeof small/sizeof(Opt);
   auto add=[&](const Family& f,std::vector<unsigned> ws,bool all,int subs) {
      s.push_back(Space{f.name+(all?" x every option":" x rotating options"),f.n,[=](uint64_t i) { mute(); f.gen(i,[&](Model& m) { oneModel(m,i,ws,small,no,all,subs);});}});
   };
   bool t=thorough();
   // states reached by decision sequences of different lengths (the other properties are about layered models)
   static const Opt nolocal[]={ {0,0,0},{0,0,1},{0,0,2},{0,1,0},{0,2,0},{0,2,2} };
   auto dag=[&](const Family& f,std::vector<unsigned> ws,bool all) { const bool c4=prop=="C04"; const Opt* o=c4 ? nolocal : small; const int k=c4 ? 6 : no;
      s.push_back(Space{f.name+(all?" x every option":" x rotating options"),f.n,[=](uint64_t i) { mute(); f.gen(i,[&](Model& m) { oneModel(m,i,ws,o,k,all,4);});}});};
   if (prop=="C04" || prop=="C20") for(bool mx : {true,false}) { dag(dags(4,1,{0,2},{0,1},mx),{1,2},true); dag(dags(4,2,{0,1},{0},mx),t ? std::vector<unsigned>{1,2,3} : std::vector<unsigned>{1},false);
      if (t) dag(dags(5,1,{0,2},{0,1},mx),{1,2},true);}
   for(bool mx : {true,false}) {
      add(allAutomata(2,2,2,{-1,0.5},mx),{1,2,3},true,4);
      add(allAutomata(2,2,1,{-1,2},mx,true),{1,2},true,4);
      add(allAutomata(2,2,2,{16777216.5,16777217},mx),{1,2},false,4);
      add(allAutomata(2,2,2,{-1,0,2},mx),{1,2},false,4);
      add(allAutomata(3,2,1,{1,2.5},mx,true),t ? std::vector<unsigned>{1,2} : std::vector<unsigned>{1},false,3);
      add(completeAutomata(3,2,2,0,1.5,mx),{1,2},false,4);
   }
   if (prop=="C06" || prop=="C07" || prop=="C20") for(bool mx : {true,false}) {
      auto ch=[&](const Family& f,std::vector<unsigned> ws,int free) { s.push_back(Space{f.name+fmt(", first %d answers",free),f.n,[=](uint64_t i) { mute(); f.gen(i,[&](Model& m) { chosenModel(static_cast<Chosen&>(m),i,ws,free);});}});};
      ch(chosen(2,4,t?4:2,mx,true,false,false),{1,2,3},t?12:8);
      ch(chosen(2,3,4,mx,true,false,false),{1,2},12);
      ch(chosen(3,3,t?4:2,mx,true,false,false),{1,2},t?9:6);
   }
   add(knapsacks(3,2,2,4),{1,2,3},true,8);
   add(knapsacks(4,2,2,5),{1,2,3},false,10);
   add(misps(4,{1,2}),{1,2,3},true,8);
   add(misps(5,{1,2}),{2,3},false,4);
   add(tsps(4,{1,2},false),{1,2},false,6);
   add(tsps(4,{1,-1,3},true),{1,2},true,6);
   add(tsps(5,{1,2},true),{1,2,3,4},false,6);
   add(colorings(4),{1,2,3},true,10);
   add(colorings(5),{1,2,3,4},false,20);
   if (t) {
      add(allAutomata(2,3,2,{0,1},true),{1,2},false,4);
      add(completeAutomata(4,2,2,0,1,false),{1,2},false,3);
      add(sparseCostAutomata(3,3,0,1,2,true),{1,2},false,3);
      add(misps(6,{1,2}),{1,2,3},false,6);
      add(tsps(4,{1,2,3},false),{1,2,3},false,5);
      add(colorings(6),{2,4},false,20);
      add(knapsacks(5,3,2,8),{1,2,3},false,6);
   }
   return s;
}
int main(int argc,char** argv) {
   return drive(argc,argv,build,"every model of the listed finite families x optional bounds/dominance/merging x widths x given primal values x subproblems, each diagram compiled by the real code and compared node by node with the enumeration of all label sequences; non-trivial: the subproblem has at least two solutions (distinct by the whole diagram)");
}
