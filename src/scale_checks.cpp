// The engine on instances two or three orders of magnitude larger than those whose solutions can be listed: layers of
// hundreds of states, hundreds of layers, tens of thousands of labels, thousands of nodes, costs that need all the
// precision of a double.  Each space is a finite grid of instances, all of them visited; the reference is a dynamic
// programme over the exact states.
#include "judges.hpp"
#include "exactgraph.hpp"
#include <unordered_map>
#include <unordered_set>
typedef std::vector<int> Lab;
struct GEdge { int to,lbl; double obj; Edge* e; };
struct G { std::vector<ANode*> nodes; std::unordered_map<ANode*,int> idx; std::vector<std::vector<GEdge>> kids; std::vector<int> order; int sink=-1; bool cyclic=false;
   int of(ANode* n) { auto [it,nw]=idx.emplace(n,(int)nodes.size()); if (nw) nodes.push_back(n); return it->second;} };
static G readGraph(const Model& m,AbstractDD::Ptr dd) {
   G g; g.of(dd->getRoot().get());
   for(std::size_t i=0;i<g.nodes.size();i++) { g.kids.emplace_back(); ANode* n=g.nodes[i]; if (m.sink(stateOf(n))) g.sink=i;
      for(auto k=n->beginKids();k!=n->endKids();k++) { Edge::Ptr e=*k; int t=g.of(e->_to.get()); g.kids[i].push_back({t,dec(e->_lbl),e->_obj,e.get()});}
      if (g.nodes.size()>3000000) { g.cyclic=true; return g;} }
   std::vector<int> deg(g.nodes.size(),0); for(auto& v : g.kids) for(auto& e : v) deg[e.to]++;
   std::vector<int> st; for(std::size_t i=0;i<deg.size();i++) if (!deg[i]) st.push_back(i);
   while(!st.empty()) { int n=st.back(); st.pop_back(); g.order.push_back(n); for(auto& e : g.kids[n]) if (--deg[e.to]==0) st.push_back(e.to);}
   g.cyclic = g.order.size()!=g.nodes.size();
   return g;
}
static Lab labelsOf(ANode* n) { Lab l; for(auto i=n->beginOptLabels();i!=n->endOptLabels();i++) l.push_back(dec(*i)); return l;}
static std::optional<std::pair<S,double>> prefix(const Model& m,const Lab& l) {
   S s=m.init(); double v=0; for(int x : l) { if (m.sink(s) || !m.offers(s,x)) return std::nullopt; auto n=m.step(s,x); if (!n) return std::nullopt; v+=m.cost(s,x); s=*n;} return std::make_pair(s,v);
}
struct Sub { S s; Lab pfx; double v; const XG* x; };
struct Ctx { Model& m; Cfg c; const char* kind; const Sub* sub; double p; std::string show() const { return fmt(" [%s, %s, subproblem at depth %d value %g, primal given %g] ",kind,c.show().c_str(),sub->s.d,sub->v,p)+m.show();} };
static bool labelsLead(const Model& m,ANode* n,double want) { auto pv=prefix(m,labelsOf(n)); return pv && pv->first==stateOf(n) && pv->second==want;}
static std::vector<double> forward(const Model& m,const G& g,double v0) { std::vector<double> b(g.nodes.size(),m.none()); b[0]=v0; for(int n : g.order) for(auto& e : g.kids[n]) if (m.better(b[n]+e.obj,b[e.to])) b[e.to]=b[n]+e.obj; return b;}
static std::vector<std::optional<double>> backward(const Model& m,const G& g) { std::vector<std::optional<double>> b(g.nodes.size()); if (g.sink>=0) b[g.sink]=0; for(auto it=g.order.rbegin();it!=g.order.rend();++it) for(auto& e : g.kids[*it]) if (b[e.to]) { double x=*b[e.to]+e.obj; if (!b[*it] || m.better(x,*b[*it])) b[*it]=x;} return b;}
static unsigned maxWidth(const G& g) { std::map<int,unsigned> c; unsigned w=0; for(std::size_t i=1;i<g.nodes.size();i++) if ((int)i!=g.sink) w=std::max(w,++c[stateOf(g.nodes[i]).d]); return w;}

static bool arcsOk(const Ctx& x,const G& g) {
   auto bad=[&](const std::string& w) { fail(w+x.show()); return false;};
   if (g.cyclic) return bad("the diagram is not acyclic");
   std::unordered_set<unsigned> ids; std::set<S> sts; std::unordered_map<Edge*,int> par;
   for(auto n : g.nodes) { unsigned q=0; for(auto a=n->beginPar();a!=n->endPar();a++,q++) { Edge::Ptr e=*a; par[e.get()]++; if (e->_to.get()!=n) return bad("an incoming arc does not end at its node"); if (!g.idx.count(e->_from.get())) return bad("an incoming arc comes from outside the diagram");} if (q!=n->nbParents()) return bad("number of parents");}
   std::unordered_map<Edge*,int> kid;
   for(std::size_t i=0;i<g.nodes.size();i++) { ANode* n=g.nodes[i];
      if (!ids.insert(n->getId()).second) return bad("two nodes share an identifier");
      if (!sts.insert(stateOf(n)).second) return bad("two nodes of the diagram have the same state");
      std::set<int> seen; for(auto& e : g.kids[i]) { if (e.e->_from.get()!=n) return bad("an outgoing arc does not start at its node"); if (!seen.insert(e.lbl).second) return bad("two arcs of a node carry the same label");
         if (par[e.e]!=1 || ++kid[e.e]!=1) return bad(fmt("an arc is listed %d times at its end node and %d times at its start",par[e.e],kid[e.e]));
         if (!x.m.offers(stateOf(n),e.lbl)) return bad("an arc carries a label its state does not offer");
         if (e.obj!=x.m.cost(stateOf(n),e.lbl)) return bad("an arc does not have the cost of its transition");}
      if (g.kids[i].size()!=n->nbChildren()) return bad("number of children");
      if (i==0 && n->nbParents()) return bad("the root has an incoming arc");
      if ((int)i==g.sink && !g.kids[i].empty()) return bad("the sink has an outgoing arc");
   }
   if (par.size()!=kid.size()) return bad(fmt("%zu arcs enter nodes, %zu leave nodes",par.size(),kid.size()));
   return true;
}
struct Out { bool improved=false; double before,after; std::vector<Lab> inc; };
static bool applied(const Ctx& x,AbstractDD::Ptr dd,const Out& o,bool mayReport) {
   auto bad=[&](const std::string& w) { fail(fmt("%s (diagram value %.17g, bound before %.17g after %.17g, %zu incumbents)",w.c_str(),dd->currentOpt(),o.before,o.after,o.inc.size())+x.show()); return false;};
   bool better=x.m.better(dd->currentOpt(),o.before);
   if (o.improved!=better) return bad("apply() does not say whether the diagram improves on the primal value");
   if (better && mayReport) { if (o.after!=dd->currentOpt()) return bad("an improving diagram value was not recorded"); if (o.inc.size()!=1) return bad("an improving solution was not reported exactly once"); auto v=replayLabels(x.m,o.inc[0]); if (!v || *v!=o.after) return bad("the reported incumbent does not have the recorded value");}
   else if (o.after!=o.before || !o.inc.empty()) return bad("the bound changed without an improving solution");
   return true;
}
static bool exactCheck(const Ctx& x,AbstractDD::Ptr dd,const G& g) {
   const Model& m=x.m; const XG& X=*x.sub->x; auto bad=[&](const std::string& w) { fail(w+x.show()); return false;};
   if (g.cyclic) return bad("the diagram is not acyclic");
   if (!dd->isExact()) return bad("exact diagram not flagged exact");
   auto f=forward(m,g,x.sub->v); std::set<S> seen; uint64_t arcs=0;
   std::vector<std::vector<const GEdge*>> at;
   std::vector<char> have(X.st.size(),0);
   for(std::size_t i=0;i<g.nodes.size();i++) { ANode* n=g.nodes[i]; const S& s=stateOf(n);
      auto it=X.id.find(s); if (it==X.id.end()) return bad("a node is not a state of the problem");
      if (have[it->second]++) return bad("two nodes have the same state");
      std::map<int,const GEdge*> by; for(auto& e : g.kids[i]) { if (!by.emplace(e.lbl,&e).second) return bad("a label sequence appears twice"); arcs++;}
      std::size_t found=0;
      for(auto& a : X.out[it->second]) { auto k=by.find(a.l); bool open=!m.hasLocal() || (X.reach[a.to] && m.better(X.f[it->second]+a.c+X.b[a.to],x.p));
         if (k==by.end()) { if (open) return bad(fmt("an arc of a solution is missing (label %d at depth %d)",a.l,s.d)); continue;}
         found++; if (k->second->obj!=a.c || !(stateOf(g.nodes[k->second->to])==X.st[a.to])) return bad("an arc does not follow the transition function");}
      if (found!=by.size()) return bad("an arc does not exist in the problem");
      if (n->getBound()!=f[i]) return bad(fmt("a node has bound %.17g, its best path is worth %.17g",n->getBound(),f[i]));
      if (!labelsLead(m,n,f[i])) return bad("the labels of a node do not lead to it with its bound "+showL(labelsOf(n)).substr(0,200));
   }
   if (!m.hasLocal()) for(std::size_t i=0;i<X.st.size();i++) if (!have[i]) return bad("a reachable state has no node");
   if (m.hasLocal()) for(std::size_t i=0;i<X.st.size();i++) if (!have[i] && X.reach[i] && m.better(X.f[i]+X.b[i],x.p)) return bad("a state of an open solution has no node");
   double best=g.sink<0 ? m.none() : f[g.sink];
   if (dd->currentOpt()!=best) return bad(fmt("diagram value %.17g, best path %.17g",dd->currentOpt(),best));
   if (X.feasible && (!m.hasLocal() || m.better(X.opt,x.p)) && best!=X.opt) return bad(fmt("diagram value %.17g, optimum %.17g",best,X.opt));
   if (g.sink>=0) { auto v=replayLabels(m,decL(dd->incumbent())); if (!v || *v!=best) return bad("incumbent of the diagram is wrong");}
   return true;
}
static bool restrictedCheck(const Ctx& x,AbstractDD::Ptr dd,const G& g) {
   const Model& m=x.m; const XG& X=*x.sub->x; auto bad=[&](const std::string& w) { fail(w+x.show()); return false;};
   if (g.cyclic) return bad("the diagram is not acyclic");
   unsigned w=maxWidth(g); if (w>x.c.w) return bad(fmt("a layer has %u nodes",w));
   auto f=forward(m,g,x.sub->v);
   if (!m.hasDom()) {
      for(std::size_t i=0;i<g.nodes.size();i++) { const S& s=stateOf(g.nodes[i]); auto it=X.id.find(s); if (it==X.id.end()) return bad("a node is not a state of the problem");
         for(auto& e : g.kids[i]) { bool ok=false; for(auto& a : X.out[it->second]) if (a.l==e.lbl) { ok=a.c==e.obj && X.st[a.to]==stateOf(g.nodes[e.to]); break;} if (!ok) return bad("an arc does not follow the transition function");} }
      double best=g.sink<0 ? m.none() : f[g.sink];
      if (dd->currentOpt()!=best) return bad(fmt("diagram value %.17g, best path %.17g",dd->currentOpt(),best));
   }
   if (dd->currentOpt()!=m.none()) { auto v=replayLabels(m,decL(dd->incumbent())); if (!v || *v!=dd->currentOpt()) return bad(fmt("the diagram's value %.17g is not that of its solution ",dd->currentOpt()));}
   if (dd->isExact() && X.feasible && (!m.hasLocal() || m.better(X.opt,x.p)) && dd->currentOpt()!=X.opt) return bad(fmt("flagged exact with value %.17g, best solution %.17g",dd->currentOpt(),X.opt));
   if (X.width < x.c.w && !dd->isExact()) return bad("not exact although the width was never reached");
   for(std::size_t i=0;i<g.nodes.size();i++) if ((int)i!=g.sink && !labelsLead(m,g.nodes[i],g.nodes[i]->getBound())) return bad("the labels of a node do not lead to it with its bound");
   return true;
}
static bool relaxedCheck(const Ctx& x,AbstractDD::Ptr dd,const G& g) {
   const Model& m=x.m; const XG& X=*x.sub->x; auto bad=[&](const std::string& w) { fail(w+x.show()); return false;};
   if (g.cyclic) return bad("the diagram is not acyclic");
   if (m.totalMerge() && maxWidth(g)>x.c.w) return bad(fmt("a layer has %u nodes",maxWidth(g)));
   bool relevant=X.feasible && (!m.hasLocal() || m.better(X.opt,x.p));
   if (relevant && !m.betterEQ(dd->currentOpt(),X.opt)) return bad(fmt("relaxed value %.17g is worse than the solution value %.17g",dd->currentOpt(),X.opt));
   if (!m.hasDom()) { // every open solution follows a path: product of exact states and nodes, with the best value of the exact way there
      struct Pr { double v,def; }; // def: how much more the exact way is worth than the diagram's (largest over the ways)
      std::map<std::pair<int,int>,Pr> cur{{{0,0},{x.sub->v,0}}}; double sg=m.maximize?1:-1;
      std::map<std::pair<int,int>,Pr> sinks;
      while(!cur.empty()) { std::map<std::pair<int,int>,Pr> nx;
         for(auto& [k,pr] : cur) { auto [s,n]=k; std::unordered_map<int,const GEdge*> by; for(auto& e : g.kids[n]) by[e.lbl]=&e;
            for(auto& a : X.out[s]) { if (!X.reach[a.to]) continue; double v=pr.v+a.c; bool open=!m.hasLocal() || m.better(v+X.b[a.to],x.p);
               auto it=by.find(a.l); if (it==by.end()) { if (open) return bad(fmt("a solution is lost at depth %d (label %d, value %.17g)",X.st[s].d,a.l,v+X.b[a.to])); continue;}
               if ((a.to==X.sink)!=(it->second->to==g.sink)) { if (open) return bad("a solution does not end at the sink"); continue;}
               double d=pr.def+sg*(a.c-it->second->obj);
               if (a.to==X.sink) { if (!m.hasLocal() && d>0) return bad(fmt("a solution is undervalued by %g",d)); continue;}
               auto [q,nw]=nx.emplace(std::make_pair(a.to,it->second->to),Pr{v,d}); if (!nw) { if (m.better(v,q->second.v)) q->second.v=v; q->second.def=std::max(q->second.def,d);} }
         }
         states(nx.size()); cur.swap(nx);
      }
   }
   auto f=forward(m,g,x.sub->v); auto b=backward(m,g);
   for(std::size_t i=0;i<g.nodes.size();i++) { ANode* n=g.nodes[i];
      if (n->getBound()!=f[i]) return bad(fmt("a node has bound %.17g, its best path is worth %.17g",n->getBound(),f[i]));
      if (b[i] && n->getBackwardBound()!=*b[i]) return bad(fmt("a node promises %.17g to the sink, its best path is worth %.17g",n->getBackwardBound(),*b[i]));
      if (n->isExact() && (int)i!=g.sink && !labelsLead(m,n,n->getBound())) return bad("an exact node is not reached by its labels with its bound");}
   double best=g.sink<0 ? m.none() : f[g.sink];
   if (dd->currentOpt()!=best) return bad(fmt("diagram value %.17g, best path %.17g",dd->currentOpt(),best));
   if (dd->isExact()) { if (relevant && dd->currentOpt()!=X.opt) return bad(fmt("flagged exact with value %.17g, best solution %.17g",dd->currentOpt(),X.opt));
      if (dd->currentOpt()!=m.none()) { auto v=replayLabels(m,decL(dd->incumbent())); if (!v || *v!=dd->currentOpt()) return bad("flagged exact but its best path is not a solution");} }
   if (X.width<=x.c.w && !dd->isExact()) return bad("not exact although no layer is wider than the width");
   return true;
}
static bool cutsetCheck(const Ctx& x,AbstractDD::Ptr dd,const G& g) {
   const Model& m=x.m; const XG& X=*x.sub->x; auto bad=[&](const std::string& w) { fail(w+x.show()); return false;};
   auto cs=dd->computeCutSet(); if (dd->isExact() && !cs.empty()) return bad("an exact diagram has a cutset");
   struct CN { double bd,bb; }; std::map<S,CN> c;
   for(auto np : cs) { ANode* n=np.get(); if (!g.idx.count(n)) return bad("a cutset node is not in the diagram"); if (!n->isExact()) return bad("a cutset node is not exact"); if (m.sink(stateOf(n))) return bad("the sink is in the cutset");
      if (!c.emplace(stateOf(n),CN{n->getBound(),n->getBackwardBound()}).second) return bad("a cutset contains a state twice");
      if (!labelsLead(m,n,n->getBound())) return bad("the labels of a cutset node do not lead to it with its bound");}
   if (!m.hasDom()) {
      // ways through the exact states that no cutset node covers so far: (state, node along exact nodes or -1) -> best value
      std::map<std::pair<int,int>,double> cur{{{0,0},x.sub->v}};
      while(!cur.empty()) { std::map<std::pair<int,int>,double> nx;
         for(auto& [k,v] : cur) { auto [s,n]=k; if (!X.reach[s] || !m.better(v+X.b[s],x.p)) continue;
            auto it=c.find(X.st[s]); if (it!=c.end() && m.betterEQ(it->second.bd,v) && m.betterEQ(it->second.bb,X.b[s])) continue; // covered
            for(auto& a : X.out[s]) { if (!X.reach[a.to]) continue; double nv=v+a.c; if (!m.better(nv+X.b[a.to],x.p)) continue; int t=-1;
               if (n>=0) for(auto& e : g.kids[n]) if (e.lbl==a.l) { if (e.obj==a.c && (e.to==g.sink || g.nodes[e.to]->isExact())) t=e.to; break;}
               if (a.to==X.sink) { if (t<0 || t!=g.sink) return bad(fmt("no cutset node covers a solution of value %.17g",nv)); continue;}
               if (t==g.sink) t=-1;
               auto [q,nw]=nx.emplace(std::make_pair(a.to,t),nv); if (!nw && m.better(nv,q->second)) q->second=nv;}
         }
         states(nx.size()); cur.swap(nx);}
   } else if (X.feasible && m.better(X.opt,x.p)) {
      double cov=m.none(); auto f=forward(m,g,x.sub->v);
      if (g.sink>=0) for(std::size_t i=0;i<g.nodes.size();i++) if (g.nodes[i]->isExact()) for(auto& e : g.kids[i]) if (e.to==g.sink && m.better(f[i]+e.obj,cov)) cov=f[i]+e.obj;
      for(auto& [s,k] : c) if (auto b=X.bestFrom(s)) if (m.betterEQ(k.bb,*b) && m.better(k.bd+*b,cov)) cov=k.bd+*b;
      if (!m.betterEQ(cov,X.opt)) return bad(fmt("the cutset only leads to %.17g, a solution of value %.17g exists",cov,X.opt));
   }
   return true;
}
enum Kind { KE,KR,KX }; static const char* kname[]={"exact","restricted","relaxed"};
static bool judge(const Ctx& x,AbstractDD::Ptr dd,const G& g,int kd,const Out* o,const std::string& pr) {
   bool all=pr=="C19"; bool r=true;
   if (pr=="C04" || (all && kd==KE)) r=r && exactCheck(x,dd,g) && (!o || applied(x,dd,*o,true));
   if (pr=="C05" || (all && kd==KR)) r=r && restrictedCheck(x,dd,g) && (!o || applied(x,dd,*o,true));
   if (pr=="C06" || (all && kd==KX)) r=r && relaxedCheck(x,dd,g) && (!o || applied(x,dd,*o,dd->isExact()));
   if (pr=="C20" || all) r=r && arcsOk(x,g);
   if (pr=="C07" || (all && kd==KX)) r=r && cutsetCheck(x,dd,g);
   return r;
}
static bool wants(int kd) { return prop=="C20" || prop=="C19" || (prop=="C04" && kd==KE) || (prop=="C05" && kd==KR) || ((prop=="C06" || prop=="C07") && kd==KX);}
static Cfg cfgAt(const Model& m,uint64_t i,unsigned w) {
   Cfg c=cfgFor(i,w); int nb=m.nbLabels();
   if (nb>8) { if (c.lk==LK_NATSET) c.lk=LK_GNSET; c.str=1; if (c.off>300) c.off=1;}
   if (nb>400) c.tab=200000;
   if (nb>2000) { c.off=0; c.lk=LK_GNSET;}
   if (c.hash==2 && nb>400) c.hash=0;
   return c;
}
static void diagrams(Model& m,uint64_t i,const std::vector<unsigned>& ws,int maxSubs,bool bigHash) {
   NoArena na; arenaOn=na.was;
   XG X0=exactGraph(m,m.init(),0);
   std::vector<Sub> subs{{m.init(),{},0,&X0}}; std::vector<std::unique_ptr<XG>> keep;
   // subproblems: every (size/maxSubs)-th reachable state, with a best way to it
   std::vector<int> cand; for(std::size_t k=1;k<X0.st.size();k++) if ((int)k!=X0.sink) cand.push_back(k);
   for(int q=0;q<maxSubs && !cand.empty();q++) {
      int k=cand[(uint64_t)q*cand.size()/maxSubs]; // trace a best way back
      std::vector<std::pair<int,int>> from(X0.st.size(),{-1,-1}); for(std::size_t a=0;a<X0.st.size();a++) for(auto& e : X0.out[a]) if (from[e.to].first<0 && X0.f[a]+e.c==X0.f[e.to]) from[e.to]={(int)a,e.l};
      Lab l; for(int at=k;at!=0;at=from[at].first) { if (from[at].first<0) { l.clear(); break;} l.push_back(from[at].second);} if (l.empty()) continue; std::reverse(l.begin(),l.end());
      keep.push_back(std::make_unique<XG>(exactGraph(m,X0.st[k],X0.f[k]))); subs.push_back({X0.st[k],l,X0.f[k],keep.back().get()});
   }
   for(std::size_t si=0;si<subs.size();si++) for(unsigned w : ws) for(int kd : {KE,KR,KX}) {
      if (!wants(kd) || (kd==KE && w!=ws[0]) || (kd==KX && m.nbLabels()>40000)) continue; // merging n states one after the other is quadratic
      const Sub& sub=subs[si]; std::vector<std::optional<double>> ps{std::nullopt}; if (sub.x->feasible && (m.hasLocal() || (i+si+w)%4==0)) ps.push_back(sub.x->opt+((int)((i+si+w)%5)-2)*0.25);
      for(auto& p : ps) {
         Scope sc; Cfg c=cfgAt(m,i*7+w+si,w); if (bigHash && c.hash) c.hash=0; useCfg(c); M=&m;
         Out o; Bounds b([&](const std::vector<int>& v) { o.inc.push_back(decL(v));}); auto dd=makeModelDD(m,c.lk); Exact ex; Restricted re(w); Relaxed rx(w);
         if (p) b.setPrimal(*p); else b.attach(dd);
         o.before=b.getPrimal(); dd->setStrategy(kd==KE ? (Strategy*)&ex : kd==KR ? (Strategy*)&re : (Strategy*)&rx);
         Ctx x{m,c,kname[kd],&sub,o.before}; bool via=si>0; AbstractDD::Ptr src;
         if (!via) dd->compute(b);
         else { // a node with the subproblem's state, bound and labels, the way the search hands it over
            src=makeModelDD(m,c.lk); Exact se; src->setStrategy(&se); Bounds sb; sb.attach(src); if (m.hasLocal()) sb.setPrimal(m.none()); src->compute(sb);
            ANode::Ptr nd=src->getRoot(); for(int l : sub.pfx) { ANode::Ptr t=nullptr; for(auto k=nd->beginKids();k!=nd->endKids();k++) { Edge::Ptr e=*k; if (dec(e->_lbl)==l) t=e->_to;} if (!t) { nd=nullptr; break;} nd=t;}
            if (!nd) { if (!m.hasLocal()) fail("a state is missing in the exact diagram"+x.show()); continue;}
            auto pool=src->makeNDAllocator(); auto cl=pool->cloneNode(nd); if (!cl) { fail("a new subproblem was refused"+x.show()); continue;}
            if (cl->getBound()!=sub.v) { fail(fmt("a best way to a state is worth %.17g, its node says %.17g",sub.v,cl->getBound())+x.show()); return;}
            o.improved=dd->apply(cl,b);
         }
         o.after=b.getPrimal(); G g=readGraph(m,dd); eval(); states(g.nodes.size()); for(auto& v : g.kids) trans(v.size());
         if (!judge(x,dd,g,kd,via ? &o : nullptr,prop)) return;
         trace(); uint64_t q=mix(mix(w,kd),g.nodes.size()); for(std::size_t n=0;n<g.nodes.size() && n<2000;n++) { auto& s=stateOf(g.nodes[n]); q=mix(mix(mix(q,s.d),s.x),s.y);} q=mixd(q,dd->currentOpt());
         if (distinct(q) && wantSample() && sh->evals%101==0) sample(fmt("%s diagram with %zu nodes, value %.17g",kname[kd],g.nodes.size(),dd->currentOpt())+x.show());
      }
   }
}
static void searches(Model& m,uint64_t i,const std::vector<unsigned>& ws,bool bigHash) {
   if (m.nbLabels()>40000) return;
   XG X=exactGraph(m,m.init(),0); Reference ref; ref.feasible=X.feasible; ref.opt=X.opt; ref.cnt=X.st.size(); ref.sg=mix(X.arcs,i);
   for(unsigned w : ws) {
      Cfg c=cfgAt(m,i*13+w,w); if (bigHash && c.hash) c.hash=0;
      std::optional<double> warm; if (X.feasible && (i+w)%3==1) warm=X.opt+((int)((i+w)%5)-2)*0.25;
      if (prop=="C03") { checkInterrupt(m,c,ref); continue;}
      if (prop=="C21") { checkProgress(m,c,ref,std::nullopt); continue;}
      for(int k=0;k<(warm?2:1);k++) { auto wm=k ? warm : std::nullopt; Run r=solve(m,c,wm); note(m,ref,c,r); trace();
         if (prop=="C01" || prop=="C08" || prop=="C19") if (!judgeOptimal(m,ref,c,r,wm)) return;
         if (prop=="C02" || prop=="C08") if (!judgeIncumbents(m,ref,c,r,wm)) return;}
   }
}
// ---- grids of instances -----------------------------------------------------------------------------
struct Grid { std::string name; uint64_t n; std::function<void(uint64_t,const std::function<void(Model&)>&)> gen; std::vector<unsigned> wd,wsr; int subs; bool big; bool stops; };
static const std::vector<std::vector<double>> costSets={ {0,1,2,3,5,8,13},{4194305,4194304.5,4194304.25,4194306},{-3,-1.5,-0.25,-7},{0x1p-20,0x3p-20,0x1p-19,0},{-2,0,2,100000.125},{0,0,1},{1,1+0x1p-40,1+0x1p-41,1-0x1p-40} };
static Walk walk(uint64_t i,int L,int N,int p0,std::vector<int> nl,std::vector<int> mul,std::vector<int> add,int holes) {
   Walk w; w.inst=i; w.maximize=i%2==0; w.L=L; w.N=N; w.p0=p0; w.holes=holes; w.costs=costSets[i/2%costSets.size()];
   for(int d=0;d<L;d++) { w.nl.push_back(nl[std::min<std::size_t>(d,nl.size()-1)]); w.mul.push_back(mul[std::min<std::size_t>(d,mul.size()-1)]); w.add.push_back(add[std::min<std::size_t>(d,add.size()-1)]);}
   w.prepare(); return w;
}
static const Opt rot[]={ {0,0,0},{1,0,0},{0,1,0},{2,2,0},{0,0,2},{4,0,0},{0,2,0},{3,1,0},{2,0,2} };
static std::vector<Grid> grids() {
   std::vector<Grid> g; bool t=thorough();
#ifdef VF_NOARENA
   const bool san=true;
#else
   const bool san=false;
#endif
   auto N=[&](uint64_t q,uint64_t th,uint64_t sn) { return san ? (t ? sn*6 : sn) : t ? th*(prop=="C03" ? 1 : 4) : q*(prop=="C03" ? 1 : 6);};
   g.push_back({"walks of 6 steps over 20 positions, 3 labels",N(120,3000,6),[](uint64_t i,auto& f) { auto w=walk(i,6,20,8,{3},{2},{-2},i%4*6); applyOpt(w,rot[i/12%9]); f(w);},{2,5,12},{2,5,20},4,false,true});
   g.push_back({"walks of 9 steps over 40 positions, 4 labels",N(60,1500,4),[](uint64_t i,auto& f) { auto w=walk(i,9,40,20,{4},{3,2,5},{-4,-3,-7},i%3*8); applyOpt(w,rot[i/12%9]); f(w);},{3,10,30},{3,10,30},3,false,false});
   g.push_back({"walks of 60 steps over 4 positions",N(36,600,3),[](uint64_t i,auto& f) { auto w=walk(i,60,4,1,{3},{1},{-1},i%3*4); applyOpt(w,rot[i/12%9]); f(w);},{1,2,3},{2,3,6},2,false,true});
   g.push_back({"walks of 300 steps over 3 positions",N(12,120,1),[](uint64_t i,auto& f) { auto w=walk(i,300,3,1,{2,3},{1},{-1},0); applyOpt(w,rot[i/2%9]); f(w);},{1,2,3},{2,3},1,false,false});
   g.push_back({"layers of 150 and 400 states",N(12,240,2),[](uint64_t i,auto& f) { int n=i%3==0 ? 400 : i%3==1 ? 150 : 129; auto w=walk(i,4,n,0,{n,3,2},{1,1,3},{0,-1,-1},0); applyOpt(w,rot[i/2%9]); if (w.domKind) w.domKind=2; f(w);},{64,100,128,140,500},{100,130,500},2,true,false});
   g.push_back({"more than a thousand nodes in three layers",N(6,60,1),[](uint64_t i,auto& f) { auto w=walk(i,4,500,0,{500,2,2},{1,1,5},{0,0,-2},0); static const Opt o[]={{0,0,0},{1,0,0},{2,0,2}}; applyOpt(w,o[i%3]); f(w);},{10,300,600,700},{300,600},1,true,false});
   g.push_back({"hundreds of labels",N(12,120,2),[](uint64_t i,auto& f) { static const int ns[]={63,64,65,127,128,129,192,255,256,257,320,1100}; int n=ns[i%12]; auto w=walk(i,3,n,0,{n,2},{1,1},{0,0},i%2*10); applyOpt(w,rot[i/12%9]); if (w.domKind) w.domKind=2; f(w);},{8,40,70},{8,40},2,true,false});
   if (!san && prop=="C05") g.push_back({"a layer of 70000 states, a width of 66000",1,[](uint64_t i,auto& f) { auto w=walk(i,2,70000,0,{70000,1},{1},{0},0); f(w);},{66000},{4},0,true,false});
   if (!san && prop=="C07") g.push_back({"more than 65536 nodes, wide layers",1,[](uint64_t i,auto& f) { auto w=walk(i,75,1000,0,{1000,2},{1,3},{0,-1},0); f(w);},{900},{900},0,true,false});
   if (!san) g.push_back({"tens of thousands of labels",(t ? 6 : 2),[](uint64_t i,auto& f) { int n=i%2 ? 70000 : 33000; auto w=walk(i,2,n,0,{n,1},{1},{0},0); if (i%3==2) applyOpt(w,Opt{1,0,0}); f(w);},{2,20},{4},0,true,false});
   g.push_back({"knapsacks of 12 to 16 items",N(60,1500,4),[](uint64_t i,auto& f) { Knapsack k; k.n=12+i%5; for(int j=0;j<k.n;j++) { uint64_t h=(i*131+j+1)*0x9e3779b97f4a7c15ull; h^=h>>31; k.w.push_back(1+h%9); k.p.push_back(1+(h>>8)%20+((h>>16)%4)*0.25);} k.cap=5+(i*7)%40; applyOpt(k,rot[i/5%9]); f(k);},{3,10,25},{3,10,25},3,false,true});
   g.push_back({"knapsacks of 30 items",N(10,200,1),[](uint64_t i,auto& f) { Knapsack k; k.n=30; for(int j=0;j<k.n;j++) { uint64_t h=(i*177+j+5)*0x9e3779b97f4a7c15ull; h^=h>>29; k.w.push_back(1+h%12); k.p.push_back(k.w[j]*3+(h>>8)%5);} k.cap=40+(i*17)%60; applyOpt(k,rot[i%9]); k.localKind=1; f(k);},{10,60,120},{20,60},2,false,false});
   g.push_back({"independent sets on 12 to 14 vertices",N(48,1200,4),[](uint64_t i,auto& f) { Misp k; k.n=12+i%3; k.adj.assign(k.n,0); for(int a=0;a<k.n;a++) { uint64_t h=(i*911+a+1)*0x9e3779b97f4a7c15ull; h^=h>>30; k.w.push_back(1+(h%8)*0.5); for(int b=a+1;b<k.n;b++) if ((h>>(8+b))%3==0 || b==a+1) { k.adj[a]|=1ull<<b; k.adj[b]|=1ull<<a;}} applyOpt(k,rot[i/3%9]); f(k);},{3,10,30},{3,10,30},3,false,true});
   g.push_back({"tsp on 6 and 7 cities",N(36,900,3),[](uint64_t i,auto& f) { Tsp t; t.n=6+i%2; t.dist.assign(t.n,std::vector<double>(t.n,-1)); for(int a=0;a<t.n;a++) for(int b=0;b<t.n;b++) if (a!=b) { uint64_t h=(i*1013+a*17+b+1)*0x9e3779b97f4a7c15ull; h^=h>>30; t.dist[a][b]=h%11==0 ? -1 : 1+(h>>8)%20+((h>>20)%4)*0.25;} applyOpt(t,rot[i/2%9]); f(t);},{4,15,40},{4,15,40},2,false,false});
   g.push_back({"colouring of graphs on 6 and 7 vertices",N(36,900,3),[](uint64_t i,auto& f) { Coloring k; k.n=6+i%2; uint64_t h=(i*733+1)*0x9e3779b97f4a7c15ull; h^=h>>30; setGraph(k.adj,k.n,h&(h>>23|h>>11)&0x1fffff); f(k);},{4,15,40},{4,15,40},2,false,false});
   return g;
}
static std::vector<Space> build() {
   std::vector<Space> s;
   bool dia=prop=="C04"||prop=="C05"||prop=="C06"||prop=="C07"||prop=="C20";
   for(auto& g : grids()) if (g.n) {
      if (prop=="C03" && !g.stops) continue;
      if (prop=="C08") { }
      uint64_t ch=1;
      if (dia || prop=="C19") s.push_back(Space{g.name+", diagrams",g.n,[g](uint64_t i) { mute(); g.gen(i,[&](Model& m) { diagrams(m,i,g.wd,g.subs,g.big);});},ch});
      if (!dia) s.push_back(Space{g.name+", searches",g.n,[g](uint64_t i) { mute(); g.gen(i,[&](Model& m) { searches(m,i,prop=="C03" ? std::vector<unsigned>{g.wsr[i%g.wsr.size()]} : g.wsr,g.big);});},ch});
   }
   return s;
}
int main(int argc,char** argv) {
   return drive(argc,argv,build,"finite grids of large instances (hundreds of layers or of states per layer, up to 70000 labels, costs needing full double precision), all visited, judged by a dynamic programme over the exact states; non-trivial: distinct by the nodes and value of the diagram, or by the incumbents of the search");
}
