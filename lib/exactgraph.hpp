// Reference for instances whose solutions are too many to list: the graph of exact states, the best value to every
// state and from every state to the sink.  Uses no library code.
#pragma once
#include "models.hpp"
#include <map>
struct XArc { int to,l; double c; };
struct XG {
   std::vector<S> st; std::map<S,int> id; std::vector<std::vector<XArc>> out; int sink=-1;
   std::vector<double> f,b; std::vector<char> reach;       // reach: the sink can be reached
   uint64_t arcs=0;
   double opt=0; bool feasible=false; unsigned width=0;    // width: largest number of states at one depth, sink excluded
   const double* bestFrom(const S& s) const { auto it=id.find(s); return it==id.end() || !reach[it->second] ? nullptr : &b[it->second];}
};
inline XG exactGraph(const Model& m,const S& s0,double v0) {
   XG g; auto of=[&](const S& s) { auto [it,n]=g.id.emplace(s,(int)g.st.size()); if (n) { g.st.push_back(s); g.out.emplace_back(); g.f.push_back(m.none());} return it->second;};
   of(s0); g.f[0]=v0;
   std::map<int,unsigned> w;
   for(std::size_t i=0;i<g.st.size();i++) {
      S s=g.st[i];
      if (m.sink(s)) { g.sink=i; continue;}
      if (i) g.width=std::max(g.width,++w[s.d]);
      int nb=m.nbLabelsAt(s);
      for(int l=0;l<nb;l++) if (m.offers(s,l)) {
         auto n=m.step(s,l); if (!n) continue;
         double c=m.cost(s,l); int t=of(*n); g.out[i].push_back({t,l,c}); g.arcs++;
         if (m.better(g.f[i]+c,g.f[t])) g.f[t]=g.f[i]+c;
      }
      if (g.st.size()>2000000) { fprintf(stderr,"reference: too many states\n"); _exit(3);}
   }
   g.b.assign(g.st.size(),m.none()); g.reach.assign(g.st.size(),0);
   if (g.sink>=0) { g.b[g.sink]=0; g.reach[g.sink]=1;}
   for(int i=(int)g.st.size()-1;i>=0;i--) for(auto& e : g.out[i]) if (e.to!=g.sink ? g.reach[e.to] : true) { double x=e.c+g.b[e.to]; if (!g.reach[i] || m.better(x,g.b[i])) g.b[i]=x; g.reach[i]=1;}
   g.feasible=g.reach[0]; g.opt=g.feasible ? v0+g.b[0] : m.none();
   return g;
}
