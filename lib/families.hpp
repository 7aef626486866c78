// Finite families of models; case i of a family is decoded from i, so a family is enumerated completely.
#pragma once
#include "models.hpp"
#include "vf.hpp"

struct Dec { // mixed-radix decoder
   uint64_t v;
   int take(int base) { int r = v % base; v /= base; return r;}
};
struct Family {
   std::string name;
   uint64_t n;
   std::function<void(uint64_t,const std::function<void(Model&)>&)> gen;
};
inline uint64_t ipow(uint64_t b,int e) { uint64_t r=1; while(e--) r*=b; return r;}

// Every automaton with L layers, k nodes per layer, m labels whose arcs are absent or (target, cost in costs).
inline Family allAutomata(int L,int k,int m,std::vector<double> costs,bool maximize,bool stops=false) {
   int nc=costs.size();
   uint64_t n=1;
   for(int d=0;d<L;d++) {
      int w=d==0?1:k; int o=d==L-1 ? 1+nc : 1+k*nc;
      n*=ipow(o,w*m); if (stops) n*=ipow(1+nc,w);
   }
   return {vf::fmt("automata L=%d k=%d m=%d costs=%d %s%s",L,k,m,nc,maximize?"max":"min",stops?" early-stop":""),n,
      [=](uint64_t i,const std::function<void(Model&)>& f) {
         Automaton a(L,k,m); a.maximize=maximize; Dec d{i};
         for(int l=0;l<L;l++) for(int v=0;v<a.width(l);v++) {
            for(int b=0;b<m;b++) {
               int q=d.take(l==L-1 ? 1+nc : 1+k*nc);
               if (q) { q--; a.c[l][v][b]=costs[q%nc]; a.to[l][v][b]=q/nc;}
            }
            if (stops) { int q=d.take(1+nc); if (q) { a.stop[l][v]=true; a.sc[l][v]=costs[q-1];}}
         }
         a.anyStop=stops;
         a.prepare(); f(a);
      }};
}
// Complete automata (all arcs present): every target assignment up to renaming (the first arc of each layer
// goes to node 0) x every cost assignment from two values.
inline Family completeAutomata(int L,int k,int m,double c0,double c1,bool maximize) {
   int arcs=0,free=0;
   for(int d=0;d<L;d++) { int w=d==0?1:k; arcs+=w*m; if (d<L-1) free+=w*m-1;}
   return {vf::fmt("complete automata L=%d k=%d m=%d costs {%g,%g} %s",L,k,m,c0,c1,maximize?"max":"min"),ipow(k,free)<<arcs,
      [=](uint64_t i,const std::function<void(Model&)>& f) {
         Automaton a(L,k,m); a.maximize=maximize; Dec d{i};
         for(int l=0;l<L;l++) for(int v=0;v<a.width(l);v++) for(int b=0;b<m;b++) {
            a.to[l][v][b] = (l==L-1 || (v==0 && b==0)) ? 0 : d.take(k);
            a.c[l][v][b] = d.take(2) ? c1 : c0;
         }
         a.prepare(); f(a);
      }};
}
// Complete automata whose costs differ from c0 on at most two arcs; the root reaches every node of layer 1.
inline Family sparseCostAutomata(int L,int k,double c0,double c1,double c2,bool maximize) {
   int m=k,arcs=0,free=0;
   for(int d=0;d<L;d++) { int w=d==0?1:k; arcs+=w*m; if (d>0 && d<L-1) free+=w*m;}
   uint64_t cc=1+arcs+arcs*(arcs-1)/2;
   return {vf::fmt("complete automata L=%d k=%d m=%d, <=2 arcs off base cost, %s",L,k,m,maximize?"max":"min"),ipow(k,free)*cc,
      [=](uint64_t i,const std::function<void(Model&)>& f) {
         Automaton a(L,k,m); a.maximize=maximize; uint64_t cp=i%cc; Dec d{i/cc};
         int x=-1,y=-1;
         if (cp>0 && cp<=(uint64_t)arcs) x=cp-1;
         else if (cp) { cp-=arcs+1; x=0; while(cp>=(uint64_t)(arcs-1-x)) { cp-=arcs-1-x; x++;} y=x+1+cp;}
         int e=0;
         for(int l=0;l<L;l++) for(int v=0;v<a.width(l);v++) for(int b=0;b<m;b++,e++) {
            a.to[l][v][b] = l==L-1 ? 0 : l==0 ? b : d.take(k);
            a.c[l][v][b] = e==x ? c1 : e==y ? c2 : c0;
         }
         a.prepare(); f(a);
      }};
}
// Acyclic graphs on n nodes: every arc absent or (any later node, cost), every node may stop or not.
inline Family dags(int n,int m,std::vector<double> costs,std::vector<double> stops,bool maximize) {
   int nc=costs.size(),ns=stops.size(); uint64_t tot=1; for(int v=0;v<n;v++) { if (v<n-1) tot*=ipow(1+(n-1-v)*nc,m); if (v) tot*=v==n-1 ? ns : 1+ns;}
   return {vf::fmt("graphs n=%d m=%d costs=%d stops=%d %s",n,m,nc,ns,maximize?"max":"min"),tot,
      [=](uint64_t i,const std::function<void(Model&)>& f) { Dag a(n,m); a.maximize=maximize; Dec d{i};
         for(int v=0;v<n;v++) { if (v<n-1) for(int l=0;l<m;l++) { int q=d.take(1+(n-1-v)*nc); if (q) { q--; a.c[v][l]=costs[q%nc]; a.to[v][l]=v+1+q/nc;}}
            if (v) { int q=v==n-1 ? 1+d.take(ns) : d.take(1+ns); if (q) { a.stop[v]=true; a.sc[v]=stops[q-1];}}}
         a.prepare(); f(a);}};
}
inline Family knapsacks(int n,int mw,int mp,int mcap) {
   return {vf::fmt("knapsack n=%d w<=%d p<=%d cap<=%d",n,mw,mp,mcap),ipow(mw*mp,n)*(mcap+1),
      [=](uint64_t i,const std::function<void(Model&)>& f) {
         Knapsack k; k.n=n; Dec d{i}; k.cap=d.take(mcap+1);
         for(int j=0;j<n;j++) { k.w.push_back(1+d.take(mw)); k.p.push_back(1+d.take(mp));}
         f(k);
      }};
}
inline void setGraph(std::vector<uint64_t>& adj,int n,uint64_t g) {
   adj.assign(n,0); int e=0;
   for(int i=0;i<n;i++) for(int j=i+1;j<n;j++,e++) if (g>>e&1) { adj[i]|=1ull<<j; adj[j]|=1ull<<i;}
}
inline Family misps(int n,std::vector<double> w) {
   int ne=n*(n-1)/2; int nw=w.size();
   return {vf::fmt("independent sets: all graphs on %d vertices x %d weights",n,nw),(1ull<<ne)*ipow(nw,n),
      [=](uint64_t i,const std::function<void(Model&)>& f) {
         Misp k; k.n=n; setGraph(k.adj,n,i & ((1ull<<ne)-1)); Dec d{i>>ne};
         for(int j=0;j<n;j++) k.w.push_back(w[d.take(nw)]);
         f(k);
      }};
}
inline Family tsps(int n,std::vector<double> ds,bool symmetric) {
   int na= symmetric ? n*(n-1)/2 : n*(n-1); int nd=ds.size();
   return {vf::fmt("tsp: all %s distance matrices on %d cities over %d values",symmetric?"symmetric":"asymmetric",n,nd),ipow(nd,na),
      [=](uint64_t i,const std::function<void(Model&)>& f) {
         Tsp t; t.n=n; t.dist.assign(n,std::vector<double>(n,-1)); Dec d{i};
         for(int a=0;a<n;a++) for(int b=0;b<n;b++) if (a!=b) {
            if (symmetric && b<a) t.dist[a][b]=t.dist[b][a];
            else t.dist[a][b]=ds[d.take(nd)];
         }
         f(t);
      }};
}
inline Family colorings(int n) {
   int ne=n*(n-1)/2;
   return {vf::fmt("colouring: all graphs on %d vertices",n),1ull<<ne,
      [=](uint64_t i,const std::function<void(Model&)>& f) { Coloring k; k.n=n; setGraph(k.adj,n,i); f(k);}};
}

// Optional features of a model (bounds, dominance, partial merging).
struct Opt { int local,dom,merge,live=0; };
inline void applyOpt(Model& m,const Opt& o) {
   if (auto a=dynamic_cast<Automaton*>(&m)) { a->localKind=o.local; a->domKind=o.dom; a->mergeKind=o.merge; a->liveKind=o.live; a->prepare();}
   else if (auto g=dynamic_cast<Dag*>(&m)) { g->localKind=o.local; g->domKind=o.dom; g->mergeKind=o.merge; g->prepare();}
   else if (auto k=dynamic_cast<Knapsack*>(&m)) { k->localKind=o.local>0; k->domKind=o.dom>0; k->mergeKind=o.merge==2;}
   else if (auto s=dynamic_cast<Misp*>(&m)) { s->localKind=o.local>0; s->domKind=o.dom>0;}
   else if (auto t=dynamic_cast<Tsp*>(&m)) t->localKind=o.local>0;
   else if (auto w=dynamic_cast<Walk*>(&m)) { w->localKind=o.local; w->domKind=o.dom; w->mergeKind=o.merge;}
}
// Engine configuration.
struct Cfg {
   unsigned w; std::size_t tab; int q; int hash; LabelKind lk; int off=0,str=1;
   std::string show() const { return vf::fmt("width=%u table=%zu queue=%d hash=%d labels=%d(%d+%d*l)",w,tab,q,hash,(int)lk,off,str);}
};
inline void useCfg(const Cfg& c) { coddVerifTableSize=c.tab; extern int coddVerifQueueSize; coddVerifQueueSize=c.q; gHashMode=c.hash; gOff=c.off; gStr=c.str;}
// The configuration dimensions that must not matter (table sizes, hash quality, queue capacity, label container)
// rotate with the case number, so every value meets every part of a family.
inline Cfg cfgFor(uint64_t i,unsigned w) {
   static const std::size_t tabs[]={2,547,2}; static const int qs[]={1,2,3,64,5};
   uint64_t h=i*0x9e3779b97f4a7c15ull; h^=h>>29;
   Cfg c{w,tabs[h%3],qs[(h>>8)%5],(int)((h>>16)%3),(LabelKind)((h>>24)%4)};
   // how labels are numbered: from 0, across a word of the bit sets, far apart, beyond 16 bits
   static const int offs[]={0,0,62,0,300,0,63,32766}, strs[]={1,1,1,61,1,1,1,1};
   int k=(h>>32)%8; if (k==7 && (h>>40)%16) k=2;
   if (c.lk==LK_NATSET) { if (k>1) c.off=56;}
   else { c.off=offs[k]; if (c.lk==LK_GNSET) c.str=strs[k];}
   return c;
}
