// C22: drawing and printing diagrams, under every availability of the programs it launches.
#include "bb.hpp"
#include <map>
#include <fstream>
#include <sys/stat.h>
using namespace vf;
// The file of the drawing: created as usual, but its name is noted so that it can be read and removed.
static char lastFile[512];
extern "C" int mkstemp(char* t) { int r=mkostemp(t,O_CLOEXEC); if (r>=0) strncpy(lastFile,t,sizeof lastFile-1); return r;}
static std::string dir() { static std::string d; if (d.empty()) { const char* t=getenv("VF_TMP"); d=std::string(t?t:"/tmp"); } return d;}
// state of a program: 0 missing, 1 works, 2 fails, 3 not executable, 4 killed by a signal
static std::string envDir(int dot,int op) { return dir()+fmt("/env%d%d",dot,op);}
static void script(const std::string& p,int kind,const char* name) {
   if (kind==0) return;
   std::ofstream o(p); o << "#!/bin/sh\necho \"" << name << " $@\" >> \"$VF_REC\"\n"; if (kind==2) o << "exit 3\n"; if (kind==4) o << "kill -9 $$\n"; o.close();
   chmod(p.c_str(),kind==3 ? 0644 : 0755);
}
static void mkEnvs() { for(int d=0;d<5;d++) for(int o=0;o<5;o++) { std::string e=envDir(d,o); if (mkdir(e.c_str(),0755)==0) { script(e+"/dot",d,"dot"); script(e+"/open",o,"open");}}}
static std::string slurp(const std::string& f) { std::ifstream i(f); std::stringstream s; s << i.rdbuf(); return s.str();}
static unsigned openFiles() { unsigned n=0; for(int f=0;f<1024;f++) n+=fcntl(f,F_GETFD)!=-1; return n;}
static std::string show(AbstractDD::Ptr dd,ANode* n) { std::ostringstream o; dd->printNode(o,n); return o.str();}
// what a diagram must show: nodes, arcs
struct Picture { std::vector<ANode*> q; std::multiset<std::string> nodes,arcs; unsigned narcs=0; };
static Picture look(const Model& m,AbstractDD::Ptr dd) {
   Picture p; p.q.push_back(dd->getRoot().get()); std::map<ANode*,int> idx{{p.q[0],0}};
   for(std::size_t k=0;k<p.q.size();k++) for(auto e=p.q[k]->beginKids();e!=p.q[k]->endKids();e++) { Edge::Ptr x=*e; if (idx.emplace(x->_to.get(),(int)p.q.size()).second) p.q.push_back(x->_to.get());}
   for(auto n : p.q) { bool snk=m.sink(stateOf(n)); p.nodes.insert("\""+show(dd,n)+"\" [fillcolor=\""+(n->isExact()?"green":"red")+"\""+(snk?",shape=box,color=black":"")+"];");
      for(auto e=n->beginKids();e!=n->endKids();e++) { Edge::Ptr x=*e; p.narcs++; std::ostringstream o; o << "\"" << show(dd,n) << "\" ->\"" << show(dd,x->_to.get()) << "\" [ label=\"" << x->_obj << "(" << x->_lbl << ")\" ];"; p.arcs.insert(o.str());}}
   return p;
}
// how: 0 compiled once; 1 compiled again after an exact one; 2 the subproblem below the first label of the root; 3 drawn twice
static void one(Model& m,uint64_t i,int kind,unsigned w,int dot,int op,int how=0) {
   Scope sc; Cfg c=cfgFor(i,w); if (m.nbLabels()>8) { c.lk=LK_GNSET; c.off=0; c.str=1;} useCfg(c); M=&m; auto dd=makeModelDD(m,c.lk); Exact ex; Restricted re(w); Relaxed rx(w); Bounds b; b.attach(dd);
   Strategy* st=kind==0 ? (Strategy*)&ex : kind==1 ? (Strategy*)&re : (Strategy*)&rx; bool again=how==3;
   if (how==1 || how==2) {
      auto src=makeModelDD(m,c.lk); Exact se; src->setStrategy(&se); Bounds sb; sb.attach(src); src->compute(sb); ANode::Ptr nd=src->getRoot();
      if (how==2) { if (nd->nbChildren()==0) return; Edge::Ptr e=*nd->beginKids(); if (m.sink(stateOf(e->_to))) return; nd=e->_to;}
      auto pool=src->makeNDAllocator(); auto cl=pool->cloneNode(nd);
      if (how==1) { dd->setStrategy(&ex); Bounds b1; b1.attach(dd); dd->apply(cl,b1);}
      dd->setStrategy(st); dd->apply(cl,b);
   } else { dd->setStrategy(st); dd->compute(b);}
   auto bad=[&](const std::string& t) { fail(t+fmt(" [diagram %d width %u, dot %d, open %d, used %d] ",kind,w,dot,op,how)+m.show()); };
   redo:
   Picture pic=look(m,dd); auto& q=pic.q; auto& nodes=pic.nodes; auto& arcs=pic.arcs; unsigned narcs=pic.narcs;
   std::string rec=dir()+fmt("/rec%d",(int)getpid()), ret=dir()+fmt("/ret%d",(int)getpid());
   unlink(rec.c_str()); unlink(ret.c_str()); lastFile[0]=0;
   std::string path=envDir(dot,op); const char* old=getenv("PATH"); std::string keep=old?old:"";
   setenv("PATH",path.c_str(),1); setenv("VF_REC",rec.c_str(),1);
   pid_t me=getpid(); std::ostringstream out;
   fflush(stdout); unsigned open0=openFiles();
   dd->print(out,"x");
   unsigned open1=openFiles();
   { int fd=open(ret.c_str(),O_WRONLY|O_CREAT|O_APPEND,0644); if (write(fd,"r",1)!=1) {} close(fd);}
   if (getpid()!=me) _exit(77);                       // a child came back from the call
   setenv("PATH",keep.c_str(),1);
   while(waitpid(-1,nullptr,0)>0) {}
   std::string returns=slurp(ret), recd=slurp(rec), file=lastFile, text=file.empty() ? "" : slurp(file);
   unlink(rec.c_str()); unlink(ret.c_str()); if (!file.empty()) { unlink(file.c_str()); unlink((file+".pdf").c_str());}
   eval(); trans(narcs); states(q.size());
   if (open1!=open0) { bad(fmt("%u files were open before drawing, %u are afterwards",open0,open1)); return;}
   if (returns.size()!=1) { bad(fmt("the call returned %zu times",returns.size())); return;}
   bool ranDot=recd.find("dot ")!=std::string::npos, ranOpen=recd.find("open ")!=std::string::npos;
   bool canDot=dot==1||dot==2||dot==4, canOpen=op==1||op==2||op==4;
   if (ranDot!=canDot) { bad("dot was not run exactly when it can be"); return;}
   if (!canOpen && ranOpen) { bad("open"); return;}
   if (dot==1 && ranOpen!=canOpen) { bad("the viewer was not run"); return;}
   if (ranDot && !file.empty() && recd.find(file)==std::string::npos) { bad("dot was not given the file: "+recd); return;}
   if (!file.empty()) {
      std::istringstream is(text); std::string line; std::multiset<std::string> gn,ga; bool head=false,tail=false;
      while(std::getline(is,line)) { if (line.rfind("digraph ",0)==0) { head=true; continue;} if (line=="}") { tail=true; continue;} if (line.rfind("label=",0)==0 || line.rfind(" node ",0)==0) continue; (line.find("\" ->\"")!=std::string::npos ? ga : gn).insert(line);}
      if (!head || !tail) { bad("the drawing is not a complete graph description"); return;}
      // the sink belongs to every diagram, also when no path reaches it
      bool reached=false; for(auto n : q) reached=reached||m.sink(stateOf(n));
      if (!reached && gn.size()==nodes.size()+1) for(auto x=gn.begin();x!=gn.end();x++) if (x->find("shape=box")!=std::string::npos) { gn.erase(x); break;}
      if (gn!=nodes) { std::string d; for(auto& x : gn) if (!nodes.count(x)) d+=x+" "; d+="/ missing: "; for(auto& x : nodes) if (!gn.count(x)) d+=x+" "; bad(fmt("%zu nodes drawn, %zu in the diagram; unexpected: ",gn.size(),nodes.size())+d.substr(0,500)); return;}
      if (ga!=arcs) { std::string d; for(auto& x : ga) if (!arcs.count(x)) d+=x+" "; d+="/ missing: "; for(auto& x : arcs) if (!ga.count(x)) d+=x+" "; bad(fmt("%zu arcs drawn, %zu in the diagram; unexpected: ",ga.size(),arcs.size())+d.substr(0,500)); return;}
   }
   // the printed arcs, in an order where everything into a node comes before what leaves it
   std::istringstream is(out.str()); std::string line; unsigned np=0; std::map<std::string,int> want; 
   std::map<std::string,std::pair<ANode*,ANode*>> byText;
   for(auto n : q) for(auto e=n->beginKids();e!=n->endKids();e++) { Edge::Ptr x=*e; std::ostringstream o; o << "EDGE:" << *x; want[o.str()]++; byText[o.str()]={n,x->_to.get()};}
   std::map<ANode*,unsigned> in; 
   while(std::getline(is,line)) { np++; if (want[line]--<=0) { bad("an arc is printed that is not in the diagram, or twice: "+line); return;}
      if (byText.size()==narcs) { auto [f,t]=byText[line]; if (in[f]!=f->nbParents()) { bad("an arc out of a node is printed before an arc into it: "+line); return;} in[t]++;} }
   if (np!=narcs) { bad(fmt("%u arcs printed, %u in the diagram",np,narcs)); return;}
   { Picture p2=look(m,dd); if (p2.nodes!=nodes || p2.arcs!=arcs) { bad("drawing changes the diagram"); return;}}
   if (again) { again=false; goto redo;}
   trace();
   if (narcs>1) { uint64_t h=mix(mix(dot,op),kind); for(char ch : text) h=mix(h,ch); if (distinct(h) && wantSample() && i%37==5) sample(text.substr(0,500));}
}
static std::vector<Space> build() {
   std::vector<Space> s; mkEnvs(); bool t=thorough();
   auto add=[&](const Family& f,std::vector<unsigned> ws,bool envs) {
      s.push_back(Space{f.name+(envs?", every availability of the programs":", rotating availability"),envs ? f.n*25 : f.n,[=](uint64_t i) { mute(); uint64_t k=envs ? i/25 : i; int e=envs ? i%25 : (i*7)%25;
         f.gen(k,[&](Model& m) { if (auto a=dynamic_cast<Automaton*>(&m)) { a->mergeKind=k%3==2 ? 2 : 0;} int n=0; for(int kind : {0,1,2}) for(unsigned w : ws) { if (kind==0 && w!=ws[0]) continue; n++; one(m,k,kind,w,(e/5+(envs?0:n))%5,(e+(envs?0:n))%5,envs ? 0 : (k+n)%4);} });},envs ? 5u : 20u});
   };
   // bounds, dominance tests and merging: nodes that are dropped or replaced must not be drawn
   static const Opt opts[]={{0,1,0},{0,2,0},{1,0,0},{2,1,2},{0,2,1}};
   auto addOpt=[&](const Family& f,std::vector<unsigned> ws,std::vector<int> os) {
      s.push_back(Space{f.name+", bounds, dominance, partial merging",f.n*os.size(),[=](uint64_t i) { mute(); uint64_t k=i/os.size();
         f.gen(k,[&](Model& m) { applyOpt(m,opts[os[i%os.size()]]); int n=0; for(int kind : {0,1,2}) for(unsigned w : ws) { if (kind==0 && w!=ws[0]) continue; n++; one(m,k,kind,w,(i*7+n)/5%5,(i*7+n)%5,(k+n)%4);} });},20u});
   };
   addOpt(knapsacks(4,1,2,3),{2,3,5},{0,1,3});
   addOpt(allAutomata(2,2,2,{1},true,true),{1,2,3},{0,1,2,3,4});
   addOpt(misps(3,{1,2}),{2,3},{0,2});
   // more nodes than any table starts with
   { int nw=t ? 24 : 6;
   s.push_back(Space{"more than a thousand nodes",(uint64_t)nw*3,[](uint64_t i) { mute(); Walk w; w.inst=i/3; w.maximize=i%2==0; w.L=4; w.N=500+i/3%3*7; w.p0=0; w.holes=0; w.costs={0,1,2,3,5,8,13}; static const int nl[]={500,2,2,2},mul[]={1,1,5,1},ad[]={0,0,-2,0}; for(int d=0;d<4;d++) { w.nl.push_back(nl[d]); w.mul.push_back(mul[d]); w.add.push_back(ad[d]);} w.prepare(); applyOpt(w,i/3%2 ? Opt{0,2,0} : Opt{0,0,0}); one(w,i,i%3,i%3==2 ? 420 : 480,1,1,i/3%4);},1u}); }
   add(colorings(3),{1,2},true);
   add(knapsacks(3,1,2,3),{1,2},false);
   add(colorings(4),{1,2,3},false);
   add(misps(3,{1,2}),{1,2},false);
   add(tsps(4,{1,-1},true),{1,2},false);
   if (t) { addOpt(knapsacks(4,2,2,5),{2,3,5},{0,1,2,3,4}); addOpt(completeAutomata(3,2,2,0,1,true),{2,3},{0,1,4}); add(colorings(4),{1,2},true); add(misps(4,{1,2}),{1,2,3},false); add(tsps(4,{1,2,-1},true),{1,2,3},false); add(allAutomata(2,2,2,{1},true),{1,2},false); add(knapsacks(3,2,2,4),{1,2},false);}
   return s;
}
int main(int argc,char** argv) {
   return drive(argc,argv,build,"every diagram (exact, restricted, relaxed) of the listed finite families drawn and printed by the real code with the launched programs replaced by stand-ins that are missing, working, failing, not executable or killed; non-trivial: at least two arcs (distinct by drawing and availability)");
}
