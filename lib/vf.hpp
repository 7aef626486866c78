// Driver of the exhaustive checks.
//
// A check is a list of finite spaces; case i of a space is decoded from its index, run on the real code and
// judged against the reference.  All indices are visited (no sampling).  Indices are cut into chunks; each
// chunk runs in a freshly forked process, so a crash, a hang or global state left by one chunk cannot hide in
// another and a chunk is a deterministic unit of replay.  A violation is run again, alone and then with its
// chunk, before it is reported.
#pragma once
#include <atomic>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <chrono>
#include <iostream>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>

#ifdef VF_NOARENA
inline void arenaBegin() {} inline void arenaEnd() {} inline bool arenaOn=false;
inline std::size_t arenaMark() { return 0;} inline void arenaRelease(std::size_t) {}
#else
void arenaBegin(); void arenaEnd(); extern bool arenaOn; std::size_t arenaMark(); void arenaRelease(std::size_t);
#endif

namespace vf {
struct NoArena { bool was; NoArena() : was(arenaOn) { arenaOn=false;} ~NoArena() { arenaOn=was;} };

// Memory taken inside a scope is dropped when it ends (results that outlive it are built under NoArena).
struct Scope { std::size_t m; Scope() : m(arenaMark()) {} ~Scope() { arenaRelease(m);} };

inline uint64_t mix(uint64_t h,uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h<<6) + (h>>2); h*=0xff51afd7ed558ccdull; return h ^ (h>>32);}
inline uint64_t mixd(uint64_t h,double d) { uint64_t v; memcpy(&v,&d,8); return mix(h,v);}

struct Space {
   std::string name;
   uint64_t n;
   std::function<void(uint64_t)> fn;
   uint64_t chunk = 0;
};
struct Viol { int space; uint64_t idx, from; int kind; char msg[1800]; };   // kind 0 mismatch, 1 crash, 2 hang
struct Slot { std::atomic<uint64_t> idx,beat; };
struct Shared {
   std::atomic<uint64_t> evals,states,trans,traces,cases,distinct,nontrivial,aux[16];
   std::atomic<int> nviol,nsamples,capped;
   Viol viol[32];
   char samples[40][600];
   Slot slot[64];
};
inline constexpr uint64_t DSZ = 1ull<<23;
inline Shared* sh;
inline std::atomic<uint64_t>* dset;
inline int curSpace,curSlot; inline uint64_t curIdx,curFrom; inline bool replaying=false,failedNow=false;
inline std::string prop,tier;
inline bool thorough() { return tier=="thorough";}

// --- called from inside a case -----------------------------------------------------------------
inline void eval(uint64_t k=1) { sh->evals.fetch_add(k,std::memory_order_relaxed);}
inline void states(uint64_t k) { sh->states.fetch_add(k,std::memory_order_relaxed);}
inline void trans(uint64_t k)  { sh->trans.fetch_add(k,std::memory_order_relaxed);}
inline void trace(uint64_t k=1) { sh->traces.fetch_add(k,std::memory_order_relaxed);}
inline void aux(int i,uint64_t k=1) { sh->aux[i].fetch_add(k,std::memory_order_relaxed);}
// registers one non-trivial outcome; returns true the first time it is seen
inline bool distinct(uint64_t h) {
   sh->nontrivial.fetch_add(1,std::memory_order_relaxed);
   if (h==0) h=1;
   uint64_t p = h & (DSZ-1);
   for(int k=0;k<64;k++,p=(p+1)&(DSZ-1)) {
      uint64_t cur = dset[p].load(std::memory_order_relaxed);
      if (cur==h) return false;
      if (cur==0) { uint64_t z=0; if (dset[p].compare_exchange_strong(z,h)) { sh->distinct++; return true;} if (z==h) return false;}
   }
   sh->capped=1;
   return false;
}
inline void sample(const std::string& s) {
   NoArena na;
   int k = sh->nsamples.load();
   if (k >= 12) return;
   k = sh->nsamples.fetch_add(1);
   if (k < 12) { strncpy(sh->samples[k],s.c_str(),599);}
}
inline bool wantSample() { return sh->nsamples.load(std::memory_order_relaxed) < 12;}
inline void fail(const std::string& m) {
   failedNow = true;
   if (replaying) { fprintf(stderr,"MISMATCH %s\n",m.c_str()); fflush(stderr);}
   int k = sh->nviol.fetch_add(1);
   if (k < 32) {
      Viol& v = sh->viol[k];
      v.space=curSpace; v.idx=curIdx; v.from=curFrom; v.kind=0;
      strncpy(v.msg,m.c_str(),sizeof(v.msg)-1);
   }
}
inline std::string fmt(const char* f,...) {
   char b[1500]; va_list a; va_start(a,f); vsnprintf(b,sizeof b,f,a); va_end(a); return b;
}
// --- driver --------------------------------------------------------------------------------------
inline void runOne(const Space& s,uint64_t i) {
   curIdx=i;
   arenaBegin();
   s.fn(i);
   arenaEnd();
   sh->cases.fetch_add(1,std::memory_order_relaxed);
}
inline void quietChild() {
   struct rlimit rl { 0,0 }; setrlimit(RLIMIT_CORE,&rl);
#ifndef VF_NOARENA
   struct rlimit as { 6ull<<30,6ull<<30 }; setrlimit(RLIMIT_AS,&as);
#endif
   if (!replaying && !getenv("VF_DEBUG")) { int fd=open("/dev/null",O_WRONLY); dup2(fd,1); if(!getenv("VF_STDERR")) dup2(fd,2);}
}
inline std::string jesc(const std::string& s) {
   std::string o; for(unsigned char c : s) { if (c=='"'||c=='\\') { o+='\\';o+=c;} else if (c=='\n') o+="\\n"; else if (c<32) o+=' '; else o+=c;} return o;
}
// runs indices [from,to] of a space in a fresh process; 0 quiet, 1 mismatch, 2 crash, 3 hang
inline int isolated(const std::vector<Space>& sp,int s,uint64_t from,uint64_t to,double limit) {
   int before = sh->nviol.load();
   pid_t c = fork();
   if (c==0) {
      quietChild(); curSpace=s; curFrom=from;
      for(uint64_t i=from;i<=to;i++) { failedNow=false; runOne(sp[s],i);}
      _exit(failedNow ? 11 : 0);
   }
   auto t0=std::chrono::steady_clock::now(); int st=0;
   for(;;) {
      if (waitpid(c,&st,WNOHANG)==c) break;
      if (std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count() > limit) { kill(c,SIGKILL); waitpid(c,&st,0); sh->nviol=before; return 3;}
      usleep(2000);
   }
   sh->nviol=before;
   if (WIFSIGNALED(st)) return 2;
   if (WEXITSTATUS(st)==11) return 1;
   return WEXITSTATUS(st)==0 ? 0 : 2;
}

inline int drive(int argc,char** argv,const std::function<std::vector<Space>()>& build,const std::string& rule) {
   // argv: prop tier out.json [--replay space idx from]
   if (argc < 4) { fprintf(stderr,"usage: %s PROP TIER OUT [--replay SPACE IDX FROM]\n",argv[0]); return 2;}
   prop=argv[1]; tier=argv[2];
   sh=(Shared*)mmap(nullptr,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
   dset=(std::atomic<uint64_t>*)mmap(nullptr,DSZ*8,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
   auto spaces = build();
   if (argc >= 8 && !strcmp(argv[4],"--replay")) {
      replaying=true;
      int s=-1; for(unsigned i=0;i<spaces.size();i++) if (spaces[i].name==argv[5]) s=i;
      if (s<0) { fprintf(stderr,"no such space\n"); return 2;}
      int r = isolated(spaces,s,strtoull(argv[7],0,10),strtoull(argv[6],0,10),900);
      printf("replay: %s\n",r==0 ? "property holds on this case" : r==1 ? "VIOLATED" : r==2 ? "CRASH" : "HANG");
      return r ? 1 : 0;
   }
   const char* only=getenv("VF_SPACE");
   auto t0=std::chrono::steady_clock::now();
   auto now=[&]{ return std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count();};
   int W = getenv("VF_JOBS") ? atoi(getenv("VF_JOBS")) : 8;
   struct Job { pid_t pid=0; int s; uint64_t from,to; uint64_t lastBeat=0; double lastT=0; };
   std::vector<Job> jobs(W);
   unsigned s=0; uint64_t at=0; int running=0; int crashes=0;
   std::vector<double> spaceT(spaces.size(),0);
   std::vector<uint64_t> spaceN; for(auto& x : spaces) spaceN.push_back(x.n);
   double hangLimit = getenv("VF_HANG") ? atof(getenv("VF_HANG")) : 60;
   bool stop=false;
   auto addViol=[&](int sp,uint64_t idx,uint64_t from,int kind,const std::string& m) {
      int k=sh->nviol.fetch_add(1);
      if (k<32) { Viol& v=sh->viol[k]; v.space=sp;v.idx=idx;v.from=from;v.kind=kind; strncpy(v.msg,m.c_str(),sizeof(v.msg)-1);}
   };
   while (true) {
      for(int w=0;w<W && !stop;w++) if (!jobs[w].pid) {
         while (s<spaces.size() && (at>=spaces[s].n || (only && spaces[s].name.find(only)==std::string::npos))) { s++; at=0;}
         if (s>=spaces.size()) break;
         uint64_t ch = spaces[s].chunk ? spaces[s].chunk : std::max<uint64_t>(1,std::min<uint64_t>(20000,spaces[s].n/64));
         Job j; j.s=s; j.from=at; j.to=std::min(spaces[s].n,at+ch)-1; at=j.to+1;
         sh->slot[w].beat=0; sh->slot[w].idx=j.from;
         j.lastT=now();
         fflush(stdout); fflush(stderr);
         pid_t c=fork();
         if (c==0) {
            quietChild(); curSpace=j.s; curFrom=j.from; curSlot=w;
            for(uint64_t i=j.from;i<=j.to;i++) {
               sh->slot[w].idx.store(i,std::memory_order_relaxed); sh->slot[w].beat.fetch_add(1,std::memory_order_relaxed);
               runOne(spaces[j.s],i);
               if (sh->nviol.load(std::memory_order_relaxed) > 20) break;
            }
            _exit(0);
         }
         j.pid=c; jobs[w]=j; running++;
      }
      if (!running) break;
      int st; pid_t c=waitpid(-1,&st,WNOHANG);
      if (c<=0) {
         usleep(500);
         for(int w=0;w<W;w++) if (jobs[w].pid) {
            auto b=sh->slot[w].beat.load();
            if (b!=jobs[w].lastBeat) { jobs[w].lastBeat=b; jobs[w].lastT=now();}
            else if (now()-jobs[w].lastT > hangLimit) {
               kill(jobs[w].pid,SIGKILL); waitpid(jobs[w].pid,&st,0);
               addViol(jobs[w].s,sh->slot[w].idx.load(),jobs[w].from,2,"the call did not return");
               jobs[w].pid=0; running--; crashes++;
               if (crashes>3) stop=true;
            }
         }
         continue;
      }
      for(int w=0;w<W;w++) if (jobs[w].pid==c) {
         jobs[w].pid=0; running--;
         if (WIFSIGNALED(st) || WEXITSTATUS(st)!=0) {
            addViol(jobs[w].s,sh->slot[w].idx.load(),jobs[w].from,1,
                    WIFSIGNALED(st) ? fmt("the code under test crashed (signal %d)",WTERMSIG(st)) : fmt("the code under test ended the process (status %d)",WEXITSTATUS(st)));
            if (++crashes>3) stop=true;
         }
      }
      if (sh->nviol.load()>20) stop=true;
   }
   // confirm
   int nv=std::min(32,sh->nviol.load());
   std::vector<Viol> vs(sh->viol,sh->viol+nv);
   std::string vj; int confirmed=0,unconfirmed=0; bool hung=false; // one hang is enough: waiting for more takes long
   std::set<std::pair<int,uint64_t>> seen;
   for(auto& v : vs) {
      if (confirmed>=3 || hung) break;
      if (!seen.insert({v.space,v.idx}).second) continue;
      uint64_t from=v.idx;
      int r=isolated(spaces,v.space,v.idx,v.idx,v.kind==2 ? hangLimit : 3*hangLimit);
      if (!r) { from=v.from; r=isolated(spaces,v.space,v.from,v.idx,600);}
      if (!r && (v.kind==0 || (v.kind==1 && !strstr(v.msg,"(signal 9)")))) { r = v.kind==0 ? 1 : 2; unconfirmed++;} // seen, but not in every process
      if (!r) { unconfirmed++; fprintf(stderr,"not reproduced: %s[%llu] %s\n",spaces[v.space].name.c_str(),(unsigned long long)v.idx,v.msg); continue;}
      confirmed++; hung |= r==3;
      vj += fmt("%s{\"space\":\"%s\",\"index\":%llu,\"from\":%llu,\"kind\":\"%s\",\"message\":\"",vj.empty()?"":",\n",
                jesc(spaces[v.space].name).c_str(),(unsigned long long)v.idx,(unsigned long long)from,
                r==1?"mismatch":r==2?"crash":"hang") + jesc(v.msg) + "\"}";
   }
   std::string o="{";
   o+=fmt("\"cases\":%llu,\"evaluations\":%llu,\"distinct\":%llu,\"nontrivial\":%llu,\"states\":%llu,\"transitions\":%llu,\"traces\":%llu,\"capped\":%d,\"stopped\":%d,",
      (unsigned long long)sh->cases,(unsigned long long)sh->evals,(unsigned long long)sh->distinct,(unsigned long long)sh->nontrivial,
      (unsigned long long)sh->states,(unsigned long long)sh->trans,(unsigned long long)sh->traces,sh->capped.load(),(int)stop);
   o+="\"rule\":\""+jesc(rule)+"\",\"aux\":["; for(int i=0;i<16;i++) o+=fmt("%s%llu",i?",":"",(unsigned long long)sh->aux[i]);
   o+="],\"spaces\":{"; for(unsigned i=0;i<spaces.size();i++) o+=fmt("%s\"%s\":%llu",i?",":"",jesc(spaces[i].name).c_str(),(unsigned long long)spaces[i].n);
   o+="},\"samples\":["; for(int i=0;i<std::min(12,sh->nsamples.load());i++) o+=std::string(i?",":"")+"\""+jesc(sh->samples[i])+"\"";
   o+=fmt("],\"unconfirmed\":%d,\"wall\":%.2f,\"violations\":[",unconfirmed,now())+vj+"]}\n";
   FILE* f=fopen(argv[3],"w"); if(!f) { perror(argv[3]); return 2;} fputs(o.c_str(),f); fclose(f);
   return confirmed ? 1 : 0;
}
}
