// A clock under the harness's control: while it is on, every way the code can read the time gets virtual time,
// which advances at each reading as the harness decides (steadily, or with one jump at a chosen reading).
#pragma once
#include <time.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <vector>
#include <cstdint>
#include <algorithm>
#include "vf.hpp"
namespace vclk {
   inline bool on=false; inline int64_t ns=0,step=0,jump=0; inline long jumpAt=0; inline std::vector<int64_t> hist; // the time given at each reading
   inline int64_t begin=0;
   inline void start(int64_t stepMs,long at=0,int64_t jumpMs=0) { vf::NoArena na; hist.clear(); hist.reserve(4096); ns=1000000000000ll; begin=ns; step=stepMs*1000000; jump=jumpMs*1000000; jumpAt=at; on=true;}
   inline void stop() { on=false;}
   inline int64_t read() { vf::NoArena na; ns+=step; if ((long)hist.size()+1==jumpAt) ns+=jump; hist.push_back(ns); return ns;}
   inline std::size_t at() { return hist.size();}
   // may `ms` be the time elapsed since the search began, for an event that happened after r readings?
   inline bool plausible(double ms,std::size_t r,double tol=1.01) {
      if (hist.empty()) return true;                                  // the code never looked at the clock
      const std::size_t n=hist.size(); auto h=[&](long k) { return k<0 ? begin : hist[std::min<std::size_t>(k,n-1)];};
      double lo=(h((long)r-4)-h(2))/1e6,hi=(h((long)r+3)-begin)/1e6;
      return ms>=lo-tol && ms<=hi+tol;
   }
}
#ifndef VF_NOARENA
extern "C" int clock_gettime(clockid_t c,struct timespec* t) noexcept { if (!vclk::on) return (int)syscall(SYS_clock_gettime,c,t); int64_t v=vclk::read(); t->tv_sec=v/1000000000; t->tv_nsec=v%1000000000; return 0;}
extern "C" int gettimeofday(struct timeval* __restrict t,void* __restrict) noexcept { struct timespec s; clock_gettime(CLOCK_REALTIME,&s); t->tv_sec=s.tv_sec; t->tv_usec=s.tv_nsec/1000; return 0;}
extern "C" time_t time(time_t* p) noexcept { struct timespec s; clock_gettime(CLOCK_REALTIME,&s); if (p) *p=s.tv_sec; return s.tv_sec;}
extern "C" clock_t clock() noexcept { struct timespec s; clock_gettime(CLOCK_PROCESS_CPUTIME_ID,&s); return (clock_t)(s.tv_sec*(clock_t)1000000+s.tv_nsec/1000);}
#endif
