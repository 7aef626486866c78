// Replaces the global allocator of a harness so that one case costs microseconds and leaves nothing
// behind: while a case runs, memory is bumped off one arena, pre-filled with a pattern (so that a read of
// memory nobody wrote does not see a convenient zero), and dropped when the case ends.
#include <cstdlib>
#include <cstring>
#include <new>
#include <cstdint>
#include <cstdio>
#include <unistd.h>
#include <sys/mman.h>
static char* base=nullptr;
static std::size_t top=0,high=0;
static constexpr std::size_t CAP = 1ull<<31;
bool arenaOn=false;
unsigned char arenaFill=0xA5;
void arenaBegin() {
   if (!base) base=(char*)mmap(nullptr,CAP,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
   arenaOn=true;
}
void arenaEnd() { arenaOn=false; if (top>high) high=top; top=0;
   if (high > (256u<<20)) { madvise(base,CAP,MADV_DONTNEED); high=0;} }
std::size_t arenaMark() { return top;}
void arenaRelease(std::size_t m) { if (top>high) high=top; top=m;}
static void* get(std::size_t n) {
   if (!arenaOn) { void* p=malloc(n?n:1); if(!p) throw std::bad_alloc(); return p;}
   n=(n+31)&~(std::size_t)15;
   if (top+n>CAP) throw std::bad_alloc();
   char* p=base+top; top+=n;
   memset(p,arenaFill,n<(24u<<10)?n:(24u<<10));
   return p;
}
static void put(void* p) noexcept { if ((char*)p>=base && (char*)p<base+CAP && base) return; free(p);}
void* operator new(std::size_t n) { return get(n);}
void* operator new[](std::size_t n) { return get(n);}
void operator delete(void* p) noexcept { put(p);}
void operator delete[](void* p) noexcept { put(p);}
void operator delete(void* p,std::size_t) noexcept { put(p);}
void operator delete[](void* p,std::size_t) noexcept { put(p);}
