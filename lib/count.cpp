// Counts what is allocated and not yet given back, in bytes and blocks.
#include <cstdlib>
#include <new>
#include <cstdint>
#include <malloc.h>
int64_t liveBytes=0,liveBlocks=0;
static void* get(std::size_t n) { void* p=malloc(n+16); if (!p) throw std::bad_alloc(); *(std::size_t*)p=n; liveBytes+=n; ++liveBlocks; return (char*)p+16;}
static void put(void* p) noexcept { if (!p) return; char* q=(char*)p-16; liveBytes-=*(std::size_t*)q; --liveBlocks; free(q);}
void* operator new(std::size_t n) { return get(n);}
void* operator new[](std::size_t n) { return get(n);}
void operator delete(void* p) noexcept { put(p);}
void operator delete[](void* p) noexcept { put(p);}
void operator delete(void* p,std::size_t) noexcept { put(p);}
void operator delete[](void* p,std::size_t) noexcept { put(p);}
