/*  Memory which the code under test has not written to is the same in every execution. */
#include <cstdlib>
#include <cstring>
#include <new>
static void* filled(size_t n){ void*p=malloc(n?n:1); if(!p) abort(); memset(p,0xa5,n); return p; }
void* operator new(size_t n){ return filled(n); }
void* operator new[](size_t n){ return filled(n); }
void operator delete(void*p) noexcept{ free(p); }
void operator delete[](void*p) noexcept{ free(p); }
void operator delete(void*p,size_t) noexcept{ free(p); }
void operator delete[](void*p,size_t) noexcept{ free(p); }
