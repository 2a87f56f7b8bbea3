#pragma once
#include "sim.h"
#include <atomic>
#include <map>
#include <set>
#include <unordered_map>
#include <deque>
#include <memory>
#include <stdarg.h>
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <errno.h>
#include <time.h>
#include <sys/syscall.h>

namespace sim {

/* raw system calls that never pass through our own definitions */
inline long raw6(long n, long a=0, long b=0, long c=0, long d=0, long e=0, long f=0){
  long r; register long r10 __asm__("r10")=d; register long r8 __asm__("r8")=e; register long r9 __asm__("r9")=f;
  __asm__ volatile("syscall":"=a"(r):"a"(n),"D"(a),"S"(b),"d"(c),"r"(r10),"r"(r8),"r"(r9):"rcx","r11","memory");
  return r;
}

struct Choice { uint16_t n, c; uint32_t tag; uint8_t dev; };

enum Status { ST_NONE=0, ST_OK, ST_VIOLATION, ST_UNMODELED, ST_DIVERGED, ST_CRASH, ST_HANG };
constexpr int MAXCH = 20000;
constexpr int NCOUNT = 16;
struct ChildBuf {
  int status;
  int nch;
  int cost;
  long steps;
  uint64_t outcome;
  uint64_t counters[NCOUNT];
  Choice ch[MAXCH];
  char msg[16384];
  char notes[262144]; int nnotes;
};
extern ChildBuf* cb;
extern bool want_notes;

void add_state(uint64_t h);

/* explorer <-> child */
void child_begin(std::vector<Choice> const& prefix);
[[noreturn]] void child_end(int status);

/* scheduler internals */
struct VC { std::vector<uint32_t> c; void join(VC const&o){ if(o.c.size()>c.size())c.resize(o.c.size()); for(size_t i=0;i<o.c.size();++i) if(o.c[i]>c[i])c[i]=o.c[i]; } };

struct Thr {
  int id=0; bool env=false;
  enum { RUN, BLOCKED, SETTLE, DONE } st=RUN;
  std::function<bool()> pred;      /* enabled when true */
  int64_t deadline=-1;             /* virtual ns; -1 none */
  bool timed_out=false;
  bool settle_pre=false;
  std::string at;                  /* what it is doing (diagnostics, state hash) */
  long ncalls=0;
  std::atomic<int> go{0};
  unsigned long real=0; bool joined=false, detached=false;
  void* ret=nullptr; void*(*fn)(void*)=nullptr; void*arg=nullptr;
  VC vc;
  int nosw=0;
  char* stk=nullptr; size_t stksz=0;
};
extern thread_local Thr* self;
extern thread_local int in_sim;     /* >0 while simulator code runs: interposers pass through */
extern bool active;                 /* an execution is under way */
extern std::vector<Thr*> threads;
inline bool on(){ return active && self && !in_sim; }
struct InSim { InSim(){++in_sim;} ~InSim(){--in_sim;} };

void sched_point(char const* what);
void yield_others();
/* true if the predicate became true, false on time-out */
bool block_until(std::function<bool()> pred, int64_t deadline, std::string const& what);
extern int64_t vnow;
extern bool env_preempt;
uint64_t kernel_hash();
void sched_reset();
Thr* thread_spawn(void*(*fn)(void*), void* arg);
void thread_finish();

int fault(char const* call);        /* 0 or the errno to fail with */
inline uint64_t fnv(void const*p,size_t n,uint64_t h=1469598103934665603ull){auto b=(unsigned char const*)p;for(size_t i=0;i<n;++i){h^=b[i];h*=1099511628211ull;}return h;}
inline uint64_t mix(uint64_t h,uint64_t v){h^=v+0x9e3779b97f4a7c15ull+(h<<6)+(h>>2);return h*0xff51afd7ed558ccdull;}
inline std::string sfmt(char const*f,...) __attribute__((format(printf,1,2)));
inline std::string sfmt(char const*f,...){char b[4096];va_list a;va_start(a,f);vsnprintf(b,sizeof b,f,a);va_end(a);return b;}

/* race-detector hooks, weak: present only in instrumented builds */
extern "C" {
void rt_hb_release(void* obj) __attribute__((weak));
void rt_hb_acquire(void* obj) __attribute__((weak));
void rt_thread_create(Thr* parent, Thr* child) __attribute__((weak));
void rt_thread_join(Thr* joiner, Thr* child) __attribute__((weak));
void rt_write_range(void const*, size_t) __attribute__((weak));
void rt_read_range(void const*, size_t) __attribute__((weak));
void __asan_poison_memory_region(void const volatile*, size_t) __attribute__((weak));
void __asan_unpoison_memory_region(void const volatile*, size_t) __attribute__((weak));
}
}
