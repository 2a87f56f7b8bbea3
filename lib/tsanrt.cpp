/*  Own run-time for code compiled with -fsanitize=thread: every atomic operation
    is a scheduling point, every access is checked for a data race (vector clocks)
    and for use after free. The simulated scheduler gives no happens-before edges
    of its own, so none is missed on account of it. */
#include "internal.h"
#include <dlfcn.h>
#include <cxxabi.h>
#include <algorithm>
#include <new>
#include <malloc.h>
using namespace sim;

namespace {
struct Slot { uint32_t clk; uint16_t tid; uint8_t mask; uint8_t wr; void*pc; void*fn; };
struct Cell { std::vector<Slot> s; };
struct Block { size_t size; bool freed; int tid; void*pc; };
std::unordered_map<uintptr_t,Cell>* shadow_;
std::map<uintptr_t,Block>* blocks_;
std::unordered_map<void*,VC>* sync_;
std::unordered_map<uintptr_t,Cell>& shadow(){ if(!shadow_) shadow_=new std::unordered_map<uintptr_t,Cell>; return *shadow_; }
std::map<uintptr_t,Block>& blocks(){ if(!blocks_) blocks_=new std::map<uintptr_t,Block>; return *blocks_; }
std::unordered_map<void*,VC>& syncs(){ if(!sync_) sync_=new std::unordered_map<void*,VC>; return *sync_; }

uint32_t& mine(Thr*t){ auto&c=t->vc.c; if((int)c.size()<=t->id) c.resize(t->id+1,0); if(!c[t->id]) c[t->id]=1; return c[t->id]; }
bool before(Slot const&s,Thr*t){ return s.tid==t->id||(s.tid<t->vc.c.size()&&t->vc.c[s.tid]>=s.clk); }
std::string where(void*pc){ Dl_info i{}; if(!dladdr(pc,&i)) return sfmt("%p",pc); std::string n; if(i.dli_sname){ int st=0; char*d=abi::__cxa_demangle(i.dli_sname,nullptr,nullptr,&st); n=d?d:i.dli_sname; free(d); if(n.size()>120) n=n.substr(0,117)+"..."; } return sfmt("%s [+0x%lx]",n.c_str(),(unsigned long)((char*)pc-(char*)i.dli_fbase)); }
void access(void const*p,size_t n,bool wr,void*pc,bool atomic=false){
  if(!on()) return; InSim g; uintptr_t a=(uintptr_t)p;
  /* use after free */
  { auto&b=blocks(); auto it=b.upper_bound(a); if(it!=b.begin()){ --it; if(it->second.freed&&a<it->first+it->second.size) violation(sfmt("use of freed memory: %s of %zu bytes by T%d in ",wr?"write":"read",n,self->id)+where(pc)+sfmt(", freed by T%d in ",it->second.tid)+where(it->second.pc)); } }
  /* own stack: never seen by others unless its address was given away; still checked */
  uint32_t clk=mine(self);
  for(uintptr_t x=a;x<a+n;){ uintptr_t gx=x&~7ul; int lo=x-gx, hi=std::min<uintptr_t>(8,a+n-gx); uint8_t m=((1u<<hi)-1)&~((1u<<lo)-1); auto&c=shadow()[gx].s;
    for(auto&s:c) if((s.mask&m)&&((s.wr&1)||wr)&&!((s.wr&2)&&atomic)&&!before(s,self))
      violation(sfmt("data race: %s by T%d in ",wr?"write":"read",self->id)+where(pc)+sfmt(" and %s by T%d in ",(s.wr&1)?"write":"read",s.tid)+where(s.pc)+", with nothing that orders them");
    uint8_t kind=(wr?1:0)|(atomic?2:0);
    c.erase(std::remove_if(c.begin(),c.end(),[&](Slot const&s){ return (s.mask&~m)==0&&before(s,self)&&(kind==1||s.wr==kind||(kind==3&&s.wr>=2)||(kind==0&&s.wr==2)); }),c.end());
    c.push_back({clk,(uint16_t)self->id,m,kind,pc,nullptr}); x=gx+8; } }
void forget(uintptr_t a,size_t n){ auto&s=shadow(); for(uintptr_t x=a&~7ul;x<a+n;x+=8) s.erase(x); }
}

extern "C" {
void rt_hb_release(void*o){ if(!self) return; mine(self); syncs()[o].join(self->vc); self->vc.c[self->id]++; }
void rt_hb_acquire(void*o){ if(!self) return; mine(self); auto it=syncs().find(o); if(it!=syncs().end()) self->vc.join(it->second); }
void rt_thread_create(Thr*p,Thr*c){ if(p){ mine(p); mine(c); c->vc.join(p->vc); p->vc.c[p->id]++; } mine(c); if(!p&&c->stk&&shadow_){ /* a stack that was used by a thread before */ auto&m=shadow(); uintptr_t a=(uintptr_t)c->stk,e=a+c->stksz; for(auto i=m.begin();i!=m.end();) if(i->first>=a&&i->first<e) i=m.erase(i); else ++i; } }
void rt_thread_join(Thr*j,Thr*c){ mine(j); j->vc.join(c->vc); }
void rt_write_range(void const*p,size_t n){ /* called from the simulator on behalf of the running thread */ int s=in_sim; in_sim=0; access(p,n,true,__builtin_return_address(0)); in_sim=s; }
void rt_read_range(void const*p,size_t n){ int s=in_sim; in_sim=0; access(p,n,false,__builtin_return_address(0)); in_sim=s; }

void __tsan_init(){}
void __tsan_func_entry(void*){}
void __tsan_func_exit(){}
#define PC __builtin_return_address(0)
#define ACC(n) void __tsan_read##n(void*p){ access(p,n,false,PC); } void __tsan_write##n(void*p){ access(p,n,true,PC); } void __tsan_unaligned_read##n(void*p){ access(p,n,false,PC); } void __tsan_unaligned_write##n(void*p){ access(p,n,true,PC); } void __tsan_read_write##n(void*p){ access(p,n,false,PC); access(p,n,true,PC); } void __tsan_volatile_read##n(void*p){ access(p,n,false,PC); } void __tsan_volatile_write##n(void*p){ access(p,n,true,PC); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range(void*p,unsigned long n){ access(p,n,false,PC); }
void __tsan_write_range(void*p,unsigned long n){ access(p,n,true,PC); }
void __tsan_vptr_update(void**p,void*v){ if(*p!=v) access(p,8,true,PC); }
void __tsan_vptr_read(void**p){ access(p,8,false,PC); }

static bool acq(int mo){ return mo==__ATOMIC_CONSUME||mo==__ATOMIC_ACQUIRE||mo==__ATOMIC_ACQ_REL||mo==__ATOMIC_SEQ_CST; }
static bool rel(int mo){ return mo==__ATOMIC_RELEASE||mo==__ATOMIC_ACQ_REL||mo==__ATOMIC_SEQ_CST; }
/* The shared sync object of an address: what has been released to it. A plain (relaxed) store cuts the release sequence. */
struct AtomicPoint { void*p; AtomicPoint(void*p,char const*w):p(p){ if(on()) sched_point(w); } };
static void at_load(void volatile const*p,size_t n,int mo,void*pc){ if(!on()) return; access((void*)p,n,false,pc,true); InSim g; if(acq(mo)) rt_hb_acquire((void*)p); }
static void at_store(void volatile*p,size_t n,int mo,void*pc){ if(!on()) return; access((void*)p,n,true,pc,true); InSim g; syncs().erase((void*)p); if(rel(mo)) rt_hb_release((void*)p); }
static void at_rmw(void volatile*p,size_t n,int mo,void*pc){ if(!on()) return; access((void*)p,n,true,pc,true); InSim g; if(acq(mo)) rt_hb_acquire((void*)p); if(rel(mo)) rt_hb_release((void*)p); }
#define ATOM(B,T) \
 T __tsan_atomic##B##_load(T volatile const*p,int mo){ AtomicPoint a((void*)p,"atomic load"); at_load(p,sizeof(T),mo,PC); return __atomic_load_n(p,__ATOMIC_SEQ_CST); } \
 void __tsan_atomic##B##_store(T volatile*p,T v,int mo){ AtomicPoint a((void*)p,"atomic store"); at_store(p,sizeof(T),mo,PC); __atomic_store_n(p,v,__ATOMIC_SEQ_CST); } \
 T __tsan_atomic##B##_exchange(T volatile*p,T v,int mo){ AtomicPoint a((void*)p,"atomic exchange"); at_rmw(p,sizeof(T),mo,PC); return __atomic_exchange_n(p,v,__ATOMIC_SEQ_CST); } \
 T __tsan_atomic##B##_fetch_add(T volatile*p,T v,int mo){ AtomicPoint a((void*)p,"atomic add"); at_rmw(p,sizeof(T),mo,PC); return __atomic_fetch_add(p,v,__ATOMIC_SEQ_CST); } \
 T __tsan_atomic##B##_fetch_sub(T volatile*p,T v,int mo){ AtomicPoint a((void*)p,"atomic sub"); at_rmw(p,sizeof(T),mo,PC); return __atomic_fetch_sub(p,v,__ATOMIC_SEQ_CST); } \
 T __tsan_atomic##B##_fetch_and(T volatile*p,T v,int mo){ AtomicPoint a((void*)p,"atomic and"); at_rmw(p,sizeof(T),mo,PC); return __atomic_fetch_and(p,v,__ATOMIC_SEQ_CST); } \
 T __tsan_atomic##B##_fetch_or(T volatile*p,T v,int mo){ AtomicPoint a((void*)p,"atomic or"); at_rmw(p,sizeof(T),mo,PC); return __atomic_fetch_or(p,v,__ATOMIC_SEQ_CST); } \
 T __tsan_atomic##B##_fetch_xor(T volatile*p,T v,int mo){ AtomicPoint a((void*)p,"atomic xor"); at_rmw(p,sizeof(T),mo,PC); return __atomic_fetch_xor(p,v,__ATOMIC_SEQ_CST); } \
 T __tsan_atomic##B##_fetch_nand(T volatile*p,T v,int mo){ AtomicPoint a((void*)p,"atomic nand"); at_rmw(p,sizeof(T),mo,PC); return __atomic_fetch_nand(p,v,__ATOMIC_SEQ_CST); } \
 int __tsan_atomic##B##_compare_exchange_strong(T volatile*p,T*c,T v,int mo,int fm){ AtomicPoint a((void*)p,"atomic cas"); T x=__atomic_load_n(p,__ATOMIC_SEQ_CST); if(x==*c){ at_rmw(p,sizeof(T),mo,PC); __atomic_store_n(p,v,__ATOMIC_SEQ_CST); return 1; } at_load(p,sizeof(T),fm,PC); *c=x; return 0; } \
 int __tsan_atomic##B##_compare_exchange_weak(T volatile*p,T*c,T v,int mo,int fm){ return __tsan_atomic##B##_compare_exchange_strong(p,c,v,mo,fm); } \
 T __tsan_atomic##B##_compare_exchange_val(T volatile*p,T c,T v,int mo,int fm){ __tsan_atomic##B##_compare_exchange_strong(p,&c,v,mo,fm); return c; }
ATOM(8,uint8_t) ATOM(16,uint16_t) ATOM(32,uint32_t) ATOM(64,uint64_t)
/* fences: ordered by everything before and after them (an over-approximation that hides races, never invents one) */
static int fence_obj;
void __tsan_atomic_thread_fence(int mo){ if(!on()) return; sched_point("fence"); InSim g; if(acq(mo)) rt_hb_acquire(&fence_obj); if(rel(mo)) rt_hb_release(&fence_obj); }
void __tsan_atomic_signal_fence(int){}

/* block copies made by instrumented code */
void* memcpy(void*d,void const*s,size_t n); void* memmove(void*,void const*,size_t); void* memset(void*,int,size_t);
void* __tsan_memcpy(void*d,void const*s,size_t n){ if(on()&&n){ access(s,n,false,PC); access(d,n,true,PC); } return memcpy(d,s,n); }
void* __tsan_memmove(void*d,void const*s,size_t n){ if(on()&&n){ access(s,n,false,PC); access(d,n,true,PC); } return memmove(d,s,n); }
void* __tsan_memset(void*d,int c,size_t n){ if(on()&&n) access(d,n,true,PC); return memset(d,c,n); }

/* local statics */
int __cxa_guard_acquire(int64_t*gd){ char*g=(char*)gd; 
  if(!on()){ if(g[0]) return 0; g[1]=1; return 1; }
  sched_point("guard"); InSim s; if(g[0]){ rt_hb_acquire(gd); return 0; }
  if(g[1]){ block_until([g]{return g[1]==0;},-1,"initialisation of a local static"); if(g[0]){ rt_hb_acquire(gd); return 0; } }
  g[1]=1; return 1; }
void __cxa_guard_release(int64_t*gd){ char*g=(char*)gd; if(on()){ InSim s; rt_hb_release(gd); } g[1]=0; __atomic_store_n(g,1,__ATOMIC_SEQ_CST); }
void __cxa_guard_abort(int64_t*gd){ ((char*)gd)[1]=0; }
}
/* memory: freed blocks are kept for the rest of the execution */
static void* rt_new(size_t n,void*pc,size_t al=0){ void*p=al?aligned_alloc(al,(n+al-1)/al*al):malloc(n?n:1); if(!p) abort(); memset(p,0xa5,n); if(on()){ InSim g; forget((uintptr_t)p,n); blocks()[(uintptr_t)p]={n,false,self->id,pc}; } return p; }
static void rt_del(void*p,void*pc){ if(!p) return; if(on()){ { InSim g; auto it=blocks().find((uintptr_t)p); if(it!=blocks().end()){ if(it->second.freed) violation(sfmt("memory freed twice: by T%d in ",self->id)+where(pc)+sfmt(" and by T%d in ",it->second.tid)+where(it->second.pc)); } else { return; /* not ours: leave it alone */ } } size_t n; { InSim g; n=blocks()[(uintptr_t)p].size; } access(p,n,true,pc); InSim g; auto&b=blocks()[(uintptr_t)p]; b.freed=true; b.tid=self->id; b.pc=pc; return; }
  if(blocks_&&self){ auto it=blocks_->find((uintptr_t)p); if(it!=blocks_->end()){ blocks_->erase(it); return; } } free(p); }
void* operator new(size_t n){ return rt_new(n,PC); }
void* operator new[](size_t n){ return rt_new(n,PC); }
void* operator new(size_t n,std::nothrow_t const&) noexcept{ return rt_new(n,PC); }
void* operator new[](size_t n,std::nothrow_t const&) noexcept{ return rt_new(n,PC); }
void* operator new(size_t n,std::align_val_t a){ return rt_new(n,PC,(size_t)a); }
void operator delete(void*p) noexcept{ rt_del(p,PC); }
void operator delete[](void*p) noexcept{ rt_del(p,PC); }
void operator delete(void*p,size_t) noexcept{ rt_del(p,PC); }
void operator delete[](void*p,size_t) noexcept{ rt_del(p,PC); }
void operator delete(void*p,std::align_val_t) noexcept{ rt_del(p,PC); }
void operator delete(void*p,size_t,std::align_val_t) noexcept{ rt_del(p,PC); }
