/*  The controlled scheduler: real threads, of which exactly one runs. */
#include <stdarg.h>
#include "internal.h"
#include <dlfcn.h>
#include <pthread.h>
#include <linux/futex.h>
#include <limits.h>
#include <algorithm>

namespace sim {
thread_local Thr* self=nullptr;
thread_local int in_sim=0;
bool active=false;
std::vector<Thr*> threads;
int64_t vnow=1700000000000000000ll;
bool env_preempt=false;
static long nsteps=0;
static int nosw=0;
static long other_calls=0;
static long spin=0;

long steps(){ return nsteps; }
int self_id(){ return self?self->id:-1; }
void no_switch(bool o){ nosw+=o?1:-1; }
void allow_env_preempt(bool o){ env_preempt=o; }
int syscalls_of_others(){ return (int)other_calls; }
int64_t now_ns(){ return vnow; }
void advance_ns(int64_t d){ vnow+=d; }

static void fwait(std::atomic<int>&f){ while(!f.load(std::memory_order_acquire)) raw6(SYS_futex,(long)&f,FUTEX_WAIT_PRIVATE,0,0); f.store(0); }
static void fwake(std::atomic<int>&f){ f.store(1,std::memory_order_release); raw6(SYS_futex,(long)&f,FUTEX_WAKE_PRIVATE,1,0); }

static bool enabled(Thr*t){
  switch(t->st){ case Thr::RUN: return true; case Thr::BLOCKED: return (t->pred&&t->pred())||(t->deadline>=0&&vnow>=t->deadline); default: return false; } }
std::string thread_states(){ std::string s; for(auto*t:threads){ s+=sfmt("T%d:%s(%s) ",t->id,t->st==Thr::RUN?"run":t->st==Thr::BLOCKED?"blocked":t->st==Thr::SETTLE?"settle":"done",t->at.c_str()); } return s; }

static void record_state(){
  uint64_t h=kernel_hash(); for(auto*t:threads){ h=mix(h,t->st); h=fnv(t->at.data(),t->at.size(),h); h=mix(h,t->ncalls); } h=mix(h,outcome_hash()); add_state(h);
}
static void step(){ if(++nsteps>cfg.step_max) violation("livelock: the watcher keeps running without coming to rest after "+std::to_string(cfg.step_max)+" steps; "+thread_states()); }

static void handoff(Thr*to){ if(to==self) return; Thr*me=self; int d=in_sim; fwake(to->go); fwait(me->go); in_sim=d; }
static void wake(Thr*t);
static void wake(Thr*t){ /* make a chosen thread the running one */
  if(t->st==Thr::BLOCKED){ t->timed_out=!(t->pred&&t->pred()); }
  t->st=Thr::RUN; t->pred=nullptr; spin=0; }

/*  A yielding (or long spinning) thread lets the others go first. */
void yield_others(){ InSim g; self->at="yield"; step(); record_state(); spin=0; std::vector<Thr*> en; for(auto*t:threads) if(t!=self&&enabled(t)) en.push_back(t);
  if(en.empty()){ for(auto*t:threads) if(t->st==Thr::SETTLE&&t->deadline<0) en.push_back(t); }
  if(en.empty()){ int64_t dl=-1; for(auto*t:threads) if(t->deadline>=0&&t->st!=Thr::DONE&&t->st!=Thr::RUN&&(dl<0||t->deadline<dl)) dl=t->deadline; if(dl>vnow) vnow=dl; return; }
  Thr*t=en[en.size()>1?choose(en.size(),"yield",false):0]; wake(t); handoff(t); }

/*  Scheduling point of a running thread: others may preempt it (1 deviation). */
void sched_point(char const* what){
  if(!self) return; InSim g;
  self->at=what; self->ncalls++; if(!self->env) other_calls++;
  step(); record_state();
  if(nosw||self->nosw) return;
  std::vector<Thr*> alt; for(auto*t:threads){ if(t==self) continue; if(t->st==Thr::SETTLE){ if(t->settle_pre) alt.push_back(t);} else if(enabled(t)) alt.push_back(t); }
  if(alt.empty()) return;
  if(++spin>cfg.spin_limit){ yield_others(); return; }
  int c=choose(1+alt.size(),what,true);
  if(c==0) return;
  Thr*t=alt[c-1]; note(sfmt("preempted before %s -> T%d",what,t->id)); wake(t); handoff(t);
}

static Thr* next_runnable(char const*what){
  for(;;){
    std::vector<Thr*> en; for(auto*t:threads) if(t!=self&&enabled(t)) en.push_back(t);
    bool me=self->st!=Thr::DONE&&enabled(self);
    if(me) return self;
    if(!en.empty()){
      int c=en.size()>1?choose((int)en.size(),what,false):0; 
      /* a preemptible settle may also be woken: one deviation */
      std::vector<Thr*> pre; for(auto*t:threads) if(t->st==Thr::SETTLE&&t->settle_pre&&t!=self) pre.push_back(t);
      if(!pre.empty()&&!nosw){ int d=choose(1+pre.size(),"early",true); if(d) return pre[d-1]; }
      return en[c];
    }
    /* nobody can run: the settling thread, if any, goes on */
    for(auto*t:threads) if(t->st==Thr::SETTLE&&t->deadline<0) return t;
    /* time passes */
    int64_t dl=-1; for(auto*t:threads) if((t->st==Thr::BLOCKED||t->st==Thr::SETTLE)&&t->deadline>=0&&(dl<0||t->deadline<dl)) dl=t->deadline;
    if(dl>=0){ if(dl>vnow) vnow=dl; step(); for(auto*t:threads) if(t->st==Thr::SETTLE&&t->deadline>=0&&vnow>=t->deadline){ bool other=false; for(auto*u:threads) if(u->st==Thr::BLOCKED&&u->deadline>=0&&u->deadline<=vnow) other=true; if(!other) return t; } continue; }
    violation("deadlock: no thread can ever run again; "+thread_states());
  }
}
bool block_until(std::function<bool()> pred,int64_t deadline,std::string const&what){
  InSim g; self->at=what; step(); record_state();
  if(pred()) return true;
  if(deadline>=0&&vnow>=deadline) return false;
  if(nosw&&self->env) unmodeled("environment blocks inside an atomic section: "+what);
  self->st=Thr::BLOCKED; self->pred=std::move(pred); self->deadline=deadline; self->timed_out=false;
  Thr*n=next_runnable(what.c_str());
  wake(n); handoff(n);
  self->deadline=-1; record_state();
  return !self->timed_out;
}
static void settle_impl(bool pre,int64_t dl){
  InSim g; int save=nosw; nosw=0; self->at="settle"; self->st=Thr::SETTLE; self->settle_pre=pre; self->deadline=dl; step(); record_state();
  Thr*n=nullptr; { std::vector<Thr*> en; for(auto*t:threads) if(t!=self&&enabled(t)) en.push_back(t);
    if(pre&&!en.empty()&&choose(2,"settle-early",true)) n=self;
    if(!n) n=next_runnable("settle"); }
  wake(n); self->settle_pre = n==self?false:self->settle_pre; handoff(n); self->deadline=-1; nosw=save; self->at="env"; self->settle_pre=false;
}
void settle(){ settle_impl(false,-1); }
void settle_pre(){ settle_impl(true,-1); }
void settle_time(int64_t ns){ settle_impl(false,vnow+ns); }
void yield_others_pub(){ yield_others(); }
void yield_point(char const*t){ sched_point(t); }
bool all_others_finished(){ for(auto*t:threads) if(t!=self&&t->st!=Thr::DONE) return false; return true; }
int live_threads(){ int n=0; for(auto*t:threads) if(t->st!=Thr::DONE) n++; return n; }

/* ---- threads ---- */
typedef int(*create_t)(pthread_t*,pthread_attr_t const*,void*(*)(void*),void*);
static create_t real_create(){ static create_t f=(create_t)dlsym(RTLD_NEXT,"pthread_create"); return f; }
typedef int(*join_t)(pthread_t,void**);
static join_t real_join(){ static join_t f=(join_t)dlsym(RTLD_NEXT,"pthread_join"); return f; }

void thread_finish(){ /* caller is the finishing thread */
  Thr*me=self; in_sim++; me->st=Thr::DONE; me->at="done"; step(); record_state();
  Thr*n=next_runnable("exit"); wake(n); self=nullptr; fwake(n->go); }

static void* tramp(void*p){ Thr*t=(Thr*)p; fwait(t->go); self=t; in_sim=1;
  pthread_attr_t a; if(!pthread_getattr_np(pthread_self(),&a)){ void*s; size_t z; pthread_attr_getstack(&a,&s,&z); t->stk=(char*)s; t->stksz=z; pthread_attr_destroy(&a);} 
  if(rt_thread_create) rt_thread_create(nullptr,t);
  in_sim=0; t->at="start"; void*r=t->fn(t->arg); t->ret=r; thread_finish(); return r; }

Thr* thread_spawn(void*(*fn)(void*),void*arg){
  Thr*t=new Thr; t->id=threads.size(); t->fn=fn; t->arg=arg; t->at="new"; 
  if(rt_thread_create) rt_thread_create(self,t);
  pthread_t h; if(real_create()(&h,nullptr,tramp,t)!=0) unmodeled("the real pthread_create failed"); t->real=h; threads.push_back(t); return t; }

void sched_reset(){ threads.clear(); nsteps=0; nosw=0; other_calls=0; env_preempt=false; vnow=1700000000000000000ll; }

void run_scenario(std::function<void()> const& fn){
  sched_reset(); kernel_reset();
  Thr*t=new Thr; t->id=0; t->env=true; t->at="env"; t->real=pthread_self(); threads.push_back(t); self=t;
  if(rt_thread_create) rt_thread_create(nullptr,t);
  active=true; fn(); ++in_sim; active=false;
}

static int cbdepth[16]; static int cbthread[16];
void callback_reset(){ memset(cbdepth,0,sizeof cbdepth); memset(cbthread,0,sizeof cbthread); }
int callback_begin(int w){ InSim g; if(w<0||w>=16) return 0; if(cbdepth[w]++) violation(sfmt("the callback of watcher %d runs twice at the same time",w)); 
  if(!cbthread[w]) cbthread[w]=self_id()+1; else if(cbthread[w]!=self_id()+1) violation(sfmt("the callback of watcher %d is run by different threads",w)); return 0; }
void callback_end(int w){ if(w>=0&&w<16) cbdepth[w]--; }
}

/* ---------- interposed thread functions ---------- */
using namespace sim;
#define REAL(name) ((decltype(&::name))real_##name())
#define DEFREAL(name) static void* real_##name(){ static void*p=dlsym(RTLD_NEXT,#name); return p; }
DEFREAL(pthread_join) DEFREAL(pthread_detach) DEFREAL(pthread_create) DEFREAL(pthread_once)
DEFREAL(pthread_mutex_lock) DEFREAL(pthread_mutex_trylock) DEFREAL(pthread_mutex_unlock) DEFREAL(pthread_mutex_destroy)
DEFREAL(pthread_cond_wait) DEFREAL(pthread_cond_timedwait) DEFREAL(pthread_cond_signal) DEFREAL(pthread_cond_broadcast) DEFREAL(pthread_cond_clockwait)
DEFREAL(pthread_rwlock_rdlock) DEFREAL(pthread_rwlock_wrlock) DEFREAL(pthread_rwlock_unlock)
DEFREAL(sched_yield) DEFREAL(nanosleep) DEFREAL(clock_nanosleep) DEFREAL(usleep)

struct Mtx { int owner=-1; int depth=0; std::set<int> readers; };
static std::unordered_map<void*,Mtx>& mtxs(){ static auto*m=new std::unordered_map<void*,Mtx>; return *m; }
struct Cond { std::deque<std::pair<int,bool*>> q; };
static std::unordered_map<void*,Cond>& conds(){ static auto*m=new std::unordered_map<void*,Cond>; return *m; }
struct FWait { int tid; bool*woken; };
static std::unordered_map<void*,std::deque<FWait>>& futexes(){ static auto*m=new std::unordered_map<void*,std::deque<FWait>>; return *m; }

extern "C" {
int pthread_create(pthread_t*h,pthread_attr_t const*a,void*(*fn)(void*),void*arg){
  if(!on()) return REAL(pthread_create)(h,a,fn,arg);
  sched_point("pthread_create"); InSim g; if(int e=fault("pthread_create")) return e;
  Thr*t=thread_spawn(fn,arg); *h=t->real; int ds=0; if(a&&!pthread_attr_getdetachstate(a,&ds)&&ds==PTHREAD_CREATE_DETACHED) t->detached=true; note(sfmt("creates thread T%d",t->id));
  sched_point("after pthread_create"); return 0; }
int pthread_join(pthread_t h,void**r){
  if(!on()) return REAL(pthread_join)(h,r);
  sched_point("pthread_join"); InSim g; Thr*t=nullptr; for(auto*x:threads) if(x->real==h&&!x->joined) t=x;
  if(!t) return ESRCH; if(t==self) return EDEADLK; if(t->detached) return EINVAL;
  block_until([t]{return t->st==Thr::DONE;},-1,sfmt("pthread_join T%d",t->id)); t->joined=true; if(rt_thread_join) rt_thread_join(self,t);
  return REAL(pthread_join)(h,r); }
int pthread_detach(pthread_t h){ if(!on()) return REAL(pthread_detach)(h); for(auto*x:threads) if(x->real==h) x->detached=true; return REAL(pthread_detach)(h); }

static int sim_mlock(void*m,char const*what,bool recursive){
  sched_point(what); InSim g; auto&x=mtxs()[m]; if(x.owner==self->id){ if(recursive){x.depth++;return 0;} }
  block_until([m]{ auto&y=mtxs()[m]; return y.owner==-1&&y.readers.empty(); },-1,what); auto&y=mtxs()[m]; y.owner=self->id; y.depth=1; if(rt_hb_acquire) rt_hb_acquire(m); return 0; }
int pthread_mutex_lock(pthread_mutex_t*m){ if(!on()) return REAL(pthread_mutex_lock)(m); return sim_mlock(m,"mutex_lock",m->__data.__kind==PTHREAD_MUTEX_RECURSIVE); }
int pthread_mutex_trylock(pthread_mutex_t*m){ if(!on()) return REAL(pthread_mutex_trylock)(m); sched_point("mutex_trylock"); InSim g; auto&y=mtxs()[m]; if(y.owner!=-1||!y.readers.empty()) return EBUSY; y.owner=self->id; y.depth=1; if(rt_hb_acquire) rt_hb_acquire(m); return 0; }
int pthread_mutex_unlock(pthread_mutex_t*m){ if(!on()) return REAL(pthread_mutex_unlock)(m); { InSim g; auto it=mtxs().find(m); if(it==mtxs().end()||it->second.owner==-1) return REAL(pthread_mutex_unlock)(m); auto&y=it->second; if(rt_hb_release) rt_hb_release(m); if(--y.depth<=0){ y.owner=-1; y.depth=0; } } sched_point("mutex_unlock"); return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t*m){ if(!on()) return REAL(pthread_rwlock_rdlock)(m); sched_point("rdlock"); InSim g; block_until([m]{return mtxs()[m].owner==-1;},-1,"rdlock"); mtxs()[m].readers.insert(self->id); if(rt_hb_acquire) rt_hb_acquire(m); return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t*m){ if(!on()) return REAL(pthread_rwlock_wrlock)(m); return sim_mlock(m,"wrlock",false); }
int pthread_rwlock_unlock(pthread_rwlock_t*m){ if(!on()) return REAL(pthread_rwlock_unlock)(m); { InSim g; if(rt_hb_release) rt_hb_release(m); auto&y=mtxs()[m]; if(y.owner==self->id){y.owner=-1;y.depth=0;} else y.readers.erase(self->id); } sched_point("rwunlock"); return 0; }

static int cwait(void*c,pthread_mutex_t*m,int64_t dl){ InSim g; bool woken=false; conds()[c].q.push_back({self->id,&woken});
  auto&y=mtxs()[m]; if(rt_hb_release) rt_hb_release(m); y.owner=-1; y.depth=0;
  bool ok=block_until([&woken]{return woken;},dl,"cond_wait"); if(!ok){ auto&q=conds()[c].q; for(auto i=q.begin();i!=q.end();++i) if(i->second==&woken){ q.erase(i); break; } }
  if(ok&&rt_hb_acquire) rt_hb_acquire(c);
  block_until([m]{return mtxs()[m].owner==-1;},-1,"cond relock"); auto&z=mtxs()[m]; z.owner=self->id; z.depth=1; if(rt_hb_acquire) rt_hb_acquire(m); return ok?0:ETIMEDOUT; }
static int64_t ts2ns(timespec const*t){ return t->tv_sec*1000000000ll+t->tv_nsec; }
int pthread_cond_wait(pthread_cond_t*c,pthread_mutex_t*m){ if(!on()) return REAL(pthread_cond_wait)(c,m); sched_point("cond_wait"); return cwait(c,m,-1); }
int pthread_cond_timedwait(pthread_cond_t*c,pthread_mutex_t*m,timespec const*t){ if(!on()) return REAL(pthread_cond_timedwait)(c,m,t); sched_point("cond_timedwait"); return cwait(c,m,ts2ns(t)); }
int pthread_cond_clockwait(pthread_cond_t*c,pthread_mutex_t*m,clockid_t k,timespec const*t){ if(!on()) return REAL(pthread_cond_clockwait)(c,m,k,t); sched_point("cond_clockwait"); return cwait(c,m,ts2ns(t)); }
static void csignal(void*c,bool all){ InSim g; if(rt_hb_release) rt_hb_release(c); auto&q=conds()[c].q; while(!q.empty()){ *q.front().second=true; q.pop_front(); if(!all) break; } }
int pthread_cond_signal(pthread_cond_t*c){ if(!on()) return REAL(pthread_cond_signal)(c); sched_point("cond_signal"); csignal(c,false); return 0; }
int pthread_cond_broadcast(pthread_cond_t*c){ if(!on()) return REAL(pthread_cond_broadcast)(c); sched_point("cond_broadcast"); csignal(c,true); return 0; }

int pthread_once(pthread_once_t*o,void(*fn)(void)){
  if(!on()) return REAL(pthread_once)(o,fn);
  sched_point("pthread_once");
  /* 0 = never, 2 = done as glibc has it; 0x53 = in progress here */
  int*w=(int*)o; { InSim g; if(*w==2){ if(rt_hb_acquire) rt_hb_acquire(o); return 0; }
    if(*w==0x53){ block_until([w]{return *w!=0x53;},-1,"pthread_once"); if(*w==2){ if(rt_hb_acquire) rt_hb_acquire(o); return 0; } }
    *w=0x53; }
  fn(); { InSim g; if(rt_hb_release) rt_hb_release(o); *w=2; } sched_point("pthread_once done"); return 0; }

int sched_yield(){ if(!on()) return REAL(sched_yield)(); 
  /* a yield lets the others go first */
  yield_others(); return 0; }
static int64_t rel(timespec const*t){ int64_t r; if(t->tv_sec>9200000000ll||__builtin_add_overflow(vnow,ts2ns(t),&r)) return INT64_MAX; return r; }
int nanosleep(timespec const*t,timespec*rem){ if(!on()) return REAL(nanosleep)(t,rem); sched_point("nanosleep"); InSim g; block_until([]{return false;},rel(t),"nanosleep"); return 0; }
int clock_nanosleep(clockid_t k,int fl,timespec const*t,timespec*rem){ if(!on()) return REAL(clock_nanosleep)(k,fl,t,rem); sched_point("nanosleep"); InSim g; block_until([]{return false;},(fl&TIMER_ABSTIME)?ts2ns(t):rel(t),"nanosleep"); return 0; }
int usleep(useconds_t u){ if(!on()) return REAL(usleep)(u); sched_point("usleep"); InSim g; block_until([]{return false;},vnow+(int64_t)u*1000,"usleep"); return 0; }

long syscall(long n,...){
  va_list ap; va_start(ap,n); long a[6]; for(auto&x:a) x=va_arg(ap,long); va_end(ap);
  if(on()&&n==SYS_futex){
    int op=a[1]&0x7f; void*addr=(void*)a[0];
    if(op==FUTEX_WAIT||op==FUTEX_WAIT_BITSET){
      sched_point("futex_wait"); InSim g; if(*(int volatile*)addr!=(int)a[2]){ errno=EAGAIN; return -1; }
      int64_t dl=-1; if(a[3]){ auto t=(timespec const*)a[3]; dl=op==FUTEX_WAIT?vnow+ts2ns(t):ts2ns(t); }
      bool woken=false; futexes()[addr].push_back({self->id,&woken});
      if(!block_until([&woken]{return woken;},dl,"futex_wait")){ auto&q=futexes()[addr]; for(auto i=q.begin();i!=q.end();++i) if(i->woken==&woken){ q.erase(i); break; } errno=ETIMEDOUT; return -1; }
      return 0; }
    if(op==FUTEX_WAKE||op==FUTEX_WAKE_BITSET){ sched_point("futex_wake"); InSim g; auto&q=futexes()[addr]; int k=0; while(!q.empty()&&k<(int)a[2]){ *q.front().woken=true; q.pop_front(); k++; } return k; }
    unmodeled(sfmt("futex operation %d",op));
  }
  if(on()&&n==SYS_gettid) return 1000+self->id;
  if(on()&&n==SYS_clock_gettime){ return clock_gettime((clockid_t)a[0],(timespec*)a[1]); }
  if(on()) unmodeled(sfmt("syscall(%ld)",n));
  long r=raw6(n,a[0],a[1],a[2],a[3],a[4],a[5]); if(r<0&&r>-4096){ errno=-r; return -1; } return r; }
}
