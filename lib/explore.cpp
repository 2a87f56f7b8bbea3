/*  The explorer: depth-first enumeration of all choice sequences up to a
    deviation bound, each executed in a forked process, spread over workers. */
#include <stdarg.h>
#include "internal.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <sched.h>
#include <pthread.h>
#include <algorithm>

namespace sim {

ChildBuf* cb=nullptr;
bool want_notes=false;
bool thorough=false;
std::string prop;
static std::vector<std::string> knowns;
bool known(char const*id){ for(auto&k:knowns) if(k==id) return true; return false; }
void known_hit(char const*id){ for(size_t i=0;i<knowns.size()&&i<8;++i) if(knowns[i]==id) cb->counters[8+i]++; }
bool enf(char const*l){ return prop.empty()||strstr(l,prop.c_str()); }
static std::vector<Choice> prefix_;
static int pos_=0;
static uint64_t ohash=0;

/* ---- shared between workers ---- */
struct Slot { int n; Choice ch[8192]; };
constexpr int QN=128;
struct Shared {
  pthread_mutex_t mu;
  int qn; 
  int idle; int bound; int maxbound; int nworkers; int stop; int phase_done;
  uint64_t execs, execs_new, steps, choices, crashes, maxlen;
  uint64_t counters[NCOUNT];
  uint64_t phase_execs[16];
  int vstatus; int vcost; int vlen; Choice v[MAXCH]; char vmsg[16384];
  int err; char emsg[16384]; int elen; Choice e[MAXCH];
  double deadline;
  int slen[4]; Choice sample[4][8192];
  Slot q[QN];
};
static Shared* sh=nullptr;
constexpr uint64_t SETN=1ull<<25;
struct HSet { std::atomic<uint64_t> cnt; std::atomic<uint64_t> tab[SETN]; };
static HSet* states=nullptr; static HSet* outcomes=nullptr;
static bool hs_add(HSet*s,uint64_t h){ if(!h)h=1; if(s->cnt.load(std::memory_order_relaxed)>SETN*3/4) return false;
  uint64_t i=h&(SETN-1); for(;;){ uint64_t v=s->tab[i].load(std::memory_order_relaxed); if(v==h) return false;
    if(v==0){ uint64_t z=0; if(s->tab[i].compare_exchange_strong(z,h)){ s->cnt++; return true;} if(z==h) return false; }
    i=(i+1)&(SETN-1);} }
void add_state(uint64_t h){ hs_add(states,h); }
static double wall(){ struct timespec t; raw6(SYS_clock_gettime,CLOCK_MONOTONIC,(long)&t); return t.tv_sec+t.tv_nsec*1e-9; }

[[noreturn]] void child_end(int status){
  cb->status=status; cb->outcome=ohash; cb->steps=steps();
  raw6(SYS_exit_group,0); __builtin_unreachable();
}
static void setmsg(std::string const&m){ size_t n=std::min(m.size(),sizeof(cb->msg)-1); memcpy(cb->msg,m.data(),n); cb->msg[n]=0; }
void violation(std::string const& m){ ++in_sim; setmsg(m); note("VIOLATION: "+m); child_end(ST_VIOLATION); }
void unmodeled(std::string const& m){ ++in_sim; setmsg(m); note("UNMODELED: "+m); child_end(ST_UNMODELED); }
void note(std::string const& l){ if(!want_notes||!cb) return; InSim g;
  std::string s=sfmt("[T%d] ",self?self->id:-1)+l+"\n";
  int room=(int)sizeof(cb->notes)-1-cb->nnotes; int n=std::min<int>(room,s.size()); memcpy(cb->notes+cb->nnotes,s.data(),n); cb->nnotes+=n; cb->notes[cb->nnotes]=0; }
void observe(std::string const& l){ InSim g; ohash=fnv(l.data(),l.size(),mix(ohash,1)); if(want_notes) note("obs "+l); }
uint64_t outcome_hash(){ return ohash; }

int choose(int n,char const*tag,bool dev){
  if(n<=1) return 0;
  InSim g;
  if(cb->nch>=MAXCH) unmodeled("too many choices in one execution");
  uint32_t th=(uint32_t)fnv(tag,strlen(tag));
  int c=0;
  if(pos_<(int)prefix_.size()){
    auto&p=prefix_[pos_];
    if(p.n!=n||p.tag!=th||(p.dev!=0)!=dev){ setmsg(sfmt("divergence at choice %d: recorded n=%d tag=%x, now n=%d tag=%x (%s)",pos_,p.n,p.tag,n,th,tag)); child_end(ST_DIVERGED);}  
    c=p.c; 
  }
  pos_++;
  auto&q=cb->ch[cb->nch++]; q.n=n; q.c=c; q.tag=th; q.dev=dev;
  if(dev&&c) cb->cost++;
  if(want_notes && c) note(sfmt("choice %d: %s = %d of %d%s",pos_-1,tag,c,n,dev?" (deviation)":""));
  else if(want_notes && !dev) note(sfmt("choice %d: %s = 0 of %d",pos_-1,tag,n));
  return c;
}
void child_begin(std::vector<Choice> const&p){ prefix_=p; pos_=0; ohash=0; cb->status=ST_NONE; cb->nch=0; cb->cost=0; cb->steps=0; cb->msg[0]=0; cb->nnotes=0; cb->notes[0]=0; memset(cb->counters,0,sizeof cb->counters);} 

/* ---- one execution in a child process ---- */
static int errfd=-1;
static Scenario const* cur=nullptr;
void run_scenario(std::function<void()> const&);   /* sched.cpp */
static std::string crash_text(){ off_t n=raw6(SYS_lseek,errfd,0,SEEK_END); if(n<=0) return ""; std::string s(std::min<off_t>(n,12000),0); raw6(SYS_pread64,errfd,(long)s.data(),s.size(),0); return s; }
static void execute(std::vector<Choice> const&p,int timeout){
  raw6(SYS_ftruncate,errfd,0); raw6(SYS_lseek,errfd,0,SEEK_SET);
  child_begin(p);
  pid_t pid=fork();
  if(pid<0){ perror("fork"); _exit(3);}  
  if(pid==0){
    raw6(SYS_dup3,errfd,2,0);
    struct itimerval tv{{0,0},{timeout,0}}; setitimer(ITIMER_REAL,&tv,nullptr);
    run_scenario(cur->run);
    child_end(ST_OK);
  }
  int ws=0; while(waitpid(pid,&ws,0)<0&&errno==EINTR);
  if(WIFSIGNALED(ws)&&WTERMSIG(ws)==SIGALRM){ cb->status=ST_HANG; setmsg("the execution does not end: the code under test spins without making progress"); }
  else if(WIFSIGNALED(ws)&&WTERMSIG(ws)==SIGKILL){ cb->status=ST_UNMODELED; setmsg("the execution was killed from outside (out of memory?)"); }
  else if(!WIFEXITED(ws)||WEXITSTATUS(ws)!=0||cb->status==ST_NONE){
    if(cb->status!=ST_VIOLATION&&cb->status!=ST_UNMODELED&&cb->status!=ST_DIVERGED){ 
      std::string t=crash_text();
      std::string first; for(size_t i=0;i<t.size();){ size_t e=t.find('\n',i); if(e==std::string::npos)e=t.size(); std::string l=t.substr(i,e-i); if(l.find("ERROR")!=std::string::npos||l.find("runtime error")!=std::string::npos||l.find("terminate")!=std::string::npos||l.find("what()")!=std::string::npos){ first=l; break;} i=e+1; }
      size_t pp; if((pp=first.find("==ERROR"))!=std::string::npos) first=first.substr(pp+2);
      if((pp=first.find(" on address"))!=std::string::npos) first=first.substr(0,pp);
      else if((pp=first.find(" 0x"))!=std::string::npos) first=first.substr(0,pp);
      cb->status=ST_CRASH; std::string m=sfmt("the process was brought down (%s %d) ",WIFSIGNALED(ws)?"signal":"exit status",WIFSIGNALED(ws)?WTERMSIG(ws):WEXITSTATUS(ws))+first;
      setmsg(m+"\n"+t);
    }
  }
}
static std::string first_line(char const*m){ std::string s=m; auto p=s.find('\n'); return p==std::string::npos?s:s.substr(0,p); }

static void worker(int id){
  cpu_set_t set; CPU_ZERO(&set); long nc=sysconf(_SC_NPROCESSORS_ONLN); CPU_SET(id%nc,&set); raw6(SYS_sched_setaffinity,0,sizeof set,(long)&set);
  cb=(ChildBuf*)mmap(nullptr,sizeof(ChildBuf),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
  errfd=memfd_create("err",MFD_CLOEXEC);
  std::vector<std::vector<Choice>> st; bool idle=false;
  std::vector<Choice> p;
  for(;;){
    if(__atomic_load_n(&sh->stop,__ATOMIC_ACQUIRE)) return;
    if(wall()>sh->deadline){ sh->stop=2; return; }
    bool have=false;
    if(!st.empty()){ p=std::move(st.back()); st.pop_back(); have=true; }
    else { pthread_mutex_lock(&sh->mu);
      if(sh->qn>0){ auto&s=sh->q[--sh->qn]; p.assign(s.ch,s.ch+s.n); have=true; if(idle){idle=false; sh->idle--;} }
      else if(!idle){ idle=true; sh->idle++; }
      bool alldone = sh->idle==sh->nworkers && sh->qn==0;
      pthread_mutex_unlock(&sh->mu);
      if(!have){ if(alldone) return; usleep(100); continue; } }
    execute(p,20);
    int status=cb->status;
    if(status==ST_HANG){ execute(p,60); status=cb->status; }
    __atomic_fetch_add(&sh->execs,1,__ATOMIC_RELAXED);
    if(cb->cost==sh->bound) __atomic_fetch_add(&sh->execs_new,1,__ATOMIC_RELAXED);
    __atomic_fetch_add(&sh->steps,cb->steps,__ATOMIC_RELAXED);
    __atomic_fetch_add(&sh->choices,cb->nch,__ATOMIC_RELAXED);
    if((uint64_t)cb->nch>sh->maxlen) sh->maxlen=cb->nch;
    for(int i=0;i<NCOUNT;++i) if(cb->counters[i]) __atomic_fetch_add(&sh->counters[i],cb->counters[i],__ATOMIC_RELAXED);
    if(status==ST_OK) hs_add(outcomes,cb->outcome);
    if(status==ST_OK&&cb->cost==sh->bound&&cb->nch<8192){ int k=cb->cost<3?cb->cost:3; if((rand()%64)==0||!sh->slen[k]){ memcpy(sh->sample[k],cb->ch,cb->nch*sizeof(Choice)); sh->slen[k]=cb->nch; } }
    std::vector<Choice> full(cb->ch,cb->ch+cb->nch);
    if(status==ST_VIOLATION||status==ST_CRASH||status==ST_HANG){
      std::string m=first_line(cb->msg), whole=cb->msg; int same=0;
      for(int k=0;k<2;++k){ if(k&&status==ST_HANG&&same){ same++; break; } execute(full,status==ST_HANG?60:20); if(cb->status==status&&first_line(cb->msg)==m) same++; }
      pthread_mutex_lock(&sh->mu);
      if(same==2){ if(!sh->vstatus){ sh->vstatus=status; sh->vlen=full.size(); memcpy(sh->v,full.data(),full.size()*sizeof(Choice)); snprintf(sh->vmsg,sizeof sh->vmsg,"%s",whole.c_str()); } }
      else if(!sh->err){ sh->err=ST_DIVERGED; sh->elen=full.size(); memcpy(sh->e,full.data(),full.size()*sizeof(Choice)); snprintf(sh->emsg,sizeof sh->emsg,"not reproducible (%d of 2): %s\nthen: %s",same,whole.c_str(),cb->msg); }
      sh->stop=1; pthread_mutex_unlock(&sh->mu); return;
    }
    if(status!=ST_OK){ pthread_mutex_lock(&sh->mu); if(!sh->err){ sh->err=status; sh->elen=full.size(); memcpy(sh->e,full.data(),full.size()*sizeof(Choice)); snprintf(sh->emsg,sizeof sh->emsg,"%s",cb->msg);} sh->stop=1; pthread_mutex_unlock(&sh->mu); return; }
    int cost=0; for(size_t i=0;i<p.size();++i) if(p[i].dev&&p[i].c) cost++;
    /* push alternatives; later positions are explored first */
    for(size_t i=p.size();i<full.size();++i){
      if(full[i].dev&&cost+1>sh->bound) continue;
      for(int a=full[i].n-1;a>=1;--a){ std::vector<Choice> q(full.begin(),full.begin()+i+1); q[i].c=a; st.push_back(std::move(q)); }
    }
    while(st.size()>1&&__atomic_load_n(&sh->qn,__ATOMIC_RELAXED)<sh->nworkers){
      if(st.front().size()>=8192) break;
      pthread_mutex_lock(&sh->mu);
      if(sh->qn<QN){ auto&s=sh->q[sh->qn++]; s.n=st.front().size(); memcpy(s.ch,st.front().data(),s.n*sizeof(Choice)); }
      pthread_mutex_unlock(&sh->mu);
      st.erase(st.begin());
    }
  }
}

static std::string jesc(std::string const&s){ std::string o; for(unsigned char c:s){ if(c=='"'||c=='\\'){o+='\\';o+=c;} else if(c=='\n')o+="\\n"; else if(c<32||c>126)o+=sfmt("\\u%04x",c); else o+=c;} return o; }
static std::string chjson(std::vector<Choice> const&v){ std::string s="["; for(size_t i=0;i<v.size();++i) s+=sfmt("%s[%d,%d,%u,%d]",i?",":"",v[i].n,v[i].c,v[i].tag,v[i].dev); return s+"]"; }
static std::vector<Choice> parse_choices(std::string const&s){ std::vector<Choice> r; size_t p=s.find("\"choices\":"); if(p==std::string::npos) return r; p=s.find('[',p); char const*c=s.c_str()+p+1;
  for(;;){ while(*c==','||*c==' '||*c=='\n')c++; if(*c!='[')break; unsigned n,k,t,d; sscanf(c,"[%u,%u,%u,%u]",&n,&k,&t,&d); r.push_back({(uint16_t)n,(uint16_t)k,t,(uint8_t)d}); c=strchr(c,']')+1; } return r; }

int explore_main(int argc,char**argv,std::vector<Scenario> const& all){
  std::string out,replay,only; int workers=8; double budget=60; int fbound=-1; bool list=false; std::string vdir="/tmp"; 
  setvbuf(stdout,nullptr,_IOLBF,0);
  for(int i=1;i<argc;++i){ std::string a=argv[i]; auto nx=[&]{ return std::string(argv[++i]); };
    if(a=="--out") out=nx(); else if(a=="--replay") replay=nx(); else if(a=="--scenario") only=nx(); else if(a=="--workers") workers=atoi(nx().c_str());
    else if(a=="--budget") budget=atof(nx().c_str()); else if(a=="--bound") fbound=atoi(nx().c_str()); else if(a=="--thorough") thorough=true; else if(a=="--prop") prop=nx(); else if(a=="--known"){ std::string l=nx(); for(size_t i=0;i<l.size();){ size_t e=l.find(',',i); if(e==std::string::npos) e=l.size(); knowns.push_back(l.substr(i,e-i)); i=e+1; } } else if(a=="--list") list=true; else if(a=="--vdir") vdir=nx(); 
    else { fprintf(stderr,"unknown option %s\n",a.c_str()); return 2; } }
  std::vector<Scenario const*> sel;
  for(auto&s:all) if((prop.empty()||s.props.find(prop)!=std::string::npos)&&(only.empty()||s.name==only||(only.back()=='*'&&s.name.compare(0,only.size()-1,only,0,only.size()-1)==0))) sel.push_back(&s);
  if(list){ for(auto*s:sel) printf("%s bound=%d/%d\n",s->name.c_str(),s->bound,s->bound_thorough); return 0; }
  if(sel.empty()){ fprintf(stderr,"no scenario %s\n",only.c_str()); return 2; }
  states=(HSet*)mmap(nullptr,sizeof(HSet),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
  outcomes=(HSet*)mmap(nullptr,sizeof(HSet),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
  signal(SIGPIPE,SIG_IGN);
  int execute_limit=0;
  auto solo=[&](Scenario const*s,std::vector<Choice> const&c,bool notes)->int{ /* run one execution here (forked) */
    if(!cb) cb=(ChildBuf*)mmap(nullptr,sizeof(ChildBuf),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
    if(errfd<0) errfd=memfd_create("err",MFD_CLOEXEC);
    cur=s; want_notes=notes; execute(c,execute_limit?execute_limit:45); want_notes=false; return cb->status; };
  if(!replay.empty()){
    std::string txt; { int fd=open(replay.c_str(),O_RDONLY); char b[65536]; ssize_t n; while((n=raw6(SYS_read,fd,(long)b,sizeof b))>0) txt.append(b,n); raw6(SYS_close,fd);} 
    Scenario const*s=nullptr; for(auto&x:all) if(txt.find("\"scenario\":\""+x.name+"\"")!=std::string::npos) s=&x;
    if(!s){ fprintf(stderr,"the replay file names no known scenario\n"); return 2; }
    int r=solo(s,parse_choices(txt),true); printf("%s\nstatus=%d %s\n",cb->notes,r,cb->msg); return r==ST_OK?0:r==ST_VIOLATION||r==ST_CRASH||r==ST_HANG?1:2;
  }
  double t0=wall(); double totw=0; for(auto*s:sel) totw+=s->weight;
  sh=(Shared*)mmap(nullptr,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
  std::string js="{\"prop\":\""+prop+"\",\"scenarios\":["; uint64_t T_ex=0,T_st=0,T_dist=0; bool allfull=true; int rc=0; std::string vjson="null"; uint64_t TC[NCOUNT]{};
  std::string samples; int nsamp=0; double wleft=totw; int si=0; uint64_t outs_prev=0;
  for(auto*s:sel){ cur=s;
    int B=fbound>=0?fbound:(thorough?s->bound_thorough:s->bound);
    double left=budget-(wall()-t0); double mine=std::max(0.5,left*s->weight/std::max(1e-9,wleft)); wleft-=s->weight;
    double sdl=wall()+mine; int completed=-1; uint64_t ex=0,stp=0,maxlen=0,exnew=0; bool stopv=false; std::vector<uint64_t> per;
    uint64_t st0=states->cnt, oc0=outcomes->cnt; (void)oc0;
    std::vector<std::vector<Choice>> samp(4);
    /* determinism: the default execution twice, with identical observations */
    solo(s,{},false); uint64_t h1=cb->outcome; int s1=cb->status, n1=cb->nch; std::vector<Choice> c1(cb->ch,cb->ch+cb->nch); solo(s,c1,false);
    if((s1==ST_HANG)!=(cb->status==ST_HANG)){ /* the wall clock had a say: more time, and again */
      execute_limit=150; solo(s,c1,false); h1=cb->outcome; s1=cb->status; n1=cb->nch; solo(s,c1,false); execute_limit=0; }
    if(cb->outcome!=h1||cb->status!=s1||cb->nch!=n1){ fprintf(stderr,"ERROR: %s: the default execution is not deterministic (%d/%d choices, status %d/%d) %s\n",s->name.c_str(),n1,cb->nch,s1,cb->status,cb->msg); return 2; }
    double ts=wall(); bool bad1=s1==ST_VIOLATION||s1==ST_CRASH||s1==ST_HANG;
    if(bad1){ std::string msg=cb->msg; if(s1!=ST_HANG) solo(s,c1,true); /* the default execution already fails, twice */
      vjson="{\"scenario\":\""+jesc(s->name)+"\",\"kind\":\""+(s1==ST_VIOLATION?"violation":s1==ST_CRASH?"crash":"hang")+"\",\"message\":\""+jesc(msg)+"\",\"deviations\":0,\"trace\":\""+jesc(cb->notes)+"\",\"choices\":"+chjson(c1)+"}"; ex=exnew=1; rc=1; stopv=true; }
    for(int b=0;b<=B&&!bad1;++b){
      memset(sh,0,sizeof(Shared)-sizeof(sh->q));
      pthread_mutexattr_t ma; pthread_mutexattr_init(&ma); pthread_mutexattr_setpshared(&ma,PTHREAD_PROCESS_SHARED); pthread_mutex_init(&sh->mu,&ma);
      sh->bound=b; sh->nworkers=workers; sh->deadline=sdl; sh->qn=1; sh->q[0].n=0;
      std::vector<pid_t> ps; fflush(stdout); fflush(stderr);
      for(int w=0;w<workers;++w){ pid_t p=fork(); if(p==0){ srand(w+1); worker(w); raw6(SYS_exit_group,0);} ps.push_back(p);} 
      for(auto p:ps){ int ws; while(waitpid(p,&ws,0)<0&&errno==EINTR); if(!WIFEXITED(ws)||WEXITSTATUS(ws)){ if(!sh->err&&!sh->vstatus){ sh->err=ST_UNMODELED; snprintf(sh->emsg,sizeof sh->emsg,"a worker died (status %x)",ws);} sh->stop=1; } }
      ex+=sh->execs; stp+=sh->steps; exnew+=sh->execs_new; per.push_back(sh->execs_new); maxlen=std::max(maxlen,sh->maxlen); for(int i=0;i<NCOUNT;++i) TC[i]+=sh->counters[i];
      for(int k=0;k<4;++k) if(sh->slen[k]) samp[k].assign(sh->sample[k],sh->sample[k]+sh->slen[k]);
      if(sh->vstatus){
        std::vector<Choice> v(sh->v,sh->v+sh->vlen); std::string msg=sh->vmsg; int vs=sh->vstatus; solo(s,v,true);
        vjson="{\"scenario\":\""+jesc(s->name)+"\",\"kind\":\""+(vs==ST_VIOLATION?"violation":vs==ST_CRASH?"crash":"hang")+"\",\"message\":\""+jesc(msg)+"\",\"deviations\":"+std::to_string(b)+",\"trace\":\""+jesc(cb->notes)+"\",\"choices\":"+chjson(v)+"}";
        rc=1; stopv=true; break; }
      if(sh->err){ std::vector<Choice> v(sh->e,sh->e+sh->elen); fprintf(stderr,"ERROR: scenario %s bound %d: %s\n",s->name.c_str(),b,sh->emsg); solo(s,v,true); fprintf(stderr,"%s\n",cb->notes); return 2; }
      if(sh->stop==2){ break; }
      completed=b;
      if(b>0&&sh->execs_new==0){ completed=B; break; } /* nothing left to deviate */
      if(b<B && wall()-ts>0.5*mine && 0){ break; }
    }
    uint64_t dist=states->cnt-st0;
    if(completed<B&&!stopv) allfull=false;
    if(si++) js+=","; js+=sfmt("{\"name\":\"%s\",\"bound\":%d,\"bound_completed\":%d,\"executions\":%llu,\"distinct_executions\":%llu,\"transitions\":%llu,\"new_states\":%llu,\"longest_choice_sequence\":%llu,\"wall_s\":%.2f,\"executions_per_deviation\":[",s->name.c_str(),B,completed,(unsigned long long)ex,(unsigned long long)exnew,(unsigned long long)stp,(unsigned long long)dist,(unsigned long long)maxlen,wall()-ts);
    for(size_t i=0;i<per.size();++i) js+=sfmt("%s%llu",i?",":"",(unsigned long long)per[i]); js+="]}";
    printf("  %-34s bound %d/%d  executions %8llu  steps %10llu  states %8llu  outcomes %6llu  %.1fs\n",s->name.c_str(),completed,B,(unsigned long long)exnew,(unsigned long long)stp,(unsigned long long)dist,(unsigned long long)(outcomes->cnt.load()-outs_prev),wall()-ts);
    outs_prev=outcomes->cnt;
    T_ex+=exnew; T_st+=stp; T_dist+=dist;
    if(!stopv&&nsamp<6) for(int k=3;k>=0;--k) if(!samp[k].empty()&&nsamp<6){ solo(s,samp[k],true); std::string t=cb->notes; if(t.size()>2500) t=t.substr(0,2500)+"..."; samples+=std::string(nsamp?",":"")+"{\"scenario\":\""+s->name+"\",\"deviations\":"+std::to_string(cb->cost)+",\"trace\":\""+jesc(t)+"\"}"; nsamp++; break; }
    if(stopv) break;
  }
  js+=sfmt("],\"executions\":%llu,\"transitions\":%llu,\"states\":%llu,\"distinct_outcomes\":%llu,\"exhaustive\":%s,\"wall_s\":%.2f,\"counters\":[",(unsigned long long)T_ex,(unsigned long long)T_st,(unsigned long long)states->cnt.load(),(unsigned long long)outcomes->cnt.load(),allfull?"true":"false",wall()-t0);
  for(int i=0;i<NCOUNT;++i) js+=sfmt("%s%llu",i?",":"",(unsigned long long)TC[i]);
  js+="],\"known\":{"; for(size_t i=0;i<knowns.size()&&i<8;++i) js+=sfmt("%s\"%s\":%llu",i?",":"",knowns[i].c_str(),(unsigned long long)TC[8+i]); js+="},\"violation\":"+vjson+",\"samples\":["+samples+"]}\n";
  if(!out.empty()){ int fd=open(out.c_str(),O_WRONLY|O_CREAT|O_TRUNC,0644); size_t o=0; while(o<js.size()){ ssize_t n=raw6(SYS_write,fd,(long)js.data()+o,js.size()-o); if(n<=0)break; o+=n;} raw6(SYS_close,fd);} 
  if(rc){ size_t p=vjson.find("\"message\":\""); printf("violation: %.600s\n",vjson.c_str()+p); }
  return rc;
}
}
