/*  libc entry points, served by the simulated kernel while an execution runs. */
#define _GNU_SOURCE 1
#include "internal.h"
#include "kernel.h"
#include <dlfcn.h>
#include <dirent.h>
#include <stdarg.h>
#include <stdio.h>
#include <fcntl.h>
#include <limits.h>
#include <poll.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/fanotify.h>
#include <sys/inotify.h>
#include <sys/ioctl.h>
#include <sys/select.h>
#include <sys/stat.h>
#include <sys/statfs.h>
#include <sys/uio.h>
#include <sys/vfs.h>
#include <unistd.h>
#include <algorithm>
using namespace sim;
#define NEXT(name) ((decltype(&::name))dlsym(RTLD_NEXT,#name))
#define PASS(name,...) do{ static auto f=NEXT(name); return f(__VA_ARGS__); }while(0)
#define E_(e) do{ errno=(e); return -1; }while(0)
static std::string outpend[3];
namespace sim { std::function<void(int,std::string const&)> on_line; }
static void out_raw(int fd,std::string const&t){ static std::string part[3]; out_capture(fd).append(t); part[fd]+=t; for(size_t e;(e=part[fd].find('\n'))!=std::string::npos;){ std::string l=part[fd].substr(0,e); part[fd].erase(0,e+1); if(on_line) on_line(fd,l); } }
static void out_flush(int fd){ InSim g; std::string t; t.swap(outpend[fd]); if(!t.empty()) out_raw(fd,t); }
static int stdio_fd(FILE*f){ return f==stdin?0:f==stdout?1:f==stderr?2:-1; }
static bool cap(FILE*f){ return on()&&capture_output&&stdio_fd(f)>0; }
static void out_put(FILE*f,char const*b,size_t n){ InSim g; int fd=stdio_fd(f); outpend[fd].append(b,n); if(fd==2) out_flush(2); }
static int in_unget=-1;
/* One byte of standard input, -1 at its end: blocks as long as there is nothing. */
static int in_byte(){ if(cfg.read_points) sched_point("read standard input"); InSim g; block_until([]{ return !stdin_buf.empty()||stdin_eof; },-1,"read standard input"); if(stdin_buf.empty()) return -1; int c=(unsigned char)stdin_buf[0]; stdin_buf.erase(0,1); return c; }
static int in_get(){ if(in_unget>=0){ int c=in_unget; in_unget=-1; return c; } return in_byte(); }
namespace sim { void out_end(){ out_flush(1); out_flush(2); } }
#define ENTER(what) if(cfg.read_points) sched_point(what); InSim g_; vnow+=100; note_call(what)
static inline void note_call(char const*){}
#define FAULT(name) do{ if(int e_=fault(name)){ errno=e_; return -1; } }while(0)

static std::shared_ptr<Desc> get(int fd){ auto it=fds.find(fd); return it==fds.end()?nullptr:it->second; }
static std::shared_ptr<Desc> need(int fd,char const*call){ auto d=get(fd); if(!d&&fd>=0){ reserr.push_back(sfmt("%s on descriptor %d, which is not open",call,fd)); } if(d&&d->foreign){ reserr.push_back(sfmt("%s on descriptor %d, which belongs to somebody else",call,fd)); } return d; }
static std::vector<Desc*>& poisoned_list(){ static auto*v=new std::vector<Desc*>; return *v; }
static void unpoison(Desc*d){ if(d->poisoned.first&&__asan_unpoison_memory_region){ __asan_unpoison_memory_region(d->poisoned.first,d->poisoned.second); } d->poisoned={nullptr,0}; }
static void unpoison_mine(){ for(auto&f:fds) if(f.second->poisoned.first) unpoison(f.second.get()); }
namespace sim { Desc::~Desc(){ unpoison(this); } }
static void poison(Desc*d,char*b,size_t n){ if(n&&__asan_poison_memory_region){ __asan_poison_memory_region(b,n); d->poisoned={b,n}; } }
static bool readable(Desc*d){ if(d->kind==D_EVENTFD) return d->count>0; if(d->kind==D_NOTIFY) return !d->n->q.empty()||!d->n->raw.empty(); if(d->kind==D_EPOLL){ for(auto&i:d->items) if(auto t=i.d.lock()) if(!i.off&&(i.events&EPOLLIN)&&readable(t.get())) return true; return false; } return false; }
size_t sim_pending(Desc*d);
static std::string cpath(char const*p){ return p?p:""; }

extern "C" {
void* __asan_region_is_poisoned(void*,size_t) __attribute__((weak));
/* ---------- identity, time ---------- */
uid_t geteuid(){ if(!on()) PASS(geteuid); sched_point("geteuid"); return cfg.root?0:1000; }
uid_t getuid(){ if(!on()) PASS(getuid); sched_point("getuid"); return cfg.real_uid>=0?uid_t(cfg.real_uid):cfg.root?0:1000; }
int getresuid(uid_t*r,uid_t*e,uid_t*s){ if(!on()) PASS(getresuid,r,e,s); *r=getuid(); *e=*s=cfg.root?0:1000; return 0; }
int clock_gettime(clockid_t k,struct timespec*t){ if(!on()){ long r=raw6(SYS_clock_gettime,k,(long)t); if(r<0){errno=-r;return -1;} return 0; } InSim g; vnow+=1; t->tv_sec=vnow/1000000000; t->tv_nsec=vnow%1000000000; return 0; }
int gettimeofday(struct timeval*t,void*z){ if(!on()){ long r=raw6(SYS_gettimeofday,(long)t,(long)z); return r<0?-1:0; } InSim g; vnow+=1; t->tv_sec=vnow/1000000000; t->tv_usec=vnow%1000000000/1000; return 0; }
time_t time(time_t*t){ if(!on()) PASS(time,t); time_t v=vnow/1000000000; if(t)*t=v; return v; }

/* ---------- eventfd ---------- */
int eventfd(unsigned c,int fl){ if(!on()) PASS(eventfd,c,fl); ENTER("eventfd"); FAULT("eventfd"); auto d=std::make_shared<Desc>(); d->kind=D_EVENTFD; d->name="eventfd"; d->count=c; d->nonblock=fl&EFD_NONBLOCK; d->sem=fl&EFD_SEMAPHORE; int n=alloc_fd(d); note(sfmt("eventfd -> %d",n)); return n; }
static ssize_t ev_read(int fd,uint64_t*v){ auto d=need(fd,"read"); if(!d) E_(EBADF); if(d->count==0){ if(d->nonblock) E_(EAGAIN); Desc*p=d.get(); block_until([p]{return p->count>0;},-1,"read eventfd"); } if(rt_hb_acquire) rt_hb_acquire(d.get()); *v=d->sem?1:d->count; d->count-=*v; return 8; }
static ssize_t ev_write(int fd,uint64_t v){ auto d=need(fd,"write"); if(!d) E_(EBADF); if(d->count+v<d->count||d->count+v==~0ull){ if(d->nonblock) E_(EAGAIN); E_(EAGAIN);} if(rt_hb_release) rt_hb_release(d.get()); d->count+=v; if(v) arm_desc(d.get()); note(sfmt("eventfd %d += %lu",fd,(unsigned long)v)); return 8; }
int eventfd_write(int fd,eventfd_t v){ if(!on()) PASS(eventfd_write,fd,v); ENTER("eventfd_write"); FAULT("eventfd_write"); return ev_write(fd,v)==8?0:-1; }
int eventfd_read(int fd,eventfd_t*v){ if(!on()) PASS(eventfd_read,fd,v); ENTER("eventfd_read"); FAULT("eventfd_read"); return ev_read(fd,v)==8?0:-1; }

/* ---------- generic descriptors ---------- */
ssize_t read(int fd,void*buf,size_t cnt){
  if(!on()){ long r=raw6(SYS_read,fd,(long)buf,cnt); if(r<0){errno=-r;return -1;} return r; }
  if(fd==0&&!get(0)){ if(!cnt) return 0; int c=in_byte(); if(c<0) return 0; InSim g; *(char*)buf=c; size_t n=1; while(n<cnt&&!stdin_buf.empty()){ ((char*)buf)[n++]=stdin_buf[0]; stdin_buf.erase(0,1); } return n; }
  ENTER("read"); auto d=need(fd,"read"); if(!d) E_(EBADF);
  if(d->kind==D_EVENTFD){ FAULT("eventfd_read"); if(cnt<8) E_(EINVAL); uint64_t v; ssize_t r=ev_read(fd,&v); if(r==8) memcpy(buf,&v,8); return r; }
  if(d->kind==D_NOTIFY){ FAULT(d->n->fan?"read_fanotify":"read_inotify"); Desc*p=d.get(); unpoison(p);
    if(!readable(p)){ if(d->nonblock) E_(EAGAIN); block_until([p]{return readable(p);},-1,"read (blocking, nothing queued)"); }
    if(rt_write_range) rt_write_range(buf,cnt);
    if(__asan_region_is_poisoned){ /* the kernel may write all of what it is offered */ if(void*q=__asan_region_is_poisoned(buf,cnt)) violation(sfmt("read() is offered %zu bytes, but byte %ld of them is outside of the buffer",cnt,(long)((char*)q-(char*)buf))); }
    long r=notify_read(d->n.get(),(char*)buf,cnt); if(r<0) E_(-r); note(sfmt("read(%d, %zu) = %ld",fd,cnt,r)); poison(p,(char*)buf+r,cnt-r); return r; }
  if(d->foreign) E_(EBADF); E_(EINVAL); }
ssize_t write(int fd,void const*buf,size_t cnt){
  if(!on()){ long r=raw6(SYS_write,fd,(long)buf,cnt); if(r<0){errno=-r;return -1;} return r; }
  if((fd==1||fd==2)&&!get(fd)){ InSim g; if(capture_output){ out_raw(fd,std::string((char const*)buf,cnt)); return cnt; } return raw6(SYS_write,2,(long)buf,cnt); }
  ENTER("write"); auto d=need(fd,"write"); if(!d) E_(EBADF); if(d->kind==D_EVENTFD){ FAULT("eventfd_write"); uint64_t v; memcpy(&v,buf,8); return ev_write(fd,v); } E_(EINVAL); }
ssize_t writev(int fd,struct iovec const*v,int n){ if(!on()||fd<1||fd>2||get(fd)) PASS(writev,fd,v,n); ssize_t t=0; for(int i=0;i<n;++i) t+=write(fd,v[i].iov_base,v[i].iov_len); return t; }
/* ---------- standard streams ---------- */
#undef getc
#undef putc
#undef getchar
#undef putchar
int getc(FILE*fp){ if(!on()||fp!=stdin) PASS(fgetc,fp); return in_get(); }
int fgetc(FILE*fp){ if(!on()||fp!=stdin) PASS(fgetc,fp); return in_get(); }
int _IO_getc(FILE*fp){ if(!on()||fp!=stdin) PASS(fgetc,fp); return in_get(); }
int getchar(){ if(!on()) PASS(getchar); return in_get(); }
int ungetc(int c,FILE*fp){ if(!on()||fp!=stdin) PASS(ungetc,c,fp); if(c<0) return c; in_unget=(unsigned char)c; return c; }
char* fgets(char*b,int n,FILE*fp){ if(!on()||fp!=stdin) PASS(fgets,b,n,fp); int i=0; while(i<n-1){ int c=in_get(); if(c<0) break; b[i++]=c; if(c=='\n') break; } if(!i) return nullptr; b[i]=0; return b; }
size_t fread(void*b,size_t z,size_t n,FILE*fp){ if(!on()||fp!=stdin) PASS(fread,b,z,n,fp); size_t i=0; while(i<z*n){ int c=in_get(); if(c<0) break; ((char*)b)[i++]=c; } return z?i/z:0; }
size_t fwrite(void const*b,size_t z,size_t n,FILE*fp){ if(!cap(fp)) PASS(fwrite,b,z,n,fp); out_put(fp,(char const*)b,z*n); return n; }
int fputs(char const*b,FILE*fp){ if(!cap(fp)) PASS(fputs,b,fp); out_put(fp,b,strlen(b)); return 1; }
int fputc(int c,FILE*fp){ if(!cap(fp)) PASS(fputc,c,fp); char k=c; out_put(fp,&k,1); return (unsigned char)c; }
int putc(int c,FILE*fp){ if(!cap(fp)) PASS(fputc,c,fp); char k=c; out_put(fp,&k,1); return (unsigned char)c; }
int _IO_putc(int c,FILE*fp){ return putc(c,fp); }
int putchar(int c){ return putc(c,stdout); }
int puts(char const*b){ if(!cap(stdout)) PASS(puts,b); out_put(stdout,b,strlen(b)); out_put(stdout,"\n",1); return 1; }
int vfprintf(FILE*fp,char const*m,va_list a){ if(!cap(fp)) PASS(vfprintf,fp,m,a); char*b=nullptr; int n=vasprintf(&b,m,a); if(n>0) out_put(fp,b,n); free(b); return n; }
int fprintf(FILE*fp,char const*m,...){ va_list a; va_start(a,m); int r=vfprintf(fp,m,a); va_end(a); return r; }
int printf(char const*m,...){ va_list a; va_start(a,m); int r=vfprintf(stdout,m,a); va_end(a); return r; }
int fflush(FILE*fp){ if(!on()||!capture_output||(fp&&stdio_fd(fp)<1)) PASS(fflush,fp); if(fp) out_flush(stdio_fd(fp)); else { out_flush(1); out_flush(2); } return 0; }
int close(int fd){
  if(!on()){ long r=raw6(SYS_close,fd); if(r<0){errno=-r;return -1;} return 0; }
  ENTER("close"); if(fd<0) E_(EBADF); auto it=fds.find(fd); if(it==fds.end()){ reserr.push_back(sfmt("close(%d): not open",fd)); E_(EBADF); }
  if(it->second->foreign) reserr.push_back(sfmt("close(%d): that descriptor belongs to somebody else",fd));
  auto d=it->second; if(rt_hb_release) rt_hb_release(d.get()); fds.erase(it); note(sfmt("close(%d) %s",fd,d->name.c_str()));
  if(d.use_count()==1){ unpoison(d.get()); if((d->kind==D_PATH||d->kind==D_DIR)&&d->ino) ino_put(d->ino);
    if(d->kind==D_NOTIFY) for(auto i=notifies.begin();i!=notifies.end();++i) if(i->get()==d->n.get()){ notifies.erase(i); break; }
    for(auto&f:fds) if(f.second->kind==D_EPOLL){ auto&v=f.second->items; v.erase(std::remove_if(v.begin(),v.end(),[&](EpItem&i){return i.d.lock()==d;}),v.end()); } }
  if(fault("close")){ errno=EINTR; return -1; }
  return 0; }
static int dupto(int fd,int min){ auto d=need(fd,"dup"); if(!d) E_(EBADF); int n=std::max(min,0); while(fds.count(n)) n++; fds[n]=d; return n; }
int dup(int fd){ if(!on()) PASS(dup,fd); ENTER("dup"); return dupto(fd,cfg.fd_base); }
int fcntl(int fd,int cmd,...){ va_list ap; va_start(ap,cmd); long a=va_arg(ap,long); va_end(ap); if(!on()){ long r=raw6(SYS_fcntl,fd,cmd,a); if(r<0){errno=-r;return -1;} return r; }
  ENTER("fcntl"); auto d=need(fd,"fcntl"); if(!d) E_(EBADF); switch(cmd){ case F_GETFL: return O_RDONLY|(d->nonblock?O_NONBLOCK:0); case F_SETFL: d->nonblock=a&O_NONBLOCK; return 0; case F_GETFD: return FD_CLOEXEC; case F_SETFD: return 0; case F_DUPFD: case F_DUPFD_CLOEXEC: return dupto(fd,a); } unmodeled(sfmt("fcntl %d",cmd)); }
int fcntl64(int fd,int cmd,...) __attribute__((alias("fcntl")));
int ioctl(int fd,unsigned long rq,...){ va_list ap; va_start(ap,rq); void*a=va_arg(ap,void*); va_end(ap); if(!on()){ long r=raw6(SYS_ioctl,fd,rq,(long)a); if(r<0){errno=-r;return -1;} return r; }
  ENTER("ioctl"); auto d=need(fd,"ioctl"); if(!d) E_(EBADF); if(rq==FIONREAD&&d->kind==D_NOTIFY){ *(int*)a=(int)sim_pending(d.get()); return 0; } unmodeled(sfmt("ioctl %lx",rq)); }

/* ---------- epoll, poll ---------- */
static int mkepoll(){ FAULT("epoll_create"); auto d=std::make_shared<Desc>(); d->kind=D_EPOLL; d->name="epoll"; int n=alloc_fd(d); note(sfmt("epoll_create -> %d",n)); return n; }
int epoll_create1(int fl){ if(!on()) PASS(epoll_create1,fl); ENTER("epoll_create1"); return mkepoll(); }
int epoll_create(int n){ if(!on()) PASS(epoll_create,n); ENTER("epoll_create"); return mkepoll(); }
int epoll_ctl(int ep,int op,int fd,struct epoll_event*ev){ if(!on()) PASS(epoll_ctl,ep,op,fd,ev); ENTER("epoll_ctl"); FAULT("epoll_ctl"); auto e=need(ep,"epoll_ctl"); auto d=get(fd); if(!e||!d) E_(EBADF); if(e->kind!=D_EPOLL||e==d) E_(EINVAL); if(d->kind==D_FILE||d->kind==D_PATH||d->kind==D_DIR) E_(EPERM);
  auto it=std::find_if(e->items.begin(),e->items.end(),[&](EpItem&i){return i.fd==fd&&i.d.lock()==d;});
  if(op==EPOLL_CTL_ADD){ if(it!=e->items.end()) E_(EEXIST); EpItem i; i.fd=fd; i.d=d; i.events=ev->events; i.data=ev->data.u64; i.armed=readable(d.get()); e->items.push_back(i); return 0; }
  if(it==e->items.end()) E_(ENOENT); if(op==EPOLL_CTL_DEL){ e->items.erase(it); return 0; } if(op==EPOLL_CTL_MOD){ it->events=ev->events; it->data=ev->data.u64; it->off=false; it->armed=readable(d.get()); return 0; } E_(EINVAL); }
static bool it_ready(EpItem&i){ auto d=i.d.lock(); if(!d||i.off) return false; if(d->kind==D_EVENTFD&&(i.events&EPOLLOUT)) return true; if(!(i.events&EPOLLIN)) return false; if(!readable(d.get())) return false; if((i.events&EPOLLET)&&!i.armed) return false; return true; }
int epoll_pwait(int ep,struct epoll_event*evs,int max,int ms,sigset_t const*ss);
int epoll_wait(int ep,struct epoll_event*evs,int max,int ms){ if(!on()) PASS(epoll_wait,ep,evs,max,ms);
  ENTER("epoll_wait"); unpoison_mine(); auto e=need(ep,"epoll_wait"); if(!e) E_(EBADF); if(e->kind!=D_EPOLL||max<=0) E_(EINVAL); FAULT("epoll_wait");
  Desc*p=e.get(); bool ok=block_until([p]{ for(auto&i:p->items) if(it_ready(i)) return true; return false; },ms<0?-1:vnow+(int64_t)ms*1000000,"epoll_wait");
  if(!ok) return 0;
  std::vector<EpItem*> r; for(auto&i:p->items) if(it_ready(i)) r.push_back(&i);
  if(cfg.epoll_rev) std::reverse(r.begin(),r.end());
  if(r.size()>1&&cfg.epoll_order){ int c=pick(r.size(),"epoll order"); std::rotate(r.begin(),r.begin()+c,r.end()); }
  int n=0; for(auto*i:r){ if(n>=max) break; evs[n].events=EPOLLIN; if(i->events&EPOLLOUT) evs[n].events|=EPOLLOUT; evs[n].data.u64=i->data; n++; i->armed=false; if(i->events&EPOLLONESHOT) i->off=true; if(rt_hb_acquire) if(auto d=i->d.lock()) rt_hb_acquire(d.get()); }
  if(rt_write_range) rt_write_range(evs,n*sizeof *evs);
  note(sfmt("epoll_wait -> %d ready",n)); return n; }
int epoll_pwait(int ep,struct epoll_event*evs,int max,int ms,sigset_t const*ss){ if(!on()) PASS(epoll_pwait,ep,evs,max,ms,ss); return epoll_wait(ep,evs,max,ms); }
static int dopoll(struct pollfd*p,nfds_t n,int64_t dl){ unpoison_mine(); FAULT("epoll_wait"); auto rd=[p,n]{ int k=0; for(nfds_t i=0;i<n;++i){ p[i].revents=0; if(p[i].fd<0) continue; auto d=get(p[i].fd); if(!d){ p[i].revents=POLLNVAL; k++; continue; } if((p[i].events&POLLIN)&&readable(d.get())) p[i].revents|=POLLIN; if((p[i].events&POLLOUT)&&d->kind==D_EVENTFD) p[i].revents|=POLLOUT; if(p[i].revents) k++; } return k; };
  if(!block_until([rd]{return rd()>0;},dl,"poll")) return 0; int k=rd(); if(rt_hb_acquire) for(nfds_t i=0;i<n;++i) if(p[i].revents) if(auto d=get(p[i].fd)) rt_hb_acquire(d.get()); return k; }
int poll(struct pollfd*p,nfds_t n,int ms){ if(!on()) PASS(poll,p,n,ms); ENTER("poll"); return dopoll(p,n,ms<0?-1:vnow+(int64_t)ms*1000000); }
int ppoll(struct pollfd*p,nfds_t n,struct timespec const*t,sigset_t const*s){ if(!on()) PASS(ppoll,p,n,t,s); ENTER("ppoll"); return dopoll(p,n,t?vnow+t->tv_sec*1000000000ll+t->tv_nsec:-1); }

/* ---------- inotify ---------- */
static int mkino(int fl){ FAULT("inotify_init"); auto d=std::make_shared<Desc>(); d->kind=D_NOTIFY; d->name="inotify"; d->nonblock=fl&IN_NONBLOCK; d->n=std::make_shared<Notify>(); d->n->inst=new_inst(); d->n->desc=d.get(); notifies.push_back(d->n); int n=alloc_fd(d); note(sfmt("inotify_init -> %d",n)); return n; }
int inotify_init(){ if(!on()) PASS(inotify_init); ENTER("inotify_init"); return mkino(0); }
int inotify_init1(int fl){ if(!on()) PASS(inotify_init1,fl); ENTER("inotify_init1"); return mkino(fl); }
int inotify_add_watch(int fd,char const*path,uint32_t mask){ if(!on()) PASS(inotify_add_watch,fd,path,mask); ENTER("inotify_add_watch"); FAULT("inotify_add_watch"); auto d=need(fd,"inotify_add_watch"); if(!d) E_(EBADF); if(d->kind!=D_NOTIFY||d->n->fan) E_(EINVAL); std::string p=cpath(path); if(p.size()>=PATH_MAX) E_(ENAMETOOLONG); int r=resolve(p,!(mask&IN_DONT_FOLLOW)); if(r<0) E_(-r); auto&i=inos[r]; if((mask&IN_ONLYDIR)&&i.kind!='d') E_(ENOTDIR); if(i.noaccess) E_(EACCES);
  auto&n=*d->n; for(auto&w:n.wd) if(w.second.ino==r){ if(mask&IN_MASK_CREATE) E_(EEXIST); w.second.mask=(mask&IN_MASK_ADD)?(w.second.mask|mask):mask; note(sfmt("inotify_add_watch(%s) -> %d again",path,w.first)); return w.first; }
  if((int)n.wd.size()>=cfg.wd_max) E_(ENOSPC); int w=n.next_wd++; n.wd[w]={r,mask}; note(sfmt("inotify_add_watch(%.200s) -> %d",path,w)); return w; }
int inotify_rm_watch(int fd,int wd){ if(!on()) PASS(inotify_rm_watch,fd,wd); ENTER("inotify_rm_watch"); FAULT("inotify_rm_watch"); auto d=need(fd,"inotify_rm_watch"); if(!d) E_(EBADF); if(d->kind!=D_NOTIFY||d->n->fan) E_(EINVAL); auto it=d->n->wd.find(wd); if(it==d->n->wd.end()) E_(EINVAL); Rec r; r.mask=IN_IGNORED; r.wd=wd; r.dir_ino=it->second.ino; r.inst=d->n->inst; r.seq=now_seq(); d->n->wd.erase(it); d->n->q.push_back(r); arm_desc(d.get()); note(sfmt("inotify_rm_watch %d",wd)); return 0; }

/* ---------- fanotify ---------- */
int fanotify_init(unsigned fl,unsigned evf){ if(!on()) PASS(fanotify_init,fl,evf); ENTER("fanotify_init"); if(!cfg.root&&(fl&(FAN_UNLIMITED_QUEUE|FAN_UNLIMITED_MARKS))) E_(EPERM); if(!cfg.fanotify_ok) E_(EPERM); FAULT("fanotify_init");
  if(!(fl&FAN_REPORT_DIR_FID)||!(fl&FAN_REPORT_NAME)||!(fl&FAN_REPORT_FID)) unmodeled(sfmt("fanotify_init flags %x",fl)); if(fl&FAN_REPORT_TARGET_FID & ~FAN_REPORT_DFID_NAME) {} 
  auto d=std::make_shared<Desc>(); d->kind=D_NOTIFY; d->name="fanotify"; d->nonblock=fl&FAN_NONBLOCK; d->n=std::make_shared<Notify>(); d->n->fan=true; d->n->inst=new_inst(); d->n->desc=d.get(); notifies.push_back(d->n); int n=alloc_fd(d); note(sfmt("fanotify_init -> %d",n)); return n; }
int fanotify_mark(int fd,unsigned fl,uint64_t mask,int dfd,char const*path){ if(!on()) PASS(fanotify_mark,fd,fl,mask,dfd,path); ENTER("fanotify_mark"); FAULT("fanotify_mark"); auto d=need(fd,"fanotify_mark"); if(!d) E_(EBADF); if(d->kind!=D_NOTIFY||!d->n->fan) E_(EINVAL);
  if(fl&(FAN_MARK_MOUNT|FAN_MARK_FILESYSTEM|FAN_MARK_FLUSH|FAN_MARK_IGNORED_MASK)) unmodeled(sfmt("fanotify_mark flags %x",fl)); std::string p=cpath(path); if(p.size()>=PATH_MAX) E_(ENAMETOOLONG); std::string base; if(dfd!=AT_FDCWD&&!(p.size()&&p[0]=='/')){ auto b=need(dfd,"fanotify_mark"); if(!b) E_(EBADF); base=path_of_ino(b->ino); if(!path) p="."; }
  int r=resolve(p,!(fl&FAN_MARK_DONT_FOLLOW),nullptr,nullptr,0,base); if(r<0) E_(-r); if((fl&FAN_MARK_ONLYDIR)&&inos[r].kind!='d') E_(ENOTDIR); if(inos[r].noaccess) E_(EACCES); if(fl&FAN_MARK_ADD) d->n->marks[r]|=mask; else if(fl&FAN_MARK_REMOVE){ auto it=d->n->marks.find(r); if(it==d->n->marks.end()||!(it->second&mask)) E_(ENOENT); it->second&=~mask; if(!(it->second&~(uint64_t)(FAN_ONDIR|FAN_EVENT_ON_CHILD))) d->n->marks.erase(it); } else E_(EINVAL); note(sfmt("fanotify_mark %.200s",p.c_str())); return 0; }
int open_by_handle_at(int mfd,struct file_handle*h,int fl){ if(!on()) PASS(open_by_handle_at,mfd,h,fl); ENTER("open_by_handle_at"); FAULT("open_by_handle_at"); int mfs=cfg.cwd_fs; if(mfd!=AT_FDCWD){ auto b=need(mfd,"open_by_handle_at"); if(!b) E_(EBADF); if(b->kind==D_PATH) E_(EBADF); mfs=b->ino?inos[b->ino].fs:0; } else { int c=resolve(cfg.cwd,true); mfs=c>0?inos[c].fs:mfs; if(cfg.cwd_fs) mfs=cfg.cwd_fs; }
  if((int)h->handle_bytes!=cfg.handle_bytes) E_(EINVAL); int ino; memcpy(&ino,h->f_handle,4); auto it=inos.find(ino); if(it==inos.end()||it->second.dead||it->second.fs!=mfs) E_(ESTALE); it->second.opens++; auto d=std::make_shared<Desc>(); d->kind=fl&O_PATH?D_PATH:D_DIR; d->ino=ino; d->name="handle of "+path_of_ino(ino); return alloc_fd(d); }
int name_to_handle_at(int,const char*,struct file_handle*,int*,int){ if(!on()){ errno=ENOSYS; return -1; } unmodeled("name_to_handle_at"); }

/* ---------- paths ---------- */
static int do_open(int dfd,char const*path,int fl,int){ FAULT("open"); std::string p=cpath(path),base; if(dfd!=AT_FDCWD&&!(p.size()&&p[0]=='/')){ auto b=need(dfd,"openat"); if(!b) E_(EBADF); base=path_of_ino(b->ino); if(base.empty()) E_(ENOENT);} if(fl&(O_CREAT|O_WRONLY|O_RDWR|O_TRUNC)) unmodeled("open for writing by the code under test: "+p); if(p.size()>=PATH_MAX) E_(ENAMETOOLONG); int r=resolve(p,!(fl&O_NOFOLLOW),nullptr,nullptr,0,base); if(r<0) E_(-r); auto&i=inos[r]; if((fl&O_DIRECTORY)&&i.kind!='d') E_(i.kind=='l'&&(fl&O_NOFOLLOW)?ELOOP:ENOTDIR); if(i.noaccess&&!(fl&O_PATH)) E_(EACCES); i.opens++; auto d=std::make_shared<Desc>(); d->kind=fl&O_PATH?D_PATH:(i.kind=='d'?D_DIR:D_FILE); d->ino=r; d->name="open "+p; return alloc_fd(d); }
int open(char const*path,int fl,...){ va_list ap; va_start(ap,fl); int m=(fl&(O_CREAT|O_TMPFILE))?va_arg(ap,int):0; va_end(ap); if(!on()){ long r=raw6(SYS_openat,AT_FDCWD,(long)path,fl,m); if(r<0){errno=-r;return -1;} return r; } ENTER("open"); return do_open(AT_FDCWD,path,fl,m); }
int open64(char const*path,int fl,...) __attribute__((alias("open")));
int openat(int dfd,char const*path,int fl,...){ va_list ap; va_start(ap,fl); int m=(fl&(O_CREAT|O_TMPFILE))?va_arg(ap,int):0; va_end(ap); if(!on()){ long r=raw6(SYS_openat,dfd,(long)path,fl,m); if(r<0){errno=-r;return -1;} return r; } ENTER("openat"); return do_open(dfd,path,fl,m); }
int openat64(int dfd,char const*path,int fl,...) __attribute__((alias("openat")));
int __openat_2(int dfd,char const*path,int fl){ return openat(dfd,path,fl); }
int __openat64_2(int dfd,char const*path,int fl){ return openat(dfd,path,fl); }
int __open_2(char const*path,int fl){ return open(path,fl); }
int __open64_2(char const*path,int fl){ return open(path,fl); }

static int fillstat(int r,struct stat*s){ auto&i=inos[r]; memset(s,0,sizeof *s); s->st_ino=i.id; s->st_dev=1+i.fs; s->st_nlink=i.nlink; s->st_mode=(i.kind=='d'?S_IFDIR|0755:i.kind=='l'?S_IFLNK|0777:i.kind=='p'?S_IFIFO|0644:S_IFREG|0644); s->st_mtim.tv_sec=i.mtime/1000000000; s->st_mtim.tv_nsec=i.mtime%1000000000; s->st_ctim=s->st_atim=s->st_mtim; return 0; }
static int dostat(std::string p,struct stat*s,bool follow,std::string base=""){ FAULT("stat"); int pf=-1,pn=0; if(!follow&&(sscanf(p.c_str(),"/proc/self/fd/%d%n",&pf,&pn)==1||sscanf(p.c_str(),"/dev/fd/%d%n",&pf,&pn)==1||sscanf(p.c_str(),"/proc/thread-self/fd/%d%n",&pf,&pn)==1)&&(size_t)pn==p.size()){ if(!get(pf)) E_(ENOENT); memset(s,0,sizeof *s); s->st_mode=S_IFLNK|0700; s->st_nlink=1; s->st_size=64; return 0; } if(p.size()>=PATH_MAX) E_(ENAMETOOLONG); int r=resolve(p,follow,nullptr,nullptr,0,base); if(r<0) E_(-r); return fillstat(r,s); }
int stat(char const*p,struct stat*s){ if(!on()){ long r=raw6(SYS_newfstatat,AT_FDCWD,(long)p,(long)s,0); if(r<0){errno=-r;return -1;} return 0; } ENTER("stat"); return dostat(cpath(p),s,true); }
int stat64(char const*p,struct stat64*s){ return stat(p,(struct stat*)s); }
int lstat(char const*p,struct stat*s){ if(!on()){ long r=raw6(SYS_newfstatat,AT_FDCWD,(long)p,(long)s,AT_SYMLINK_NOFOLLOW); if(r<0){errno=-r;return -1;} return 0; } ENTER("lstat"); return dostat(cpath(p),s,false); }
int lstat64(char const*p,struct stat64*s){ return lstat(p,(struct stat*)s); }
int fstat(int fd,struct stat*s){ if(!on()){ long r=raw6(SYS_fstat,fd,(long)s); if(r<0){errno=-r;return -1;} return 0; } ENTER("fstat"); auto d=need(fd,"fstat"); if(!d) E_(EBADF); if(!d->ino){ memset(s,0,sizeof *s); return 0; } return fillstat(d->ino,s); }
int fstat64(int fd,struct stat64*s){ return fstat(fd,(struct stat*)s); }
int fstatat(int dfd,char const*p,struct stat*s,int fl){ if(!on()){ long r=raw6(SYS_newfstatat,dfd,(long)p,(long)s,fl); if(r<0){errno=-r;return -1;} return 0; } ENTER("fstatat"); std::string base,q=cpath(p); if(dfd!=AT_FDCWD&&!(q.size()&&q[0]=='/')){ auto d=need(dfd,"fstatat"); if(!d) E_(EBADF); base=path_of_ino(d->ino); if(q.empty()&&(fl&AT_EMPTY_PATH)) return fillstat(d->ino,s); } return dostat(q,s,!(fl&AT_SYMLINK_NOFOLLOW),base); }
int fstatat64(int d,char const*p,struct stat64*s,int fl){ return fstatat(d,p,(struct stat*)s,fl); }
int statx(int dfd,char const*p,int fl,unsigned,struct statx*x){ if(!on()){ errno=ENOSYS; return -1; } struct stat s; int r=fstatat(dfd,p,&s,fl); if(r) return r; InSim g; memset(x,0,sizeof *x); x->stx_mask=STATX_BASIC_STATS; x->stx_mode=s.st_mode; x->stx_ino=s.st_ino; x->stx_nlink=s.st_nlink; x->stx_mtime.tv_sec=s.st_mtim.tv_sec; x->stx_mtime.tv_nsec=s.st_mtim.tv_nsec; return 0; }
int access(char const*p,int m){ if(!on()){ long r=raw6(SYS_access,(long)p,m); if(r<0){errno=-r;return -1;} return 0; } ENTER("access"); int r=resolve(cpath(p),true); if(r<0) E_(-r); return 0; }
char* realpath(char const*p,char*out){ if(!on()) PASS(realpath,p,out); if(cfg.read_points) sched_point("realpath"); InSim g; vnow+=100; if(int e=fault("realpath")){ errno=e; return nullptr; } std::string s=cpath(p); if(s.size()>=PATH_MAX){ errno=ENAMETOOLONG; return nullptr; } int r=resolve(s,true); if(r<0){ errno=-r; return nullptr; } 
  int par; std::string last; resolve(s,true,&par,&last); std::string q; if(inos[r].kind=='d') q=path_of_ino(r); else { q=path_of_ino(par)+"/"+last; } if(q.empty()){ errno=ENOENT; return nullptr; } if(q.size()>=PATH_MAX){ errno=ENAMETOOLONG; return nullptr; } if(!out) out=(char*)malloc(q.size()+1); else if(rt_write_range) rt_write_range(out,q.size()+1); memcpy(out,q.c_str(),q.size()+1); return out; }
char* __realpath_chk(char const*p,char*out,size_t){ return realpath(p,out); }
char* canonicalize_file_name(char const*p){ return realpath(p,nullptr); }
ssize_t readlink(char const*p,char*buf,size_t n){ if(!on()){ long r=raw6(SYS_readlink,(long)p,(long)buf,n); if(r<0){errno=-r;return -1;} return r; } ENTER("readlink"); FAULT("readlink"); std::string s=cpath(p),t; int fd=-1; if(sscanf(s.c_str(),"/proc/self/fd/%d",&fd)==1||sscanf(s.c_str(),"/dev/fd/%d",&fd)==1||sscanf(s.c_str(),"/proc/thread-self/fd/%d",&fd)==1){ auto d=get(fd); if(!d) E_(ENOENT); if(!d->ino) t="anon_inode:["+d->name+"]"; else { t=path_of_ino(d->ino); if(t.empty()){ auto&h=inos[d->ino].hist; for(auto i=h.rbegin();i!=h.rend();++i) if(!i->second.empty()){ t=i->second; break; } t+=" (deleted)"; } } if(t.size()>=PATH_MAX) E_(ENAMETOOLONG); }
  else { int r=resolve(s,false); if(r<0) E_(-r); if(inos[r].kind!='l') E_(EINVAL); t=inos[r].target; } size_t k=std::min(n,t.size()); if(rt_write_range) rt_write_range(buf,k); memcpy(buf,t.data(),k); return k; }
ssize_t __readlink_chk(char const*p,char*b,size_t n,size_t){ return readlink(p,b,n); }
ssize_t readlinkat(int dfd,char const*p,char*b,size_t n){ if(!on()){ long r=raw6(SYS_readlinkat,dfd,(long)p,(long)b,n); if(r<0){errno=-r;return -1;} return r; } if(p&&p[0]=='/') return readlink(p,b,n); unmodeled("readlinkat relative"); }
char* getcwd(char*b,size_t n){ if(!on()){ if(!b) PASS(getcwd,b,n); long r=raw6(SYS_getcwd,(long)b,n); if(r<0){errno=-r;return nullptr;} return b; } ENTER("getcwd"); if(int e=fault("getcwd")){ errno=e; return nullptr; } if(cfg.cwd.size()+1>n&&n){ errno=ERANGE; return nullptr; } if(!b) b=(char*)malloc(std::max(n,cfg.cwd.size()+1)); memcpy(b,cfg.cwd.c_str(),cfg.cwd.size()+1); return b; }
long pathconf(char const*p,int n){ if(!on()) PASS(pathconf,p,n); return n==_PC_PATH_MAX?PATH_MAX:n==_PC_NAME_MAX?NAME_MAX:-1; }
int statfs(char const*p,struct statfs*s){ if(!on()) PASS(statfs,p,s); ENTER("statfs"); int r=resolve(cpath(p),true); if(r<0) E_(-r); memset(s,0,sizeof *s); s->f_type=0xEF53; return 0; }

/* ---------- directories ---------- */
struct SimDir { uint64_t magic; int ino; std::vector<std::pair<std::string,std::pair<int,char>>> ents; size_t pos; bool filled; struct dirent de; int fd; std::string label; };
constexpr uint64_t MAGIC=0x51d1f00dd1f51d1full;
static DIR* mkdir_stream(int r,int fd,std::string const&label){ auto*s=new SimDir; s->magic=MAGIC; s->ino=r; s->pos=0; s->filled=false; s->fd=fd; s->label=label; dir_open_paths.push_back(label); return (DIR*)s; }
DIR* opendir(char const*p){ if(!on()) PASS(opendir,p); if(cfg.read_points) sched_point("opendir"); InSim g; vnow+=100; if(int e=fault("opendir")){ errno=e; return nullptr; } std::string s=cpath(p); if(s.size()>=PATH_MAX){ errno=ENAMETOOLONG; return nullptr; } int r=resolve(s,true); if(r<0){ errno=-r; return nullptr; } if(inos[r].kind!='d'){ errno=ENOTDIR; return nullptr; } if(inos[r].noaccess){ errno=EACCES; return nullptr; } inos[r].opens++; return mkdir_stream(r,-1,s); }
DIR* fdopendir(int fd){ if(!on()) PASS(fdopendir,fd); if(cfg.read_points) sched_point("fdopendir"); InSim g; auto d=need(fd,"fdopendir"); if(!d){ errno=EBADF; return nullptr; } if(!d->ino||inos[d->ino].kind!='d'){ errno=ENOTDIR; return nullptr; } return mkdir_stream(d->ino,fd,d->name); }
static struct dirent* rd(DIR*dp){ auto*s=(SimDir*)dp; if(cfg.read_points) sched_point("readdir"); InSim g; if(s->magic!=MAGIC) violation("readdir on a directory stream that is not open"); if(int e=fault("readdir")){ errno=e; return nullptr; }
  if(!s->filled){ s->filled=true; s->ents.push_back({".",{s->ino,'d'}}); s->ents.push_back({"..",{s->ino,'d'}}); auto k=inos[s->ino].kids; if(cfg.readdir_rev) std::reverse(k.begin(),k.end()); for(auto&e:k) s->ents.push_back({e.first,{e.second,inos[e.second].kind}}); }
  if(s->pos>=s->ents.size()) return nullptr; auto&e=s->ents[s->pos++]; memset(&s->de,0,sizeof s->de); s->de.d_ino=e.second.first; char k=e.second.second; s->de.d_type=cfg.dtype_unknown?DT_UNKNOWN:k=='d'?DT_DIR:k=='l'?DT_LNK:k=='p'?DT_FIFO:DT_REG; snprintf(s->de.d_name,sizeof s->de.d_name,"%s",e.first.c_str()); s->de.d_reclen=sizeof s->de; if(rt_write_range) rt_write_range(&s->de,280); return &s->de; }
static bool isim(DIR*d){ return d&&on(); }
struct dirent* readdir(DIR*d){ if(!isim(d)) PASS(readdir,d); return rd(d); }
struct dirent64* readdir64(DIR*d){ if(!isim(d)) PASS(readdir64,d); return (struct dirent64*)rd(d); }
int closedir(DIR*d){ if(!isim(d)) PASS(closedir,d); ENTER("closedir"); auto*s=(SimDir*)d; if(s->magic!=MAGIC){ reserr.push_back("closedir on a directory stream that is not open"); E_(EBADF);} s->magic=0; for(auto i=dir_open_paths.begin();i!=dir_open_paths.end();++i) if(*i==s->label){ dir_open_paths.erase(i); break; } if(s->fd>=0){ int f=s->fd; --in_sim; close(f); ++in_sim; } else ino_put(s->ino); /* the stream's memory is kept, so that later use is seen */ return 0; }
int dirfd(DIR*d){ if(!isim(d)) PASS(dirfd,d); InSim g; auto*s=(SimDir*)d; if(s->fd<0){ auto q=std::make_shared<Desc>(); q->kind=D_DIR; q->ino=s->ino; q->name="dirfd"; q->foreign=false; inos[s->ino].opens++; s->fd=alloc_fd(q); ino_put(s->ino);} return s->fd; }
void rewinddir(DIR*d){ if(!isim(d)){ static auto f=NEXT(rewinddir); f(d); return; } auto*s=(SimDir*)d; s->pos=0; s->filled=false; s->ents.clear(); }
}
size_t sim_pending(Desc*d){ size_t t=0; for(auto&r:d->n->q) t+=16+((r.name.size()+16)/16)*16; return t; }
