/*  The simulated kernel: filesystem tree, inotify, fanotify, epoll, eventfd. */
#include "internal.h"
#include "kernel.h"
#include <sys/inotify.h>
#include <sys/fanotify.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/stat.h>
#include <limits.h>
#include <fcntl.h>
#include <algorithm>

namespace sim {
Config cfg; std::vector<FaultRule> faults; bool capture_output=false;
static std::map<std::string,int> always_; static bool faults_on=false; static int nfaults=0; static std::vector<std::string> flog;
static std::string outcap[3];
std::map<int,Ino> inos; int next_ino; std::map<int,std::shared_ptr<Desc>> fds; std::vector<std::shared_ptr<Notify>> notifies;
uint64_t seqno; static uint32_t next_cookie; std::vector<Rec> delivered_; static int nbatch; std::vector<std::string> reserr; 
static std::vector<std::shared_ptr<Desc>> foreign; static std::vector<int> foreign_nums; int ndirs_open=0; std::vector<std::string> dir_open_paths;
static uint64_t vfs_h=0; static bool vfs_dirty=true;
std::string stdin_buf; bool stdin_eof=false;
static std::vector<int> held; int ninst; std::vector<std::string> unasked_;
std::vector<std::string> const& unasked(){ return unasked_; }

void faults_enable(bool o){ faults_on=o; }
int faults_injected(){ return nfaults; }
std::vector<std::string> const& fault_log(){ return flog; }
int fault(char const* call){
  if(self->env) return 0; { auto it=always_.find(call); if(it!=always_.end()) return it->second; } if(!faults_on) return 0;
  for(auto&r:faults) if(r.call==call){ int c=deviate(1+r.errs.size(),sfmt("fault %s",call).c_str()); if(c){ nfaults++; int e=r.errs[c-1]; flog.push_back(sfmt("%s:%d",call,e)); note(sfmt("FAULT %s fails with errno %d",call,e)); observe(sfmt("fault %s %d",call,e)); return e; } }
  return 0; }

static Ino& mk(char kind,int parent){ int id=next_ino++; auto&i=inos[id]; i.id=id; i.kind=kind; i.parent=parent; i.nlink=1; i.mtime=vnow; if(parent) i.fs=inos[parent].fs; return i; }
void fault_always(std::string const&c,int e){ InSim g; always_[c]=e; }
void kernel_restart(){ InSim g; kernel_reset(); }
std::vector<std::pair<int,bool>> instances(){ InSim g; std::vector<std::pair<int,bool>> r; for(auto&n:notifies) r.push_back({n->inst,n->fan}); return r; }
int inst_of(int){ return ninst-1; }
std::vector<int> inst_thread;
int inst_of_thread(int t){ InSim g; for(int i=(int)inst_thread.size()-1;i>=0;--i) if(inst_thread[i]==t) return i; for(auto&r:delivered_) if(r.reader==t) return r.inst; return -1; }
long queued_of(int inst){ InSim g; for(auto&n:notifies) if(n->inst==inst) return n->q.size(); return 0; }
void kernel_reset(){ always_.clear(); inos.clear(); fds.clear(); notifies.clear(); next_ino=1; mk('d',0); seqno=0; next_cookie=0; delivered_.clear(); nbatch=0; reserr.clear(); foreign.clear(); foreign_nums.clear(); ndirs_open=0; nfaults=0; flog.clear(); faults_on=false; cfg=Config{}; faults.clear(); vfs_dirty=true; stdin_buf.clear(); stdin_eof=false; held.clear(); ninst=0; unasked_.clear(); for(auto&o:outcap)o.clear(); env_mkdirs("/cwd"); env_mkdirs("/proc/self/fd"); }
std::string& out_capture(int fd){ return outcap[fd]; }
uint64_t now_seq(){ return seqno; }

/* ---- paths ---- */
std::string path_of_ino(int id){ auto it=inos.find(id); if(it==inos.end()) return ""; if(id==1) return "/"; std::string p; int g=0;
  while(id!=1){ auto&i=inos[id]; if(i.dead||i.parent==0) return ""; auto&pi=inos[i.parent]; std::string n; for(auto&k:pi.kids) if(k.second==id){ n=k.first; break; } if(n.empty()) return ""; p="/"+n+p; id=i.parent; if(++g>100000) return ""; }
  return p; }
static void touch_paths(){ vfs_dirty=true; for(auto&kv:inos){ auto&i=kv.second; if(i.kind!='d') continue; std::string p=path_of_ino(i.id); if(i.hist.empty()||i.hist.back().second!=p) i.hist.push_back({seqno,p}); } }
std::vector<std::string> paths_of_ino_since(int ino,uint64_t s){ std::vector<std::string> r; auto it=inos.find(ino); if(it==inos.end()) return r; auto&h=it->second.hist; for(size_t k=0;k<h.size();++k){ bool live_after = k+1>=h.size()||h[k+1].first>=s; if(live_after) r.push_back(h[k].second); } return r; }

/* resolve; returns inode id or -errno */
/*  /proc/self/fd/N and the like: the descriptor, and how many components name it (nothing, and some, if it is closed). */
static Desc*procfd(std::vector<std::string> const&c,std::string const&path,size_t&k){ if(path[0]!='/') return nullptr; size_t n=c.size()>3&&c[0]=="proc"&&(c[1]=="self"||c[1]=="thread-self")&&c[2]=="fd"?4:c.size()>2&&c[0]=="dev"&&c[1]=="fd"?3:0; if(!n) return nullptr; auto&s=c[n-1]; if(s.empty()||s.size()>9||s.find_first_not_of("0123456789")!=std::string::npos) return nullptr; k=n; auto it=fds.find(atoi(s.c_str())); return it==fds.end()?nullptr:it->second.get(); }
int resolve(std::string const& path,bool follow,int* parent,std::string* last,int depth,std::string const& base){
  if(path.empty()) return -ENOENT; if(depth>40) return -ELOOP;
  std::vector<std::string> comps; size_t i=0; while(i<path.size()){ size_t e=path.find('/',i); if(e==std::string::npos)e=path.size(); if(e>i) comps.push_back(path.substr(i,e-i)); i=e+1; }
  bool trail=path.back()=='/';
  int cur=1; if(path[0]!='/'){ std::string b=base.empty()?cfg.cwd:base; cur=resolve(b,true,nullptr,nullptr,depth+1,""); if(cur<0) return cur; }
  if(parent) *parent=cur; if(last) *last=".";
  size_t k0=0; if(auto*f=procfd(comps,path,k0)){ if(!f->ino) return -EACCES; cur=f->ino; if(parent) *parent=inos[cur].parent; if(k0<comps.size()&&parent) *parent=cur; } else if(k0) return -ENOENT;
  for(size_t k=k0;k<comps.size();++k){ auto&c=comps[k]; bool fin=k+1==comps.size(); auto&d=inos[cur]; if(d.kind!='d') return -ENOTDIR; if(c.size()>NAME_MAX) return -ENAMETOOLONG;
    if(c=="."){ if(fin){ if(parent)*parent=cur; if(last)*last="."; } continue; }
    if(c==".."){ cur=d.parent?d.parent:1; if(fin){ if(parent)*parent=cur; if(last)*last="."; } continue; }
    if(parent) *parent=cur; if(last) *last=c;
    if(d.noaccess==2) return -EACCES;
    auto it=d.find(c); if(!it){ if(!fin&&parent){ *parent=0; } return -ENOENT; }
    auto&n=inos[it];
    if(n.kind=='l'&&(!fin||follow||trail)){ std::string t=n.target; int np=0; std::string nl; int r=resolve(t,true,&np,&nl,depth+1,path_of_ino(cur)); if(r<0) return r; cur=r; continue; }
    cur=it; }
  if(trail&&inos[cur].kind!='d') return -ENOTDIR;
  return cur; }
static int dirid(std::string const& p){ int r=resolve(p,true); return r; }

uint64_t kernel_hash(){
  if(vfs_dirty){ uint64_t h=7; for(auto&kv:inos){ auto&i=kv.second; h=mix(h,i.id*4+i.kind); h=mix(h,i.nlink); for(auto&k:i.kids){ h=fnv(k.first.data(),k.first.size(),h); h=mix(h,k.second);} } vfs_h=h; vfs_dirty=false; }
  uint64_t h=vfs_h; for(auto&f:fds){ h=mix(h,f.first*16+f.second->kind); h=mix(h,f.second->count); }
  for(auto&n:notifies){ h=mix(h,n->q.size()); for(auto&r:n->q){ h=mix(h,r.mask); h=mix(h,r.dir_ino); h=fnv(r.name.data(),r.name.size(),h);} for(auto&w:n->wd){ h=mix(h,w.first); h=mix(h,w.second.ino);} for(auto&m:n->marks) h=mix(h,m.first); }
  return h; }

/* ---- notification ---- */
static void arm(Notify*n){ for(auto&f:fds) if(f.second->kind==D_EPOLL) for(auto&it:f.second->items) if(it.d.lock().get()==n->desc) it.armed=true; }
void arm_desc(Desc*d){ for(auto&f:fds) if(f.second->kind==D_EPOLL) for(auto&it:f.second->items) if(it.d.lock().get()==d) it.armed=true; }
static void push(Notify*n,Rec r){
  r.seq=++seqno; r.t_queued=vnow; r.fan=n->fan; r.inst=n->inst;
  if(!n->fan){
    if((int)n->q.size()>=cfg.queue_max){ if(n->q.empty()||!(n->q.back().mask&IN_Q_OVERFLOW)){ Rec o; o.seq=seqno; o.mask=IN_Q_OVERFLOW; o.wd=-1; o.t_queued=vnow; o.inst=n->inst; n->q.push_back(o); arm(n);} n->lost++; return; }
    if(!n->q.empty()){ auto&l=n->q.back(); if(l.mask==r.mask&&l.wd==r.wd&&l.name==r.name&&!(l.mask&IN_IGNORED)&&!(l.mask&IN_Q_OVERFLOW)) { l.t_queued=vnow; return; } }
  } else {
    if(cfg.fan_overflow&&(int)n->q.size()>=cfg.queue_max){ if(n->q.empty()||!(n->q.back().mask&FAN_Q_OVERFLOW)){ Rec o; o.seq=seqno; o.mask=FAN_Q_OVERFLOW; o.fan=true; o.t_queued=vnow; o.inst=n->inst; n->q.push_back(o); arm(n);} n->lost++; return; }
    if(cfg.fan_merge) for(auto it=n->q.rbegin();it!=n->q.rend();++it){ auto&l=*it; if(l.dir_ino==r.dir_ino&&l.name==r.name&&l.wd==r.wd&&(l.mask&FAN_ONDIR)==(r.mask&FAN_ONDIR)&&!(l.mask&FAN_Q_OVERFLOW)){ l.mask|=r.mask; if(l.cookie!=r.cookie) l.cookie=0; l.t_queued=vnow; return; } }
  }
  n->q.push_back(r); arm(n); }
/* event on directory entry: dir d, name, child c */
static void notify_entry(int d,std::string const& name,int child,uint32_t mask,uint32_t cookie=0){
  bool isdir=child&&inos[child].kind=='d'; std::string dp=path_of_ino(d);
  uint32_t const want=IN_CREATE|IN_DELETE|IN_MODIFY|IN_MOVED_FROM|IN_MOVED_TO;
  for(auto&n:notifies){ if(!n->fan){ for(auto&w:n->wd) if(w.second.ino==d&&(mask&want)&&!(w.second.mask&mask)) unasked_.push_back(sfmt("%x on %s/%s",mask,dp.c_str(),name.c_str())); } }
  for(auto&n:notifies){ if(!n->fan){ for(auto&w:n->wd) if(w.second.ino==d&&(w.second.mask&mask)){ if((w.second.mask&IN_EXCL_UNLINK)&&inos[child].nlink==0) continue; Rec r; r.mask=mask|(isdir?IN_ISDIR:0); r.cookie=cookie; r.wd=w.first; r.dir_ino=d; r.dir_path=dp; r.name=name; push(n.get(),r); 
          if(w.second.mask&IN_ONESHOT){ int wd=w.first; Rec g; g.mask=IN_IGNORED; g.wd=wd; g.dir_ino=d; g.dir_path=dp; push(n.get(),g); n->wd.erase(wd); break; } } }
    else { uint32_t fm=0; if(mask&IN_CREATE)fm|=FAN_CREATE; if(mask&IN_DELETE)fm|=FAN_DELETE; if(mask&IN_MOVED_FROM)fm|=FAN_MOVED_FROM; if(mask&IN_MOVED_TO)fm|=FAN_MOVED_TO; bool dirent=fm;
      if(mask&IN_MODIFY)fm|=FAN_MODIFY; if(mask&IN_ATTRIB)fm|=FAN_ATTRIB; if(mask&IN_ACCESS)fm|=FAN_ACCESS; if(mask&IN_OPEN)fm|=FAN_OPEN; if(mask&IN_CLOSE_WRITE)fm|=FAN_CLOSE_WRITE; if(mask&IN_CLOSE_NOWRITE)fm|=FAN_CLOSE_NOWRITE;
      auto it=n->marks.find(d); if(it==n->marks.end()) continue; bool given=(it->second&fm)&&!(isdir&&!(it->second&FAN_ONDIR))&&!(!dirent&&!(it->second&FAN_EVENT_ON_CHILD)); if(!given){ if(mask&want) unasked_.push_back(sfmt("%x on %s/%s",mask,dp.c_str(),name.c_str())); continue; }
      Rec r; r.mask=(fm&it->second)|(isdir?FAN_ONDIR:0); r.dir_ino=d; r.dir_path=dp; r.name=name; r.cookie=cookie; r.wd=dirent?0:child; push(n.get(),r); } } }
/* event on the inode itself */
static void notify_self(int i,uint32_t mask,bool isdirbit){ std::string p=path_of_ino(i); for(auto&n:notifies){ if(!n->fan){ for(auto&w:n->wd) if(w.second.ino==i&&(w.second.mask&mask)){ Rec r; r.mask=mask|(isdirbit?IN_ISDIR:0); r.wd=w.first; r.dir_ino=i; r.dir_path=p; push(n.get(),r);} }
    else { uint32_t fm=0; if(mask&IN_DELETE_SELF)fm|=FAN_DELETE_SELF; if(mask&IN_MOVE_SELF)fm|=FAN_MOVE_SELF; if(mask&IN_ATTRIB)fm|=FAN_ATTRIB; if(mask&IN_OPEN)fm|=FAN_OPEN; if(mask&IN_ACCESS)fm|=FAN_ACCESS; if(mask&IN_CLOSE_NOWRITE)fm|=FAN_CLOSE_NOWRITE;
      auto it=n->marks.find(i); if(it==n->marks.end()||!(it->second&fm)||!(it->second&FAN_ONDIR)) continue; Rec r; r.mask=fm|FAN_ONDIR; r.dir_ino=i; r.dir_path=p; r.name="."; push(n.get(),r);} } }
static void ignored(int i){ std::string p; for(auto&n:notifies){ std::vector<int> gone; for(auto&w:n->wd) if(w.second.ino==i) gone.push_back(w.first); for(int w:gone){ Rec r; r.mask=IN_IGNORED; r.wd=w; r.dir_ino=i; r.dir_path=p; push(n.get(),r); n->wd.erase(w);} n->marks.erase(i);} }
/*  The halves of a rename, and the news of a removed directory, are queued one after the other: a reader can come in between. */
static thread_local bool in_op; static void mid(){ if(!in_op||in_sim!=1) return; in_sim--; sched_point("env between"); in_sim++; }
static void inode_gone(int i){ auto&x=inos[i]; if(x.nlink==0&&x.opens==0&&!x.dead){ x.dead=true; if(x.kind=='d'){ notify_self(i,IN_DELETE_SELF,false); mid(); ignored(i);} else { notify_self(i,IN_ATTRIB,false); notify_self(i,IN_DELETE_SELF,false); ignored(i);} vfs_dirty=true; } }
void ino_put(int i){ auto it=inos.find(i); if(it==inos.end()) return; if(it->second.opens>0) it->second.opens--; inode_gone(i); }

/* ---- environment operations ---- */
static int parent_of(std::string const&p,int*par,std::string*nm){ int r=resolve(p,false,par,nm); if(r==-ENOENT&&*par==0) return -ENXIO; return r; }
struct Op { InSim g; Op(std::string const& d){ { in_sim--; sched_point("env op"); in_sim++; } vnow+=1000; note("env: "+d); in_op=true; } ~Op(){ in_op=false; vnow+=1000; touch_paths(); } };

int env_mkdirs(std::string const& p){ std::string a; size_t i=1; int rc=0; while(i<=p.size()){ size_t e=p.find('/',i); if(e==std::string::npos)e=p.size(); a=p.substr(0,e); int par; std::string nm; int r=parent_of(a,&par,&nm); if(r==-ENOENT){ auto&n=mk('d',par); inos[par].add(nm,n.id); } else if(r<0) rc=-r; i=e+1; } touch_paths(); return rc; }
int env_mkdir(std::string const& p){ Op o("mkdir "+p); int par; std::string nm; int r=parent_of(p,&par,&nm); if(r>=0) return EEXIST; if(r!=-ENOENT) return -r; if(inos[par].nlink==0) return ENOENT; auto&n=mk('d',par); int id=n.id; inos[par].add(nm,id); inos[par].mtime=vnow; touch_paths(); notify_entry(par,nm,id,IN_CREATE); return 0; }
int env_creat(std::string const& p){ Op o("creat "+p); int par; std::string nm; int r=parent_of(p,&par,&nm); if(r>=0) return EEXIST; if(r!=-ENOENT) return -r; int id=mk('f',par).id; inos[par].add(nm,id); inos[par].mtime=vnow; notify_entry(par,nm,id,IN_CREATE); notify_entry(par,nm,id,IN_OPEN); notify_entry(par,nm,id,IN_CLOSE_WRITE); return 0; }
static int mknode(std::string const& p,char k,std::string const& target){ int par; std::string nm; int r=parent_of(p,&par,&nm); if(r>=0) return EEXIST; if(r!=-ENOENT) return -r; auto&n=mk(k,par); n.target=target; int id=n.id; inos[par].add(nm,id); inos[par].mtime=vnow; notify_entry(par,nm,id,IN_CREATE); return 0; }
int env_symlink(std::string const& t,std::string const& p){ Op o("symlink "+t+" "+p); return mknode(p,'l',t); }
int env_mkfifo(std::string const& p){ Op o("mkfifo "+p); return mknode(p,'p',""); }
static int wr(std::string const& p,bool oc){ int par; std::string nm; int r=resolve(p,true,&par,&nm); if(r<0) return -r; if(inos[r].kind!='f') return EISDIR; inos[r].mtime=vnow;
  if(oc) notify_entry(par,nm,r,IN_OPEN); notify_entry(par,nm,r,IN_MODIFY); if(oc) notify_entry(par,nm,r,IN_CLOSE_WRITE); return 0; }
int env_write(std::string const& p){ Op o("write "+p); return wr(p,true); }
int env_append(std::string const& p){ Op o("append "+p); return wr(p,false); }
int env_unlink(std::string const& p){ Op o("unlink "+p); int par; std::string nm; int r=parent_of(p,&par,&nm); if(r<0) return -r; if(inos[r].kind=='d') return EISDIR; inos[par].del(nm); inos[par].mtime=vnow; inos[r].nlink--; if(inos[r].nlink==0&&inos[r].opens==0){ inode_gone(r); } notify_entry(par,nm,r,IN_DELETE); return 0; }
int env_rmdir(std::string const& p){ Op o("rmdir "+p); int par; std::string nm; int r=parent_of(p,&par,&nm); if(r<0) return -r; auto&d=inos[r]; if(d.kind!='d') return ENOTDIR; if(!d.kids.empty()) return ENOTEMPTY; if(r==1) return EBUSY; inos[par].del(nm); inos[par].mtime=vnow; d.nlink=0; touch_paths(); inode_gone(r); mid(); notify_entry(par,nm,r,IN_DELETE); return 0; }
int env_link(std::string const& a,std::string const& b){ Op o("link "+a+" "+b); int r=resolve(a,false); if(r<0) return -r; if(inos[r].kind=='d') return EPERM; int par; std::string nm; int q=parent_of(b,&par,&nm); if(q>=0) return EEXIST; if(q!=-ENOENT) return -q; inos[par].add(nm,r); inos[par].mtime=vnow; inos[r].nlink++; notify_self(r,IN_ATTRIB,false); notify_entry(par,nm,r,IN_CREATE); return 0; }
static bool is_anc(int a,int d){ int g=0; while(d){ if(a==d) return true; d=inos[d].parent; if(++g>100000) break; } return false; }
int env_rename(std::string const& a,std::string const& b){ Op o("rename "+a+" "+b); int pa,pb; std::string na,nb; int r=parent_of(a,&pa,&na); if(r<0) return -r; int q=parent_of(b,&pb,&nb); if(q<0&&q!=-ENOENT) return -q; if(q==r) return 0; auto&x=inos[r];
  if(x.kind=='d'&&is_anc(r,pb)) return EINVAL;
  if(q>=0){ auto&y=inos[q]; if(x.kind=='d'&&y.kind!='d') return ENOTDIR; if(x.kind!='d'&&y.kind=='d') return EISDIR; if(y.kind=='d'&&!y.kids.empty()) return ENOTEMPTY; if(is_anc(q,pa)) return ENOTEMPTY; }
  inos[pa].del(na); if(q>=0) inos[pb].del(nb); inos[pb].add(nb,r); if(x.kind=='d') x.parent=pb; inos[pa].mtime=inos[pb].mtime=vnow; if(q>=0) inos[q].nlink--; 
  uint32_t ck=++next_cookie;
  /* the source directory may itself have been what moved: its path is taken now */
  touch_paths(); notify_entry(pa,na,r,IN_MOVED_FROM,ck); mid(); notify_entry(pb,nb,r,IN_MOVED_TO,ck); if(q>=0) { notify_self(q,IN_ATTRIB,inos[q].kind=='d'); }
  notify_self(r,IN_MOVE_SELF,false); if(q>=0) inode_gone(q); return 0; }
int env_exchange(std::string const& a,std::string const& b){ Op o("exchange "+a+" "+b); int pa,pb; std::string na,nb; int r=parent_of(a,&pa,&na); if(r<0) return -r; int q=parent_of(b,&pb,&nb); if(q<0) return -q; if(q==r) return 0; if(is_anc(r,pb)||is_anc(q,pa)) return EINVAL;
  inos[pa].set(na,q); inos[pb].set(nb,r); if(inos[r].kind=='d') inos[r].parent=pb; if(inos[q].kind=='d') inos[q].parent=pa; uint32_t c1=++next_cookie,c2=++next_cookie; touch_paths();
  notify_entry(pa,na,r,IN_MOVED_FROM,c1); mid(); notify_entry(pb,nb,r,IN_MOVED_TO,c1); notify_self(r,IN_MOVE_SELF,false); mid(); notify_entry(pb,nb,q,IN_MOVED_FROM,c2); mid(); notify_entry(pa,na,q,IN_MOVED_TO,c2); notify_self(q,IN_MOVE_SELF,false); return 0; }
int env_chmod(std::string const& p){ Op o("chmod "+p); int par; std::string nm; int r=resolve(p,true,&par,&nm); if(r<0) return -r; bool d=inos[r].kind=='d'; if(nm!=".") notify_entry(par,nm,r,IN_ATTRIB); notify_self(r,IN_ATTRIB,d); return 0; }
int env_readfile(std::string const& p){ Op o("read "+p); int par; std::string nm; int r=resolve(p,true,&par,&nm); if(r<0) return -r; if(inos[r].kind!='f') return EISDIR; notify_entry(par,nm,r,IN_OPEN); notify_entry(par,nm,r,IN_ACCESS); notify_entry(par,nm,r,IN_CLOSE_NOWRITE); return 0; }
int env_listdir(std::string const& p){ Op o("list "+p); int par; std::string nm; int r=resolve(p,true,&par,&nm); if(r<0) return -r; if(inos[r].kind!='d') return ENOTDIR; for(uint32_t m:{IN_OPEN,IN_ACCESS,IN_CLOSE_NOWRITE}){ if(nm!=".") notify_entry(par,nm,r,m); notify_self(r,m,true);} return 0; }
int env_access_none(std::string const& p){ InSim g; int r=resolve(p,true); if(r<0) return -r; inos[r].noaccess=1; return 0; }
int env_setfs(std::string const& p,int fs){ InSim g; int r=resolve(p,true); if(r<0) return -r; std::function<void(int)> f=[&](int i){ inos[i].fs=fs; for(auto&k:inos[i].kids) f(k.second); }; f(r); return 0; }
int env_hold(std::string const& p){ InSim g; int r=resolve(p,true); if(r<0) return -r; inos[r].opens++; held.push_back(r); note("env: hold "+p); return 0; }
int env_release(std::string const&){ Op o("release"); auto h=held; held.clear(); for(int r:h) ino_put(r); return 0; }
bool env_exists(std::string const& p){ InSim g; return resolve(p,false)>=0; }
bool env_isdir(std::string const& p){ InSim g; int r=resolve(p,false); return r>=0&&inos[r].kind=='d'; }
long env_mtime(std::string const& p){ InSim g; int r=resolve(p,true); return r<0?-1:inos[r].mtime; }
static void walk(int i,std::string const&p,std::vector<std::string>&out,bool dirs){ out.push_back(p); std::vector<std::pair<std::string,int>> k=inos[i].kids; std::sort(k.begin(),k.end()); for(auto&c:k){ auto&n=inos[c.second]; std::string q=p=="/"?"/"+c.first:p+"/"+c.first; if(n.kind=='d') walk(c.second,q,out,dirs); else if(!dirs) out.push_back(q); } }
std::vector<std::string> env_dirs(std::string const& u){ InSim g; std::vector<std::string> o; int r=dirid(u); if(r<0||inos[r].kind!='d') return o; walk(r,path_of_ino(r),o,true); return o; }
std::vector<std::string> env_all(std::string const& u){ InSim g; std::vector<std::string> o; int r=dirid(u); if(r<0||inos[r].kind!='d') return o; walk(r,path_of_ino(r),o,false); return o; }
std::string env_tree(std::string const& u){ std::string s; for(auto&p:env_all(u)) s+=p+" "; return s; }
std::vector<std::string> watched_dirs(int inst){ InSim g; std::set<std::string> s; for(auto&n:notifies){ if(inst>=0&&n->inst!=inst) continue; for(auto&w:n->wd) s.insert(path_of_ino(w.second.ino)); for(auto&m:n->marks) s.insert(path_of_ino(m.first)); } s.erase(""); return {s.begin(),s.end()}; }
std::vector<Rec> const& delivered(){ return delivered_; }
size_t queued_count(){ size_t n=0; for(auto&x:notifies) n+=x->q.size(); return n; }
std::vector<std::string> open_resources(){ InSim g; std::vector<std::string> r; for(auto&f:fds){ if(f.second->foreign) continue; r.push_back(sfmt("descriptor %d (%s)",f.first,f.second->name.c_str())); } for(auto&d:dir_open_paths) r.push_back("directory stream "+d); return r; }
std::vector<std::string> const& resource_errors(){ return reserr; }
int alloc_fd(std::shared_ptr<Desc> d){ int n=cfg.fd_base; while(fds.count(n)) n++; fds[n]=d; return n; }
int foreign_fd(){ InSim g; auto d=std::make_shared<Desc>(); d->kind=D_FILE; d->foreign=true; d->name="foreign"; foreign.push_back(d); int n=alloc_fd(d); foreign_nums.push_back(n); return n; }
bool foreign_ok(int fd){ auto it=fds.find(fd); return it!=fds.end()&&it->second->foreign; }
void inject_overflow(){ InSim g; for(auto&n:notifies){ if(!n->q.empty()&&(n->q.back().mask&(n->fan?FAN_Q_OVERFLOW:IN_Q_OVERFLOW))) continue; Rec o; o.seq=++seqno; o.mask=n->fan?FAN_Q_OVERFLOW:IN_Q_OVERFLOW; o.wd=-1; o.fan=n->fan; o.inst=n->inst; o.t_queued=vnow; n->q.push_back(o); arm(n.get()); } }
void inject_rec(Rec r){ InSim g; for(auto&n:notifies){ r.seq=++seqno; r.fan=n->fan; r.inst=n->inst; r.t_queued=vnow; n->q.push_back(r); arm(n.get()); } }
void stdin_feed(std::string const& b,bool eof){ stdin_buf+=b; if(eof) stdin_eof=true; }

/* ---- reading notification queues ---- */
size_t rec_size(Rec const&r){ if(!r.fan){ size_t n=r.name.empty()?0:((r.name.size()+1+15)/16)*16; return sizeof(inotify_event)+n; }
  size_t s=sizeof(fanotify_event_metadata); if(r.mask&FAN_Q_OVERFLOW){ s+= (4+8+8); return s; } /* FID record with an invalid handle */
  size_t hb=cfg.handle_bytes; size_t l=4+8+8+hb+r.name.size()+1; l=(l+3)/4*4; s+=l; if(r.wd) s+=(4+8+8+hb+3)/4*4; return s; }
size_t rec_write(Rec const&r,char*p){ size_t sz=rec_size(r); memset(p,0,sz);
  if(!r.fan){ auto*e=(inotify_event*)p; e->wd=r.wd; e->mask=r.mask; e->cookie=r.cookie; e->len=sz-sizeof(inotify_event); memcpy(e->name,r.name.data(),r.name.size()); return sz; }
  auto*m=(fanotify_event_metadata*)p; m->event_len=sz; m->vers=FANOTIFY_METADATA_VERSION; m->metadata_len=sizeof *m; m->mask=r.mask; m->fd=FAN_NOFD; m->pid=4242; char*q=p+sizeof *m;
  auto fid=[&](int type,int ino,bool name){ size_t hb=cfg.handle_bytes; size_t l=4+8+8+hb+(name?r.name.size()+1:0); l=(l+3)/4*4; q[0]=type; q[1]=0; *(uint16_t*)(q+2)=l; int fs=inos.count(ino)?inos[ino].fs:0; memcpy(q+4,&fs,4); *(uint32_t*)(q+12)=hb; *(uint32_t*)(q+16)=1; for(size_t i=0;i<hb;++i) q[20+i]=(char)(0x5a^i); memcpy(q+20,&ino,4); if(name) memcpy(q+20+hb,r.name.data(),r.name.size()); q+=l; };
  if(r.mask&FAN_Q_OVERFLOW){ q[0]=FAN_EVENT_INFO_TYPE_FID; *(uint16_t*)(q+2)=20; *(uint32_t*)(q+12)=0; *(int*)(q+16)=255/*FILEID_INVALID*/; return sz; }
  fid(FAN_EVENT_INFO_TYPE_DFID_NAME,r.dir_ino,true); if(r.wd) fid(FAN_EVENT_INFO_TYPE_FID,r.wd,false); return sz; }
long notify_read(Notify*n,char*buf,size_t cnt){
  if(!n->raw.empty()){ std::string s=n->raw.front(); n->raw.pop_front(); memcpy(buf,s.data(),std::min(cnt,s.size())); return std::min(cnt,s.size()); }
  size_t fit=0,k=0; for(auto&r:n->q){ size_t s=rec_size(r); if(fit+s>cnt) break; fit+=s; k++; }
  if(k==0) return -EINVAL;
  if(k>1&&(cfg.partial_reads||cfg.partial_free)){ int c=choose(k,"read only part",!cfg.partial_free); if(c) k=k-c; }
  size_t off=0; for(size_t i=0;i<k;++i){ Rec r=n->q.front(); n->q.pop_front(); off+=rec_write(r,buf+off); r.batch=nbatch; r.t_read=vnow; r.reader=self?self->id:-1; r.last_in_batch=i+1==k; r.dir_gone_at_read=r.dir_ino&&inos[r.dir_ino].dead; 
    if(r.dir_ino) r.paths_possible=paths_of_ino_since(r.dir_ino,r.seq); note(sfmt("kernel gives record mask=%x wd=%d cookie=%u dir=%s name=%.40s",r.mask,r.wd,r.cookie,r.dir_path.size()>80?"<long>":r.dir_path.c_str(),r.name.c_str())); delivered_.push_back(r); }
  if(cfg.refill.size()){ static int serial=0; int d=resolve(cfg.refill,true); if(d>0) notify_entry(d,"r"+std::to_string(++serial%7),0,IN_CREATE); }
  nbatch++; cb->counters[0]++; cb->counters[1]+=k; return off; }
}
