/*  The simulated kernel against the real one: the same sequences of operations on the same tree, with the same watches,
    read through the same calls. Built twice: with the simulator, and with -DREAL without it. Every sequence gives one
    line of text. */
#include "conf_ops.hpp"

/* ---- one notification instance */
static int nfd; static std::map<int,S> wds; static std::map<S,S> handles; static S out; static std::map<uint32_t,int> cookies;
static unsigned const IN=IN_CREATE|IN_DELETE|IN_DELETE_SELF|IN_MODIFY|IN_MOVE_SELF|IN_MOVED_FROM|IN_MOVED_TO;
static unsigned long const FA=FAN_ONDIR|FAN_CREATE|FAN_MODIFY|FAN_MOVE|FAN_DELETE|FAN_EVENT_ON_CHILD;
static S handle_of(S const&p){
#ifdef REAL
  union { struct file_handle h; char b[256]; } u; u.h.handle_bytes=128; int m; if(name_to_handle_at(AT_FDCWD,P(p).c_str(),&u.h,&m,0)) return ""; return S((char*)u.h.f_handle,u.h.handle_bytes);
#else
  for(int i=1;i<200;++i) if(path_of_ino(i)==P(p)) return S((char*)&i,4); return "";
#endif
}
static int watch(S p){
  if(!fan){ int w=inotify_add_watch(nfd,P(p).c_str(),IN|IN_DONT_FOLLOW|IN_ONLYDIR); if(w<0) return errno; if(!wds.count(w)) wds[w]=p; return 0; }
  if(fanotify_mark(nfd,FAN_MARK_ADD|FAN_MARK_ONLYDIR|FAN_MARK_DONT_FOLLOW,FA,AT_FDCWD,P(p).c_str())) return errno; auto h=handle_of(p); if(!handles.count(h)) handles[h]=p; return 0; }
static int unwatch(S p){
  if(!fan){ for(auto&w:wds) if(w.second==p){ int r=inotify_rm_watch(nfd,w.first)?errno:0; return r; } return ENOENT; }
  return fanotify_mark(nfd,FAN_MARK_REMOVE,FA,AT_FDCWD,P(p).c_str())?errno:0; }
static void drain(){ alignas(8) static char b[65536];
  for(;;){ ssize_t n=read(nfd,b,sizeof b); if(n<=0){ if(n<0&&errno!=EAGAIN) out+=fmt("read:%d ",errno); break; }
    if(!fan) for(char*p=b;p<b+n;){ auto*e=(struct inotify_event*)p; int c=0; if(e->cookie){ if(!cookies.count(e->cookie)) cookies[e->cookie]=cookies.size()+1; c=cookies[e->cookie]; }
      out+=fmt("%s:%x:%s:%d ",wds.count(e->wd)?wds[e->wd].c_str():"?",e->mask,e->len?e->name:"",c); if(e->mask&IN_IGNORED) wds.erase(e->wd); p+=sizeof *e+e->len; }
    else { auto*m=(struct fanotify_event_metadata*)b; size_t left=n; while(FAN_EVENT_OK(m,left)){ out+=fmt("%llx",(unsigned long long)m->mask); char*q=(char*)m+m->metadata_len,*end=(char*)m+m->event_len;
      while(q<end){ auto*i=(struct fanotify_event_info_header*)q; auto*fi=(struct fanotify_event_info_fid*)q; auto*h=(struct file_handle*)fi->handle; 
#ifdef REAL
        S hs((char*)h->f_handle,h->handle_bytes);
#else
        S hs((char*)h->f_handle,4);
#endif
        S nm=i->info_type==FAN_EVENT_INFO_TYPE_DFID_NAME?S((char*)h->f_handle+h->handle_bytes):S(); out+=fmt(",%d:%s:%s",i->info_type,i->info_type==FAN_EVENT_INFO_TYPE_FID?"-":handles.count(hs)?handles[hs].c_str():"?",nm.c_str()); q+=i->len; }
      out+=" "; m=FAN_EVENT_NEXT(m,left); } } } }
static std::vector<Op> all_ops(){ return alphabet([](auto A,bool two){ if(!two){ A("read",[]{ drain(); return 0; }); A("watch w/n",[]{ return watch("w/n"); }); } else { A("watch w/x",[]{ return watch("w/x"); }); A("watch w/e",[]{ return watch("w/e"); }); A("unwatch w/e",[]{ return unwatch("w/e"); }); A("unwatch w/d",[]{ return unwatch("w/d"); }); A("rmdir w",[]{ return do_rmdir("w"); }); A("rename w o/w",[]{ return do_rename("w","o/w"); }); } }); }
static S run(std::vector<int> const& seq,std::vector<Op> const& ops,bool& possible){ out.clear(); wds.clear(); handles.clear(); cookies.clear(); possible=true; S name;
  tree();
  nfd=fan?fanotify_init(FAN_CLASS_NOTIF|FAN_REPORT_FID|FAN_REPORT_DIR_FID|FAN_REPORT_NAME|FAN_NONBLOCK|FAN_CLOEXEC,0):inotify_init1(IN_NONBLOCK|IN_CLOEXEC);
  if(nfd<0) return "unusable";
  for(auto p:{"w","w/d","w/d/g","w/e"}) if(int e=watch(p)) return fmt("unusable %d",e);
  for(int k:seq){ name+=ops[k].name+"; "; int r=ops[k].run(); if(r){ out+="!"; possible=false; break; } }
  drain(); close(nfd); return name+"=> "+out; }

#ifdef REAL
int main(int c,char**v){ return real_main(c,v,all_ops,run); }
#else
int main(int c,char**v){ return sim_main(c,v,all_ops,[](auto const&s,auto const&o,bool& ok){ no_switch(true); return run(s,o,ok); }); }
#endif
