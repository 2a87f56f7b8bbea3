#include "common.hpp"
#include <errno.h>
#include <sys/inotify.h>
#include <limits.h>
using namespace sim; using namespace h;

/*  One watcher over /w, a history, a probe of every directory, close; everything judged. */
struct Opt { bool fan=false; bool merge=false; bool coverage=true; bool may_fail=false; std::function<void()> setup; std::function<void()> started; };
static void session(std::vector<Op const*> al,int depth,Pace pace,Opt o={}){
  cfg.root=o.fan; cfg.fan_merge=o.merge; if(o.setup) o.setup();
  std_tree(); W w(0,"/w","/w"); w.open(); settle(); if(o.started) o.started();
  if(!history(al,depth,pace)) { w.end(); return; }
  settle();
  if(o.coverage){ check_coverage("/w"); probe("/w","/o"); settle(); }
  w.end(); check_lifecycle(0,"/w",w.ret,o.may_fail); check_delivery(0,0,"/w"); check_resources(); }

static std::vector<Op const*> files(){ return ops({"creat n","creat d/n","write f","unlink f","mv f d/f","mv f n","mv f out","mv y in","mv d/h f","mkdir m","rmdir e","rmdir d/g","chmod f","link f l"}); }
static std::vector<Op const*> dirs(){ return ops({"mkdir m","mkdir m/k","creat m/k/z","mv d D","mv d out","mv d back","mv x in","mv d e/d","mv d e","mv x e","rmdir e","creat D/g/z","xchg d e","symlink"}); }
static std::vector<Op const*> moves(){ return ops({"mv f d/f","mv f n","mv f out","mv y in","mv d/h f","mv d D","mv d out","mv d back","mv x in","mv d e/d","mv d e","xchg f d/h","xchg d e","creat n","write f"}); }
static std::vector<Op const*> quiet(){ return ops({"cat f","ls d","chmod f","chmod d","creat out","write out","creat out/x","mv f out","mv d out","mv y in","mv x in","link f l","symlink","write f","mv d back","append f"}); }

/* ---------- lifecycle ---------- */
struct PathKind { char const* asked; char const* abs; char const* real; bool ok; };
static PathKind const kinds[]={
  {"/w","/w","/w",true},{"/w/d","/w/d","/w/d",true},{".","/cwd/.","/cwd",true},{"sub","/cwd/sub","/cwd/sub",true},{"./sub/../sub","/cwd/./sub/../sub","/cwd/sub",true},{"/w/","/w/","/w",true},
  {"/lnk","/lnk","/w",true},{"/w/lf","/w/lf","",false},{"/nope","/nope","",false},{"/w/f","/w/f","",false},{"/dangling","/dangling","",false},{"","","",false},{"/w/f/x","/w/f/x","",false},
  {"/sp ace/\xc3\xa4\xff","/sp ace/\xc3\xa4\xff","/sp ace/\xc3\xa4\xff",true},{"/","/","/",true},{"nope","/cwd/nope","",false},{"../w","/cwd/../w","/w",true},{"/ld/..","/ld/..","/w",true},{"/ld","/ld","/w/d",true} };
static void kinds_setup(){ std_tree(); no_switch(true); env_mkdirs("/cwd/sub/t"); env_symlink("/w","/lnk"); env_symlink("/w/d","/ld"); env_symlink("/w/f","/w/lf"); env_symlink("/gone","/dangling"); env_mkdirs("/sp ace/\xc3\xa4\xff/q"); no_switch(false); }
static void life_paths(bool fan){
  cfg.root=fan; cfg.fan_merge=false; kinds_setup(); auto&k=kinds[pick(sizeof kinds/sizeof*kinds,"path")]; W w(0,k.asked,k.abs); 
  int when=pick(4,"when"); /* close at once; after it runs; with a change pending; after changes */
  w.open(); if(when>=1) settle();
  if(when>=2){ std::string r=k.real[0]?k.real:"/w"; if(r=="/") r=""; env_creat(r+"/c1"); env_mkdir(r+"/c2"); if(when==3) settle(); }
  int how=pick(2,"how"); if(how==0) w.end(); else w.destroy();
  auto m=msgs_of(0); bool ret=how==0?w.ret:(!m.empty()&&starts(m.back().path,"s/"));
  if(when==0){ check_lifecycle(0,k.abs,ret,true); if(!k.ok&&!events().empty()&&starts(events()[0].path,"s/")) violation("a path which is no directory was taken for one: "+show(events()[0])); }
  else { check_lifecycle(0,k.abs,ret,!k.ok); if(!k.ok&&(ret||!starts(events_of(0)[0].path,"e/"))) violation("a path which is no directory was taken for one: "+show(events()[0])); if(events_of(0).size()>2&&!k.ok) violation("more than two messages about a path which cannot be watched: "+show(events_of(0)[1])); }
  if(k.ok&&when) check_delivery(0,0,k.real); check_resources(); }
/*  The program goes elsewhere: before, while and after the watcher comes up. A relative
    path is what it was when it was given. */
static void life_chdir(bool fan){
  cfg.root=fan; cfg.fan_merge=false; kinds_setup(); no_switch(true); env_mkdirs("/away/sub"); env_creat("/away/nope"); no_switch(false);
  static PathKind const R[]={{".","/cwd/.","/cwd",true},{"sub","/cwd/sub","/cwd/sub",true},{"../w","/cwd/../w","/w",true},{"nope","/cwd/nope","",false},{"/w","/w","/w",true},{"","","",false},{"t","/cwd/t","",false}};
  auto&k=R[pick(sizeof R/sizeof*R,"path")]; static char const*const TO[]={"/away","/","/cwd/sub","/gone"}; std::string to=TO[pick(4,"to")]; int when=pick(3,"when");
  auto go=[&]{ yield_point("chdir"); cfg.cwd=to; yield_point("elsewhere"); };
  W w(0,k.asked,k.abs); w.open(); if(when) settle(); go(); settle(); if(when==2){ cfg.cwd="/cwd"; }
  if(k.ok){ env_creat(std::string(k.real)+"/c1"); env_mkdir(std::string(k.real)+"/c2"); env_creat("/away/sub/c3"); env_creat("/away/c4"); settle(); probe(k.real,"/o"); settle(); }
  w.end(); check_lifecycle(0,k.abs,w.ret,!k.ok); if(!k.ok&&(w.ret||!starts(events_of(0)[0].path,"e/"))) violation("a path which is no directory was taken for one: "+show(events_of(0)[0]));
  if(k.ok) check_delivery(0,0,k.real); check_resources(); }
/*  Schedules around start-up, running and closing. */
static void life_races(bool fan){
  cfg.root=fan; cfg.fan_merge=false; no_switch(true); env_mkdirs("/w/d"); no_switch(false);
  W w(0,"/w","/w"); w.open(); int n=pick(4,"changes"); yield_point("opened");
  if(n==3) settle(); else for(int i=0;i<n;++i){ env_creat(i?"/w/b":"/w/a"); }
  int how=pick(3,"how"); if(how==0){ w.close(); bool again=w.w->close(); if(again) violation("a second close() returned true"); bool third=w.w->close(); if(third) violation("a third close() returned true"); w.w.reset(); } else if(how==1) w.end(); else w.destroy();
  bool ret=how<2?w.ret:(!events_of(0).empty()&&starts(events_of(0).back().path,"s/"));
  check_lifecycle(0,"/w",ret,true); check_delivery(0,0,"/w"); check_resources(); env_creat("/w/late"); if(!queued_count()) return; if(enf("C09")) violation("a kernel watch is left over after close()"); }
/*  Events keep arriving: every read of the watcher is followed by a new change. */
static void life_flood(bool fan){
  cfg.root=fan; cfg.fan_merge=false; cfg.refill="/w"; cfg.step_max=6000; cfg.spin_limit=60; no_switch(true); env_mkdirs("/w/d"); no_switch(false);
  W w(0,"/w","/w",[](wtr::event const&){}); w.open(); int st=pick(2,"start"); cfg.epoll_rev=pick(2,"ready order"); if(st) { while(msgs_of(0).empty()) yield_others_pub(); env_creat("/w/a"); for(int i=pick(3,"some time");i>0;--i) yield_others_pub(); }
  w.end(); check_lifecycle(0,"/w",w.ret,true); check_resources(); }
/*  The watched path goes away, or is replaced, while it is watched. */
static void life_gone(bool fan){
  cfg.root=fan; cfg.fan_merge=false; no_switch(true); env_mkdirs("/w/d"); env_mkdirs("/o"); no_switch(false); W w(0,"/w","/w"); w.open(); settle_pre();
  switch(pick(4,"what")){ case 0: env_rmdir("/w/d"); env_rmdir("/w"); break; case 1: env_rename("/w","/o/w"); break; case 2: env_rmdir("/w/d"); env_rmdir("/w"); env_mkdir("/w"); break; case 3: env_creat("/w/d/n"); env_unlink("/w/d/n"); env_rmdir("/w/d"); env_rmdir("/w"); }
  if(pick(2,"then")) settle(); w.end(); check_lifecycle(0,"/w",w.ret,true); check_resources(); }

/* ---------- failing calls ---------- */
static std::vector<FaultRule> const all_faults={ {"eventfd",{EMFILE}},{"epoll_create",{EMFILE}},{"epoll_ctl",{ENOSPC}},{"epoll_wait",{EINTR,EBADF}},{"inotify_init",{EMFILE}},{"inotify_add_watch",{ENOSPC,EACCES,ENOENT}},{"fanotify_init",{EPERM,EMFILE,ENOSYS}},{"fanotify_mark",{ENOSPC,EXDEV,EACCES}},{"read_inotify",{EINTR,EAGAIN,EIO}},{"read_fanotify",{EINTR,EAGAIN,EIO}},{"open_by_handle_at",{EMFILE,ENOMEM}},{"open",{EMFILE}},{"opendir",{EMFILE,EACCES,ENOENT}},{"readdir",{EIO}},{"readlink",{ENOENT,ENOMEM}},{"realpath",{ENOENT,EACCES,ENOMEM}},{"stat",{EACCES,ENOENT}},{"getcwd",{ENOENT}},{"close",{EINTR}} };
static bool is_loss(std::string const& f){ return starts(f,"open_by_handle_at:")||starts(f,"open:")||starts(f,"readlink:")||starts(f,"stat:"); }
/*  Judges a session in which calls failed. */
static void judge_faults(W&w,std::string const& root,bool end_seen,bool moves){
  auto&fl=fault_log(); check_lifecycle(0,w.abs,w.ret,true); check_resources(); if(!enf("C08 C11")) return;
  auto m=msgs_of(0); bool died_e=starts(m.back().path,"e/"); bool live_e=starts(m.front().path,"e/");
  bool fatal=false,losing=false,marks=false; for(auto&f:fl){ if(is_loss(f)) losing=true; if(starts(f,"inotify_add_watch")||starts(f,"fanotify_mark")||starts(f,"realpath")||starts(f,"opendir")||starts(f,"readdir")||starts(f,"stat")) marks=true; }
  /* recoverable conditions are no reason to end */
  for(auto&f:fl){ bool rec=f==("epoll_wait:"+std::to_string(EINTR))||f==("read_inotify:"+std::to_string(EINTR))||f==("read_inotify:"+std::to_string(EAGAIN))||f==("read_fanotify:"+std::to_string(EINTR))||f==("read_fanotify:"+std::to_string(EAGAIN))||starts(f,"close:")||starts(f,"open_by_handle_at:")||starts(f,"readlink:")||starts(f,"open:"); if(!rec) fatal=true; }
  if(!fatal&&(died_e||live_e)) violation("the watcher ended because of something it can recover from: "+(fl.empty()?std::string("nothing"):fl[0]));
  if(live_e||died_e) return;
  /* it runs: every directory is watched, or was announced */
  if(end_seen){ bool failed=false,told=false; for(auto&f:fl) if(f=="read_inotify:"+std::to_string(EIO)||f=="read_fanotify:"+std::to_string(EIO)||f=="epoll_wait:"+std::to_string(EBADF)) failed=true; for(auto&e:events_of(0)) if(e.path==root+"/racing") told=true;
    if(failed&&!told) violation("reading the events failed, an event was lost for it, and the watcher says that all is well"); return; }
  /* with a directory unwatched, its being renamed goes unseen */
  if(marks&&moves) return; check_delivery(0,inst_of(0),root,losing); }
static void fault_session(bool fan,bool start_only){
  cfg.root=fan; cfg.fan_merge=false; no_switch(true); env_mkdirs("/w/d/g"); env_mkdirs("/w/e"); env_mkdirs("/o/x/s"); no_switch(false);
  faults=all_faults; int hist=0; int ff=foreign_fd();
  faults_enable(true); W w(0,"/w","/w"); w.open(); if(start_only){ settle(); }
  else { hist=pick(5,"history"); settle();
    switch(hist){ case 0: env_creat("/w/a"); settle(); env_rename("/w/a","/w/d/b"); break; case 1: env_mkdir("/w/m"); env_mkdir("/w/m/k"); settle(); env_creat("/w/m/k/z"); break; case 2: env_rename("/o/x","/w/x"); settle(); env_creat("/w/x/s/n"); break; case 3: env_rename("/w/d","/w/e/d"); env_creat("/w/e/d/g/n"); break; case 4: env_creat("/w/d/n"); env_rename("/w/d","/o/d"); env_creat("/o/d/g/n"); break; }
    settle(); }
  /* directories in the tree that are not watched must have been announced */
  bool alive=live_threads()>1; 
  /* those which were there when their parents were looked into are found, whether or not these can be watched */
  bool looked=true; for(auto&f:fault_log()) if(!starts(f,"inotify_add_watch")&&!starts(f,"fanotify_mark")) looked=false;
  auto seen=[&](std::string const& d){ return looked&&hist<2&&(d=="/w/d"||d=="/w/d/g"||d=="/w/e"); };
  if(alive&&enf("C08")){ auto wd=watched_dirs(); for(auto&d:env_dirs("/w")) if(!std::binary_search(wd.begin(),wd.end(),d)){ bool said=false; for(auto&m:msgs_of(0)) if(starts(m.path,"w/")&&m.path.size()>2){ auto at=m.path.find('@'); std::string p=at==std::string::npos?"":m.path.substr(at+1); if(starts(m.path,"w/sys/bad_fd@")||p==d||(!seen(d)&&p.size()&&under(d,p))) said=true; } if(!said) violation("the directory "+d+" is not watched, and nobody was told"); } }
  if(alive){ for(auto&d:watched_dirs()) if(d=="/w"||under(d,"/w")) env_creat(d+"/probe"); settle(); }
  bool racing=hist<3&&pick(2,"close while there is something to read"); if(racing) env_creat("/w/racing");
  w.close(); faults_enable(false); if(!foreign_ok(ff)&&enf("C09")) violation("a descriptor of somebody else was closed"); w.w.reset();
  judge_faults(w,"/w",racing,hist>=3); }

/* ---------- both interfaces give the same events ---------- */
static std::vector<std::string> run_one(bool fan,std::vector<int> const& h,std::vector<Op const*> const& al,bool* possible,Config const& c,std::string const& asked){
  kernel_restart(); cfg=c; cfg.root=fan; cfg.fan_merge=false; std_tree(); rec_reset();
  W w(0,asked,asked); w.open(); settle(); *possible=true;
  bool isfan=false; for(auto&k:instances()) if(k.second) isfan=true; bool two=instances().size()>1;
  if(fan&&cfg.fanotify_ok&&!isfan) violation("root, and fanotify is permitted, but it is not used");
  if(!fan&&isfan) violation("fanotify is used without being root"); if(two) violation("both interfaces are in use at once");
  for(int o:h){ if(al[o]->run()){ *possible=false; break; } settle(); }
  if(*possible){ probe("/w","/o"); settle(); }
  w.end(); check_resources(); std::vector<std::string> r; for(auto&e:events_of(0)) r.push_back(show(e)); return r; }
static void equiv(std::vector<Op const*> al,int depth){
  Config c=cfg; std::vector<int> h; for(int i=0;i<depth;++i) h.push_back(pick(al.size(),"op"));
  bool p1,p2; auto a=run_one(false,h,al,&p1,c,"/w"); if(!p1) return; auto b=run_one(true,h,al,&p2,c,"/w");
  if(a!=b){ std::string m="inotify and fanotify give different events for the history"; for(int o:h) m+=std::string(" [")+al[o]->name+"]"; m+="\n  inotify:"; for(auto&x:a) m+="\n    "+x; m+="\n  fanotify:"; for(auto&x:b) m+="\n    "+x; violation(m); } }
/*  What counts is the effective user, as it is for the kernel: a set-uid program, one that has dropped its privileges. */
static void identity(std::vector<Op const*> al,int depth){
  Config c=cfg; c.real_uid=pick(2,"real user")?0:1000; std::vector<int> h; for(int i=0;i<depth;++i) h.push_back(pick(al.size(),"op"));
  bool p1,p2; auto a=run_one(false,h,al,&p1,c,"/w"); if(!p1) return; auto b=run_one(true,h,al,&p2,c,"/w");
  if(a!=b) violation("what is reported depends on the user"); }
/*  Built for a system without fanotify: it is not tried, whoever the user is. */
static void without_fanotify(std::vector<Op const*> al,int depth){
  Config c=cfg; std::vector<int> h; for(int i=0;i<depth;++i) h.push_back(pick(al.size(),"op"));
  auto run=[&](bool root){ kernel_restart(); cfg=c; cfg.root=root; cfg.fan_merge=false; std_tree(); rec_reset(); std::vector<std::string> r; W w(0,"/w","/w"); w.open(); settle();
    auto in=instances(); if(in.size()!=1||in[0].second) violation("the watcher does not use one instance of inotify"); if(open_resources().size()!=3) violation("the watcher holds something else than an eventfd, an epoll and an inotify descriptor");
    for(int o:h){ if(al[o]->run()) return r; settle(); } probe("/w","/o"); settle(); w.end(); check_lifecycle(0,"/w",w.ret,false); check_delivery(0,0,"/w"); check_resources(); for(auto&e:events_of(0)) r.push_back(show(e)); return r; };
  auto a=run(false),b=run(true); if(a!=b) violation("what is reported depends on the user"); }
/*  Falling back: fanotify cannot be set up in some way; no trace of the attempt is left. */
static void fallback(){
  Config c=cfg; int how=pick(9,"how"); rec_reset(); auto al=ops({"creat n","mv f d/f","mkdir m"}); int o=pick(al.size(),"op");
  auto run=[&](bool second){ kernel_restart(); cfg=c; cfg.fan_merge=false; rec_reset(); cfg.root=true; 
    if(second) switch(how){ case 0: cfg.root=false; break; case 1: cfg.fanotify_ok=false; break; case 2: fault_always("fanotify_init",ENOSYS); break; case 3: fault_always("fanotify_init",EMFILE); break; case 4: fault_always("fanotify_mark",EINVAL); break; case 5: fault_always("fanotify_mark",EXDEV); break; case 6: fault_always("fanotify_mark",EOPNOTSUPP); break; case 7: fault_always("fanotify_init",EINVAL); break; case 8: fault_always("fanotify_mark",ENODEV); break; }
    else cfg.root=false;
    std_tree(); W w(0,"/w","/w"); w.open(); settle(); auto in=instances(); if(in.size()!=1||in[0].second) violation(second?"fanotify cannot be used, but the watcher is not left with one inotify instance":"inotify is not used");
    if(open_resources().size()!=3) { std::string m="the watcher holds something else than an eventfd, an epoll and an inotify descriptor:"; for(auto&x:open_resources()) m+=" "+x+";"; violation(m); }
    /* one reading at a time: the halves of a rename, read apart, are two events, whichever the interface */
    no_switch(true); al[o]->run(); no_switch(false); settle(); no_switch(true); probe("/w","/o"); no_switch(false); settle(); w.end(); check_lifecycle(0,"/w",w.ret,false); check_resources(); std::vector<std::string> r; for(auto&e:events_of(0)) r.push_back(show(e)); return r; };
  auto a=run(false),b=run(true); if(a!=b){ std::string m="falling back to inotify shows in the events:"; for(auto&x:a) m+="\n    "+x; m+="\n  with the fall-back:"; for(auto&x:b) m+="\n    "+x; violation(m); } }

/* ---------- recoverable conditions ---------- */
static void conditions(bool fan){
  cfg.root=fan; cfg.fan_merge=false; faults={ {"epoll_wait",{EINTR}},{fan?"read_fanotify":"read_inotify",{EINTR,EAGAIN}} };
  no_switch(true); env_mkdirs("/w/d"); env_creat("/w/f"); no_switch(false); W w(0,"/w","/w"); w.open(); settle(); faults_enable(true);
  auto op=[&](int i){ std::string n="/w/d/n"+std::to_string(i); switch(pick(3,"step")){ case 0: env_creat(n); break; case 1: if(env_rename("/w/f","/w/d/f")) env_rename("/w/d/f","/w/f"); break; case 2: env_mkdir("/w/m"+std::to_string(i)); break; } };
  for(int i=0;i<3;++i){ op(i); switch(pick(fan?4:7,"condition")){ case 0: break; case 1: inject_overflow(); break; case 2: settle(); break; case 3: settle(); inject_overflow(); settle(); break;
      case 4: { Rec r; r.mask=IN_CREATE; r.wd=77; r.name="ghost"; inject_rec(r); break; } case 5: { Rec r; r.mask=IN_IGNORED; r.wd=78; inject_rec(r); break; } case 6: { Rec r; r.mask=IN_MODIFY|IN_ISDIR; r.wd=79; inject_rec(r); settle(); break; } } }
  settle(); faults_enable(false); check_coverage("/w"); probe("/w",""); settle(); w.end(); check_lifecycle(0,"/w",w.ret,false); check_delivery(0,0,"/w"); check_resources(); }
/*  A queue so short that it overflows by itself. */
static void overflow(bool fan){
  cfg.root=fan; cfg.fan_merge=false; cfg.queue_max=2+pick(3,"queue length"); cfg.fan_overflow=true; no_switch(true); env_mkdirs("/w/d"); env_creat("/w/f"); no_switch(false); W w(0,"/w","/w"); w.open(); settle();
  for(int i=0;i<5;++i){ switch(pick(3,"step")){ case 0: env_creat("/w/n"+std::to_string(i)); break; case 1: env_creat("/w/d/n"+std::to_string(i)); break; case 2: if(env_rename("/w/f","/w/d/f")) env_rename("/w/d/f","/w/f"); break; } if(pick(2,"pace")) settle(); }
  settle(); probe("/w",""); settle(); w.end(); check_lifecycle(0,"/w",w.ret,false); check_delivery(0,0,"/w"); check_resources(); }
/*  Directories that come and go while they are being looked at. */
static void vanish(bool fan){
  cfg.root=fan; cfg.fan_merge=false; no_switch(true); env_mkdirs("/w/d/g"); env_mkdirs("/w/e"); env_mkdirs("/o/x/s"); no_switch(false); W w(0,"/w","/w"); w.open(); 
  int at=pick(2,"at"); if(at) settle(); else settle_pre();
  int n=pick(6,"what");
  switch(n){ case 0: env_rmdir("/w/d/g"); settle_pre(); env_rmdir("/w/d"); break; case 1: env_mkdir("/w/m"); settle_pre(); env_rmdir("/w/m"); break; case 2: env_mkdir("/w/m"); env_mkdir("/w/m/k"); settle_pre(); env_rmdir("/w/m/k"); settle_pre(); env_mkdir("/w/m/k"); break; case 3: env_rename("/w/d","/o/d"); settle_pre(); env_rename("/o/d","/w/d"); break; case 4: env_rename("/o/x","/w/x"); settle_pre(); env_rmdir("/w/x/s"); settle_pre(); env_rmdir("/w/x"); break; case 5: env_mkdir("/w/m"); settle_pre(); env_rmdir("/w/m"); settle_pre(); env_symlink("/o","/w/m"); break; }
  settle(); check_coverage("/w"); probe("/w","/o"); settle(); w.end(); check_lifecycle(0,"/w",w.ret,false); check_delivery(0,inst_of(0),"/w"); check_resources(); }

/*  Names which are easily taken for something else: those which begin as others do,
    inside and outside of the tree, which look like "." and "..", or are no text. */
static void special(bool fan){
  cfg.root=fan; cfg.fan_merge=false; static char const*const N[]={"d2",".h","..h","...","dd"," ","1","\xff\xfe","w","*","\n","@","%s","\\\"","-","D","d ","\xc3\xa4","...d","h"}; int n=sizeof N/sizeof*N;
  std::string a=N[pick(n,"name 1")], b=N[pick(n,"name 2")]; if(a==b) return; int what=pick(7,"what"); auto pace=[]{ if(pick(2,"pace")) settle(); };
  no_switch(true); env_mkdirs("/w/"+a+"/k"); env_mkdirs("/w/d/g"); env_creat("/w/f"); env_mkdirs("/w2/x/s"); env_mkdirs("/w2/d"); no_switch(false);
  W w(0,"/w","/w"); w.open(); settle();
  switch(what){
    case 0: env_creat("/w/"+a+"/"+b); env_mkdir("/w/"+b); pace(); env_creat("/w/"+b+"/"+a); env_mkdir("/w/"+b+"/"+b); pace(); env_creat("/w/"+b+"/"+b+"/z"); break;
    case 1: env_rename("/w/"+a,"/w/"+b); pace(); env_creat("/w/"+b+"/k/"+a); env_rmdir("/w/"+b+"/g"); break;
    case 2: env_rename("/w/f","/w/"+a+"/"+b); pace(); env_rename("/w/"+a+"/"+b,"/w/"+b); break;
    case 3: env_rename("/w/d","/w/"+a+"/"+b); pace(); env_creat("/w/"+a+"/"+b+"/g/z"); break;
    case 4: env_rename("/w/"+a,"/w2/"+b); pace(); env_creat("/w2/"+b+"/k/z"); env_creat("/w/d/n"); pace(); env_rename("/w2/"+b,"/w/"+b); break;
    case 5: env_rename("/w2/x","/w/"+b); pace(); env_creat("/w/"+b+"/s/"+a); break;
    case 6: env_rename("/w/d","/w/"+b); pace(); env_creat("/w/"+a+"/k/z"); env_creat("/w/"+b+"/g/z"); break; }
  settle(); check_coverage("/w"); probe("/w","/w2"); settle(); w.end(); check_lifecycle(0,"/w",w.ret,false); check_delivery(0,0,"/w"); check_resources(); }

/*  A program with many descriptors, or with none. */
static void fds(bool fan){
  cfg.root=fan; cfg.fan_merge=false; static int const B[]={0,1,2,6,7,8,9,10,95,99,100,995,999,1000,1020,1024,9999,65530,99999,524280,1048570}; cfg.fd_base=B[pick(sizeof B/sizeof*B,"lowest descriptor")]; std_tree();
  W w(0,"/w","/w"); w.open(); settle(); auto pace=[]{ if(pick(2,"pace")) settle(); };
  env_creat("/w/d/g/n"); pace(); env_rename("/w/f","/w/d/f"); pace(); env_mkdir("/w/m"); env_mkdir("/w/m/k"); pace(); env_creat("/w/m/k/z");
  settle(); check_coverage("/w"); probe("/w","/o"); settle(); w.end(); check_lifecycle(0,"/w",w.ret,false); check_delivery(0,0,"/w"); check_resources(); }

/* ---------- shapes of records ---------- */
static std::string nm(size_t n,char c='a'){ std::string s(n,c); return s; }
static void shapes_names(bool fan){
  cfg.root=fan; cfg.fan_merge=false; if(fan) cfg.handle_bytes=(int[]){8,4,12,20,64,128}[pick(6,"handle")]; cfg.partial_reads=false;
  static int const L[]={1,2,3,14,15,16,17,31,32,63,100,127,128,250,254,255}; int const NL=sizeof L/sizeof*L;
  no_switch(true); env_mkdirs("/w/d"); no_switch(false); W w(0,"/w","/w"); w.open(); settle();
  int a=L[pick(NL,"length 1")], b=L[pick(NL,"length 2")]; 
  env_creat("/w/"+nm(a,'a')); env_rename("/w/"+nm(a,'a'),"/w/d/"+nm(b,'b')); env_unlink("/w/d/"+nm(b,'b'));
  settle(); w.end(); check_lifecycle(0,"/w",w.ret,false); check_delivery(0,0,"/w"); check_resources(); }
/*  Enough records for several buffers, with any number of bytes left at the end of one. */
static void shapes_fill(bool fan){
  cfg.root=fan; cfg.fan_merge=false; int kind=pick(6,"kind"); bool rm=kind>=4; int step=rm?pick(4,"length")*(thorough?16:6):pick(thorough?64:24,"length"); int len=thorough?1+step*4:1+step*11; if(len>255) len=255; int count=rm?(int[]){17,100,129,200,300}[pick(5,"count")]:(int[]){1,15,16,17,40,127,128,129,255,256,257,300}[pick(12,"count")]; int lead=rm?0:pick(3,"lead");
  auto name=[&](int i){ std::string base=nm(len>6?len-6:0,'n'); char t[16]; snprintf(t,sizeof t,"%06d",i); return base+t; };
  no_switch(true); env_mkdirs("/w/d"); env_creat("/w/f");
  std::vector<std::string> gone; if(kind==4) for(int i=0;i<count;++i){ gone.push_back("/w/d/"+name(i)); env_mkdir(gone.back()); }
  if(kind==5){ std::string p="/w/d"; for(int i=0;i<count&&(int)p.size()+std::min(len,200)<4000;++i){ p+="/"+nm(std::min(len,200),'c'); gone.insert(gone.begin(),p); env_mkdir(p); } }
  no_switch(false); W w(0,"/w","/w"); w.open(); settle(); no_switch(true);
  if(lead==1) env_creat("/w/"+nm(7,'l')); if(lead==2) env_rename("/w/f","/w/d/f");
  if(kind>=4) for(auto&g:gone) env_rmdir(g);
  else if(kind==3){ env_creat("/w/self0"); std::string a="/w/"+nm(len,'p'),b="/w/d/"+nm(len,'q'); env_rename("/w/self0",a); for(int i=0;i<count;++i){ env_rename(i%2?b:a,i%2?a:b); } }
  else for(int i=0;i<count;++i){ std::string p=(kind==1?"/w/d/":"/w/")+name(i); if(kind==2) env_mkdir(p); else env_creat(p); }
  no_switch(false); settle(); w.end(); check_lifecycle(0,"/w",w.ret,false); check_delivery(0,0,"/w"); check_resources(); }
/*  Paths up to and beyond PATH_MAX. */
static void shapes_deep(bool fan){
  cfg.root=fan; cfg.fan_merge=false; static int const total[]={3800,3840,3841,4060,4090,4093,4094,4095,4096,4097,4200,4350}; int t=total[pick(12,"path length")]; int how=pick(3,"how"); int nl=(int[]){1,5,254,255}[pick(4,"name")];
  /* a chain of directories whose path has length t, the last component taking up the slack */
  no_switch(true); std::string p="/w"; std::vector<std::string> chain{p}; std::string rest; env_mkdirs("/w"); while((int)p.size()<t){ int room=t-(int)p.size(); if(room<2) break; int l=std::min(255,room-1); if(room-1-l==1) l--; p+="/"+nm(l,'d'); chain.push_back(p); }
  if(how!=1) for(auto&c:chain) env_mkdirs(c);
  no_switch(false); W w(0,"/w","/w"); w.open(); settle();
  if(how==1) for(size_t i=1;i<chain.size();++i){ env_mkdir(chain[i]); settle(); }
  no_switch(true); env_creat(p+"/"+nm(nl,'x')); env_creat(chain[chain.size()>1?chain.size()-2:0]+"/y"); env_creat("/w/z"); if(how==2&&chain.size()>2){ env_rename(chain[1],"/w/short"); } no_switch(false);
  settle(); env_creat("/w/last"); settle(); w.end(); check_lifecycle(0,"/w",w.ret,false); if(enf("C12")||enf("C03")||enf("C06")) check_delivery(0,0,"/w"); check_resources(); }

int main(int c,char**v){
  std::vector<Scenario> s; auto T=[](int q,int t){ return thorough?t:q; };
#ifdef NO_FAN
  s.push_back({"C10","without-fanotify",[=]{ without_fanotify(ops_every(),T(2,3)); },0,0,1});
  return explore_main(c,v,s);
#endif
  for(int f=0;f<2;++f){ bool fan=f; std::string A=fan?"fanotify.":"inotify."; std::string D=fan?"C06":"C03"; Opt o; o.fan=fan;
    Opt nocov=o; nocov.coverage=false; Opt part=o; part.setup=[]{ cfg.partial_reads=true; }; Opt partf=nocov; partf.setup=[]{ cfg.partial_free=true; }; Opt merge=o; merge.merge=true; Opt rev=o; rev.setup=[]{ cfg.readdir_rev=true; cfg.dtype_unknown=true; };
    s.push_back({D+" C07",A+"all",[=]{ session(ops_every(),T(3,4),CHOICE,o); },0,0,4});
    s.push_back({D+" C04",A+"moves",[=]{ session(moves(),T(3,4),CHOICE,part); },1,1,2});
    s.push_back({"C04",A+"moves-deep",[=]{ session(moves(),T(3,4),CHOICE,o); },0,1,2});
    s.push_back({D,A+"files",[=]{ session(files(),T(3,4),CHOICE,partf); },0,0,2});
    s.push_back({"C05 C07",A+"dirs",[=]{ session(dirs(),T(4,5),CHOICE,o); },0,0,4});
    s.push_back({"C05",A+"dirs-unknown-type",[=]{ session(dirs(),T(2,3),CHOICE,rev); },0,0,1});
    s.push_back({"C05 C11 "+D,A+"dirs-preempt",[=]{ session(dirs(),T(2,3),PREEMPT,o); },2,3,3});
    s.push_back({"C11 "+D,A+"held",[=]{ session(ops({"hold e","creat e/n","unlink e/n","rmdir e","mkdir e","mv e/n n","mv f e/n","mv e m"}),T(5,6),CHOICE,o); },0,0,2});
    s.push_back({"C07",A+"quiet",[=]{ session(quiet(),T(3,4),CHOICE,o); },0,0,2});
    if(fan) s.push_back({"C06 C07",A+"merged",[=]{ session(ops_every(),T(2,3),CHOICE,merge); },0,1,1});
    s.push_back({"C01 C02 C09",A+"paths",[=]{ life_paths(fan); },2,3,2});
    s.push_back({"C01 C05 C06",A+"chdir",[=]{ life_chdir(fan); },2,3,1});
    s.push_back({"C01 C02 C09",A+"races",[=]{ life_races(fan); },3,4,3});
    s.push_back({"C02",A+"flood",[=]{ life_flood(fan); },2,3,1});
    s.push_back({"C01 C02 C08 C09",A+"gone",[=]{ life_gone(fan); },3,4,1});
    s.push_back({"C08 C09 C02",A+"faults-start",[=]{ fault_session(fan,true); },2,3,2});
    s.push_back({"C08 C09 C02",A+"faults",[=]{ fault_session(fan,false); },2,3,3});
    s.push_back({"C11",A+"conditions",[=]{ conditions(fan); },1,2,2});
    s.push_back({"C11",A+"overflow",[=]{ overflow(fan); },0,1,1});
    s.push_back({"C11 C05 C08 C09 "+D,A+"vanish",[=]{ vanish(fan); },2,3,2});
    s.push_back({"C04 C05 "+D,A+"special",[=]{ special(fan); },0,1,2});
    s.push_back({"C09 C12 "+D,A+"fds",[=]{ fds(fan); },0,1,1});
    s.push_back({"C12 "+D,A+"names",[=]{ shapes_names(fan); },0,0,1});
    s.push_back({"C12 "+D,A+"fill",[=]{ shapes_fill(fan); },0,0,3});
    s.push_back({"C12 "+D,A+"deep",[=]{ shapes_deep(fan); },0,0,1});
  }
  s.push_back({"C10","equivalent",[=]{ equiv(ops_every(),T(3,4)); },0,0,4});
  s.push_back({"C10","equivalent-dirs",[=]{ equiv(dirs(),T(4,5)); },0,0,4});
  s.push_back({"C10","identity",[=]{ identity(ops({"creat n","mv f d/f","mkdir m","mv d out"}),T(1,2)); },0,0,1});
  s.push_back({"C10 C09","fallback",[=]{ fallback(); },0,1,1});
  return explore_main(c,v,s);
}
