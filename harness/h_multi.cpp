/*  Several watchers at once, opened, used and closed from several threads. */
#include "common.hpp"
#include <thread>
#include <atomic>
#include <optional>
using namespace sim; using namespace h;

/*  A watcher that keeps copies of everything it is given. */
struct K { W w; std::vector<wtr::event> kept; std::optional<wtr::event> last; std::string root;
  K(int id,std::string const& r):w(id,r,r,[this](wtr::event const& e){ kept.push_back(e); last.emplace(e); }),root(r){} };
static void tree(){ no_switch(true); env_mkdirs("/w/d"); env_mkdirs("/w/e"); env_creat("/w/f"); env_mkdirs("/o/x"); no_switch(false); }
/*  Thread and kernel instance of a watcher, from who calls it back. */
static int inst(K&k){ auto v=events_of(k.w.id); return v.empty()?-1:inst_of_thread(v[0].thread); }
static void judge(K&k,bool may_fail=false){
  check_lifecycle(k.w.id,k.w.abs,k.w.ret,may_fail); auto v=events_of(k.w.id);
  if(inst(k)>=0) check_delivery(k.w.id,inst(k),k.root);
  /* what was kept is what was given, after the watcher is gone */
  if(k.kept.size()!=v.size()) violation(h::fmt("a kept copy is missing: %zu of %zu",k.kept.size(),v.size()));
  for(size_t i=0;i<v.size();++i){ auto c=conv(k.w.id,k.kept[i]); if(c.path!=v[i].path||c.et!=v[i].et||c.pt!=v[i].pt||c.t!=v[i].t||c.assoc!=v[i].assoc||c.apath!=v[i].apath||c.aet!=v[i].aet||c.apt!=v[i].apt) violation("a kept copy of an event has changed: "+show(v[i])+" is now "+show(c)); }
  if(!v.empty()&&(!k.last||k.last->path_name!=k.kept.back().path_name)) violation("the last event kept by assignment is not the last one delivered"); }
static void caught_up(K&k){ if(k.w.closed) return; if(inst(k)>=0&&queued_of(inst(k))) violation("a watcher at rest has left notifications unread"); check_coverage(k.root,inst(k)); }
static char const* const pairs[][2]={{"/w","/w"},{"/w","/w/d"},{"/w/d","/w/e"},{"/w","/o"}};
static std::vector<std::function<void()>> const& acts(){ static std::vector<std::function<void()>> v={
  []{ env_creat("/w/a"); }, []{ env_creat("/w/d/b"); }, []{ env_rename("/w/f","/w/d/f"); }, []{ env_mkdir("/w/m"); env_creat("/w/m/c"); }, []{ env_rename("/w/d","/o/d"); env_creat("/o/d/q"); }, []{ env_write("/o/x/../y"); env_creat("/o/x/z"); env_creat("/w/e/z"); } }; return v; }

/*  One thread, two watchers, every order of opening, acting and closing. */
static void orders(bool fan){
  cfg.root=fan; cfg.fan_merge=false; tree(); auto p=pairs[pick(4,"roots")]; K a(0,p[0]),b(1,p[1]);
  /* a watched path that goes away itself is judged in h_core */
  bool in_d=a.root=="/w/d"||b.root=="/w/d"; auto act=[&](char const*t){ int c=pick(in_d?4:acts().size(),t); acts()[c](); };
  a.w.open(); bool opened=false; if(pick(2,"open b first")){ b.w.open(); opened=true; } settle();
  act("first"); if(pick(2,"pace")) settle();
  if(!opened){ if(!env_isdir(b.root)) return; b.w.open(); if(pick(2,"pace")) settle(); }
  act("second"); settle(); caught_up(a); caught_up(b);
  int first=pick(2,"closed first"); K&x=first?b:a; K&y=first?a:b; bool moved=!env_isdir("/w/d");
  x.w.end(); acts()[0](); env_creat("/o/late"); env_creat("/w/late"); settle(); if(!moved) caught_up(y); 
  y.w.end(); judge(a,moved); judge(b,moved); check_resources(); }
/*  Two owners: each opens, and closes, a watcher of its own; files change meanwhile. */
static void owners(bool fan){
  cfg.root=fan; cfg.fan_merge=false; tree(); auto p=pairs[pick(4,"roots")]; auto a=std::make_unique<K>(0,p[0]); auto b=std::make_unique<K>(1,p[1]); int how=pick(3,"how");
  { std::thread t([&]{ b->w.open(); yield_point("open"); b->w.end(); });
    a->w.open(); if(how) env_creat(std::string(p[how-1])+"/n"); a->w.end(); t.join(); }
  judge(*a,true); judge(*b,true); check_resources(); }
/*  Two that run; while one is closed by another thread, files change and the other one is used. */
static void closing(bool fan){
  cfg.root=fan; cfg.fan_merge=false; tree(); auto p=pairs[pick(4,"roots")]; K a(0,p[0]),b(1,p[1]); a.w.open(); b.w.open(); settle(); int n=pick(3,"act");
  { std::thread t([&]{ b.w.end(); }); if(n==0) acts()[0](); else if(n==1){ acts()[1](); } else { a.w.end(); } t.join(); }
  settle(); if(n<2){ env_creat("/w/late"); settle(); caught_up(a); a.w.end(); } judge(a); judge(b); check_resources(); }
/*  A callback closes, or opens, another watcher. */
static void callbacks(bool fan){
  cfg.root=fan; cfg.fan_merge=false; tree(); auto p=pairs[pick(3,"roots")]; K a(0,p[0]); int what=pick(2,"what"); std::unique_ptr<K> b=std::make_unique<K>(1,p[1]); std::atomic<int> done{0};
  a.w.extra=[&](wtr::event const& e){ a.kept.push_back(e); a.last.emplace(e); if(e.path_type==wtr::event::path_type::watcher||done) return; done=1; if(what==0) b->w.end(); else b->w.open(); done=2; };
  if(what==0){ b->w.open(); settle(); } a.w.open(); settle(); env_creat(std::string(p[0])+"/go"); settle(); if(done!=2) violation("no callback, or it does not return"); env_creat("/w/d/more"); settle(); caught_up(a); caught_up(*b);
  a.w.end(); if(what) b->w.end(); judge(a); judge(*b); check_resources(); }
/*  Two that cannot be set up, at the same time; each says so itself. */
static void failing(bool fan){
  cfg.root=fan; cfg.fan_merge=false; tree(); auto p=pairs[pick(4,"roots")]; int how=pick(5,"how");
  switch(how){ case 0: fault_always("epoll_create",EMFILE); break; case 1: fault_always("inotify_init",EMFILE); fault_always("fanotify_init",EMFILE); break; case 2: fault_always("epoll_ctl",ENOMEM); break; case 3: fault_always("epoll_wait",EBADF); break; case 4: fault_always("inotify_add_watch",ENOSPC); fault_always("fanotify_mark",ENOSPC); break; }
  K a(0,how==4?"/w/d":p[0]),b(1,how==4?"/w/d":p[1]);
  { std::thread t([&]{ b.w.open(); b.w.end(); }); a.w.open(); if(pick(2,"pace")) settle(); a.w.end(); t.join(); }
  for(K*k:{&a,&b}){ check_lifecycle(k->w.id,k->w.abs,k->w.ret,true); auto v=events_of(k->w.id); judge(*k,true); }
  check_resources(); }
/*  Again and again, also with a descriptor of somebody else's in the way. */
static void again(bool fan){
  cfg.root=fan; cfg.fan_merge=false; cfg.fd_base=pick(2,"lowest descriptor")?0:3; tree(); std::vector<std::unique_ptr<K>> all; int ff=-1; int when=pick(3,"foreign descriptor");
  for(int i=0;i<3;++i){ all.push_back(std::make_unique<K>(i,"/w")); auto&k=*all.back(); k.w.open(); if(pick(2,"wait")) settle(); env_creat("/w/n"+std::string(1,'0'+i)); if(pick(2,"wait")) settle();
    bool ret=k.w.w->close(); rec_closed(i); k.w.ret=ret; if(when==1&&i==0) ff=foreign_fd(); if(k.w.w->close()) violation("a second close() returned true"); if(when==2&&i==0) ff=foreign_fd(); k.w.w.reset(); k.w.closed=true; if(ff>=0&&!foreign_ok(ff)&&enf("C09 C13")) violation("a descriptor that belongs to somebody else was closed"); check_resources(); }
  for(auto&k:all) judge(*k,true); }

int main(int c,char**v){
  std::vector<Scenario> s;
  for(int f=0;f<2;++f){ bool fan=f; std::string A=fan?"fanotify.":"inotify.";
    s.push_back({"C13",A+"multi-orders",[=]{ orders(fan); },0,1,3});
    s.push_back({"C13",A+"multi-owners",[=]{ owners(fan); },2,3,4});
    s.push_back({"C13",A+"multi-closing",[=]{ closing(fan); },1,2,1});
    s.push_back({"C13",A+"multi-callbacks",[=]{ callbacks(fan); },1,2,1});
    s.push_back({"C13",A+"multi-failing",[=]{ failing(fan); },1,2,1});
    s.push_back({"C13 C09 C02",A+"multi-again",[=]{ again(fan); },1,2,1});
  }
  return explore_main(c,v,s);
}
