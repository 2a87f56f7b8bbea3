/*  The C interface over the real watcher and the simulated kernel. */
#include "common.hpp"
#include <wtr/watcher-c.h>
#include <thread>
using namespace sim; using namespace h;

/*  One handle. The callback and the context tell handles apart. */
struct C { int id; std::string asked, abs; void* hnd=nullptr; bool ret=false; long magic=0x434e5458; 
  C(int id,std::string const& a,std::string const& b):id(id),asked(a),abs(b){}
  void open();
  bool close(){ ret=wtr_watcher_close(hnd); rec_closed(id); observe(ret?"close true":"close false"); hnd=nullptr; return ret; } };
static C*ctx_of[8];
static void cb_all(wtr_watcher_event e,void*ctx,int which){
  C*c=(C*)ctx; int i=-1; for(int k=0;k<8;++k) if(ctx_of[k]==c) i=k; if(i<0||c->magic!=0x434e5458) violation("the context given to the callback is not one that was given at open"); if((c->id&1)!=which) violation("the callback of another handle was called");
  callback_begin(c->id); Ev v; v.w=c->id; if(!e.path_name) violation("an event without a path"); v.path=e.path_name; v.t=e.effect_time;
  v.et=e.effect_type==WTR_WATCHER_EFFECT_RENAME?ET_RENAME:e.effect_type==WTR_WATCHER_EFFECT_MODIFY?ET_MODIFY:e.effect_type==WTR_WATCHER_EFFECT_CREATE?ET_CREATE:e.effect_type==WTR_WATCHER_EFFECT_DESTROY?ET_DESTROY:e.effect_type==WTR_WATCHER_EFFECT_OWNER?ET_OWNER:e.effect_type==WTR_WATCHER_EFFECT_OTHER?ET_OTHER:99;
  v.pt=e.path_type==WTR_WATCHER_PATH_DIR?PT_DIR:e.path_type==WTR_WATCHER_PATH_FILE?PT_FILE:e.path_type==WTR_WATCHER_PATH_HARD_LINK?PT_HARD:e.path_type==WTR_WATCHER_PATH_SYM_LINK?PT_SYM:e.path_type==WTR_WATCHER_PATH_WATCHER?PT_WATCHER:e.path_type==WTR_WATCHER_PATH_OTHER?PT_OTHER:99;
  if(e.associated_path_name){ v.assoc=true; v.apath=e.associated_path_name; v.aet=v.et; v.apt=v.pt; }
  rec_event(v); yield_point("in the callback"); if(v.path!=e.path_name||(v.assoc&&v.apath!=e.associated_path_name)) violation("the strings of an event changed during the callback"); callback_end(c->id); }
static void cb0(wtr_watcher_event e,void*x){ cb_all(e,x,0); }
static void cb1(wtr_watcher_event e,void*x){ cb_all(e,x,1); }
void C::open(){ ctx_of[id]=this; hnd=wtr_watcher_open(asked.c_str(),id&1?cb1:cb0,this); if(!hnd) violation("no handle"); }
static int inst(C&k){ auto v=events_of(k.id); return v.empty()?-1:inst_of_thread(v[0].thread); }
static void judge(C&c,bool may_fail,std::string const& root){ check_lifecycle(c.id,c.abs,c.ret,may_fail); auto i=inst(c); if(i>=0&&!root.empty()) check_delivery(c.id,i,root); }

static std::vector<Op const*> al(){ return ops({"creat n","creat d/n","write f","unlink f","mv f d/f","mv f out","mv y in","mv d D","mv x in","mkdir m","rmdir e","xchg f d/h","chmod f"}); }
static void session(bool fan,int depth){ cfg.root=fan; cfg.fan_merge=false; std_tree(); C c(0,"/w","/w"); c.open(); settle(); if(!history(al(),depth,CHOICE)){ c.close(); return; } settle(); probe("/w","/o"); settle(); c.close(); judge(c,false,"/w"); check_resources(); }
static struct { char const*asked,*abs,*real; } const kinds[]={{"/w","/w","/w"},{"/w/d","/w/d","/w/d"},{".","/cwd/.","/cwd"},{"/nope","/nope",""},{"/w/f","/w/f",""},{"","",""},{"/w/","/w/","/w"},{"nope","/cwd/nope",""},{"/sp ace/\xc3\xa4\xff","/sp ace/\xc3\xa4\xff","/sp ace/\xc3\xa4\xff"}};
static void paths(bool fan){ cfg.root=fan; cfg.fan_merge=false; std_tree(); no_switch(true); env_mkdirs("/sp ace/\xc3\xa4\xff/q"); env_mkdirs("/cwd"); no_switch(false); auto&k=kinds[pick(sizeof kinds/sizeof*kinds,"path")]; bool ok=k.real[0]; C c(0,k.asked,k.abs); int when=pick(3,"when"); c.open(); if(when) settle(); if(when==2&&ok) { env_creat(std::string(k.real)+"/c1"); }
  if(wtr_watcher_close(nullptr)) violation("closing null gave true"); c.close(); judge(c,!ok||!when,k.real); if(!ok&&c.ret) violation("closing a watcher of a path that is no directory gave true"); check_resources(); }
static void races(bool fan){ cfg.root=fan; cfg.fan_merge=false; std_tree(); C c(0,"/w","/w"); c.open(); int n=pick(4,"changes"); yield_point("opened"); if(n==3) settle(); else for(int i=0;i<n;++i) env_creat(i?"/w/b":"/w/d/a"); c.close(); bool early=false; auto m=msgs_of(0); if(!m.empty()&&starts(m[0].path,"e/")) early=true; if(early&&c.ret) violation("closing before the watcher went live gave true"); judge(c,true,"/w"); check_resources(); env_creat("/w/late"); if(queued_count()) violation("a kernel watch is left over after close"); }
static void several(bool fan){ cfg.root=fan; cfg.fan_merge=false; std_tree(); C a(0,"/w","/w"),b(1,"/w/d","/w/d"),c(2,"/o","/o"); C*all[]={&a,&b,&c}; int perm=pick(6,"order"); static int const P[6][3]={{0,1,2},{0,2,1},{1,0,2},{1,2,0},{2,0,1},{2,1,0}}; for(auto*x:all){ x->open(); } settle();
  for(int i=0;i<3;++i){ env_creat("/w/n"+std::to_string(i)); env_creat("/w/d/n"+std::to_string(i)); env_creat("/o/n"+std::to_string(i)); if(i==1) env_rename("/w/f","/w/d/f"); if(i==1) settle(); all[P[perm][i]]->close(); }
  for(auto*x:all) judge(*x,false,x->asked); check_resources(); }
static void threads(bool fan){ cfg.root=fan; cfg.fan_merge=false; std_tree(); C a(0,"/w","/w"),b(1,"/w","/w"); { std::thread t([&]{ b.open(); env_creat("/w/n"); b.close(); }); a.open(); env_creat("/w/d/n"); a.close(); t.join(); } judge(a,true,"/w"); judge(b,true,"/w"); check_resources(); }

int main(int c,char**v){ std::vector<Scenario> s; auto T=[](int q,int t){ return thorough?t:q; };
  for(int f=0;f<2;++f){ bool fan=f; std::string A=fan?"fanotify.":"inotify.";
    s.push_back({"C14",A+"capi-session",[=]{ session(fan,T(2,3)); },0,1,2});
    s.push_back({"C14",A+"capi-paths",[=]{ paths(fan); },1,2,1});
    s.push_back({"C14",A+"capi-races",[=]{ races(fan); },2,3,2});
    s.push_back({"C14",A+"capi-several",[=]{ several(fan); },0,1,1});
    s.push_back({"C14",A+"capi-threads",[=]{ threads(fan); },1,2,1}); }
  return explore_main(c,v,s); }
