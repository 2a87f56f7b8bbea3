/*  The C interface over a watcher that does what the harness says (mock_capi/wtr/watcher.hpp). */
#include "../lib/sim.h"
#include <wtr/watcher.hpp>
#include <wtr/watcher-c.h>
#include <optional>
#include <stdarg.h>
#include <string.h>
using namespace sim; using wtr::event;
std::vector<std::unique_ptr<mock::Inst>> mock::all;
static std::string fmt(char const*f,...){ char b[2048]; va_list a; va_start(a,f); vsnprintf(b,sizeof b,f,a); va_end(a); return b; }
using ET=enum event::effect_type; using PT=enum event::path_type;
static ET const ets[]={ET::rename,ET::modify,ET::create,ET::destroy,ET::owner,ET::other}; static PT const pts[]={PT::dir,PT::file,PT::hard_link,PT::sym_link,PT::watcher,PT::other};
static int8_t const cets[]={WTR_WATCHER_EFFECT_RENAME,WTR_WATCHER_EFFECT_MODIFY,WTR_WATCHER_EFFECT_CREATE,WTR_WATCHER_EFFECT_DESTROY,WTR_WATCHER_EFFECT_OWNER,WTR_WATCHER_EFFECT_OTHER}; static int8_t const cpts[]={WTR_WATCHER_PATH_DIR,WTR_WATCHER_PATH_FILE,WTR_WATCHER_PATH_HARD_LINK,WTR_WATCHER_PATH_SYM_LINK,WTR_WATCHER_PATH_WATCHER,WTR_WATCHER_PATH_OTHER};

/*  What the callback got last, copied out while it ran. */
struct Got { wtr_watcher_event e; std::string path; std::optional<std::string> assoc; void*ctx; int fn; };
static std::vector<Got> got; static std::vector<std::string> junk;
static void take(wtr_watcher_event e,void*ctx,int fn){ Got g; g.e=e; g.ctx=ctx; g.fn=fn; junk.clear(); for(int i=0;i<8;++i) junk.push_back(std::string(40+i*300,'#')); if(!e.path_name) violation("an event without a path"); g.path=e.path_name; if(e.associated_path_name) g.assoc=e.associated_path_name; got.push_back(g); }
static void f0(wtr_watcher_event e,void*c){ take(e,c,0); }
static void f1(wtr_watcher_event e,void*c){ take(e,c,1); }
static wtr_watcher_callback const fns[]={f0,f1};
static void is(char const*what,event const& e,int ei,int pi,void*ctx,int fn){
  if(got.size()!=1) violation(fmt("%s: %zu events instead of one",what,got.size())); auto g=got[0]; got.clear();
  if(g.ctx!=ctx) violation(std::string(what)+": the context is not the one given at open"); if(g.fn!=fn) violation(std::string(what)+": another callback was called");
  if(g.path!=e.path_name.native()) violation(fmt("%s: the path of %zu bytes came out as one of %zu bytes: %s",what,e.path_name.native().size(),g.path.size(),g.path.substr(0,100).c_str()));
  if((bool)g.assoc!=(bool)e.associated) violation(std::string(what)+": an associated path that is not, or is missing"); if(g.assoc&&*g.assoc!=e.associated->path_name.native()) violation(std::string(what)+": another associated path");
  if(g.e.effect_type!=cets[ei]) violation(fmt("%s: effect type %d came out as %d",what,ei,g.e.effect_type)); if(g.e.path_type!=cpts[pi]) violation(fmt("%s: path type %d came out as %d",what,pi,g.e.path_type));
  if(g.e.effect_time!=e.effect_time) violation(fmt("%s: effect time %lld came out as %lld",what,(long long)e.effect_time,(long long)g.e.effect_time)); }
static void one(event const& e,int ei,int pi,char const*what){ int c; void*ctx=&c; auto h=wtr_watcher_open("/w",f0,ctx); if(!h||mock::all.size()!=1||!mock::all[0]->live) violation("open did not make one watcher"); if(mock::all[0]->path!="/w") violation("another path is watched: "+mock::all[0]->path); mock::all[0]->cb(e); is(what,e,ei,pi,ctx,0); if(!wtr_watcher_close(h)) violation("a successful close gave false"); if(mock::all[0]->live) violation("the watcher is not given back"); }

static void types(){ int ei=pick(6,"effect"),pi=pick(6,"path type"); int as=pick(37,"associated"); event a("/w/x",ets[ei],pts[pi]); if(as==36){ one(a,ei,pi,"plain"); return; } int64_t d=pick(2,"times")?1000000:0; if(d) advance_ns(d); event b(a,event("/w/y",ets[as/6],pts[as%6])); one(b,ei,pi,"associated"); }
static void times(){ static int64_t const at[]={0,1,999,1000000000ll,1700000000123456789ll,2147483647ll*1000000000,2147483648ll*1000000000,4294967296ll*1000000000,9223372036ll*1000000000,9223372036854775807ll}; int64_t t=at[pick(10,"time")]; advance_ns(t-now_ns()-2); event e("/w/x",ET::create,PT::file); if(pick(2,"associated")) one(event(e,event("/w/y",ET::create,PT::file)),2,1,"time"); else one(e,2,1,"time"); }
static void names(){ int n=pick(255+12,"name"); static int const L[]={0,1,2,15,16,22,23,255,4095,4096,4097,70000}; std::string s=n<255?"/w/"+std::string(1,char(n+1))+"z":std::string(L[n-255],'n'); event e(s,ET::create,PT::file); switch(pick(3,"where")){ case 0: one(e,2,1,"name"); break; case 1: one(event(event("/w/a",ET::rename,PT::file),event(s,ET::rename,PT::file)),0,1,"associated name"); break; case 2: one(event(event(s,ET::rename,PT::dir),event(s+"2",ET::rename,PT::dir)),0,0,"names"); } }
static void opened(){ int n=pick(255+8,"path"); static int const L[]={0,1,2,255,4095,4096,4097,70000}; std::string s=n<255?"p"+std::string(1,char(n+1)):std::string(L[n-255],'p'); { std::string copy=s; auto h=wtr_watcher_open(copy.c_str(),f1,nullptr); copy.assign(copy.size(),'#'); if(mock::all[0]->path!=s) violation("another path is watched than was asked for"); event e("/w/q",ET::modify,PT::file); mock::all[0]->cb(e); is("event",e,1,1,nullptr,1); mock::all[0]->close_ok=pick(2,"close"); bool r=wtr_watcher_close(h); if(r!=mock::all[0]->close_ok) violation("close gave something else than the watcher did"); if(mock::all[0]->live||mock::all[0]->closes<1) violation("the watcher is not closed and given back"); } }
/*  Histories over up to three handles: open, event, close (good, failing, with events during it), close of null. */
static void histories(int depth){ struct H { void*h; mock::Inst*i; long ctx; int fn; bool open; }; std::vector<std::unique_ptr<H>> hs; int serial=0; bool twins=pick(2,"twins"); static event const msg("s/self/die@/w",ET::destroy,PT::watcher);
  auto ev=[&](H&x,char const*what){ serial++; int k=serial; if(twins){ k/=2; k=k%2?k:9-k; advance_ns(1000000000ll+k*1000ll-now_ns()); } event e("/w/n"+std::to_string(k),ets[k%6],pts[k%5]); x.i->cb(e); is(what,e,k%6,k%5,&x.ctx,x.fn); };
  for(int d=0;d<depth;++d){ int op=pick(6,"op"); H*t=nullptr; if(op>=2){ std::vector<H*> o; for(auto&x:hs) if(x->open) o.push_back(x.get()); if(o.empty()) return; t=o[pick(o.size(),"handle")]; }
    switch(op){ case 0: { if(hs.size()>=3) return; hs.push_back(std::make_unique<H>()); auto&x=*hs.back(); x.fn=pick(2,"callback"); x.ctx=d; x.h=wtr_watcher_open(("/p"+std::to_string(d)).c_str(),fns[x.fn],&x.ctx); if(!x.h) violation("no handle"); if(mock::all.size()!=hs.size()) violation("not one watcher for each open"); x.i=mock::all.back().get(); x.open=true; for(auto&y:hs) if(y.get()!=&x&&y->h==x.h&&y->open) violation("one handle for two watchers"); break; }
      case 1: if(wtr_watcher_close(nullptr)) violation("closing null gave true"); break;
      case 2: ev(*t,"event"); break;
      default: { if(op>=4){ int n=op-3; t->i->on_close.push_back([&,n,t](mock::Inst&i){ for(int k=0;k<n;++k) ev(*t,"event during close"); i.cb(msg); is("die message",msg,3,4,&t->ctx,t->fn); }); } bool ok=op!=5; t->i->close_ok=ok; bool r=wtr_watcher_close(t->h); t->open=false; if(r!=ok) violation(fmt("close gave %d, the watcher %d",r,ok)); if(t->i->live) violation("a closed watcher is not given back"); if(!got.empty()) violation("a callback too many"); } }
    for(auto&x:hs){ if(x->i->live!=x->open) violation(x->open?"another watcher was given back":"a closed watcher is not given back"); if(x->open&&x->i->closes) violation("another watcher was closed"); } }
  for(auto&x:hs) if(x->open) wtr_watcher_close(x->h); }

int main(int c,char**v){ std::vector<Scenario> s; auto R=[](std::function<void()> f){ return [f]{ mock::all.clear(); got.clear(); f(); mock::all.clear(); }; };
  s.push_back({"C14","capi-types",R(types),0,0,1}); s.push_back({"C14","capi-times",R(times),0,0,1}); s.push_back({"C14","capi-names",R(names),0,0,1}); s.push_back({"C14","capi-open-paths",R(opened),0,0,1}); s.push_back({"C14","capi-histories",R([]{ histories(thorough?6:5); }),0,0,2});
  return explore_main(c,v,s); }
