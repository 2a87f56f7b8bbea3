/*  The command line program over a watcher that does what the harness says. */
#include <wtr/watcher.hpp>
#include "cli_line.hpp"
#include <stdarg.h>
#include <string.h>
#include <thread>
using namespace sim; using wtr::event; using std::string;
std::vector<std::unique_ptr<mock::Inst>> mock::all;
int cut_main(int,char const* const* const);
using ET=enum event::effect_type; using PT=enum event::path_type;
static ET const ets[]={ET::rename,ET::modify,ET::create,ET::destroy,ET::owner,ET::other}; static PT const pts[]={PT::dir,PT::file,PT::hard_link,PT::sym_link,PT::watcher,PT::other};
static int idx(ET t){ for(int i=0;i<6;++i) if(ets[i]==t) return i; return 5; } static int idx(PT t){ for(int i=0;i<6;++i) if(pts[i]==t) return i; return 5; }
struct Run { bool done=false; int rc=-1; std::thread t; char const*av[4]={"wtr.watcher","/w",nullptr,nullptr}; size_t seen=0; std::vector<string> lines;
  void start(){ capture_output=true; kernel_restart_tree(); on_line=[this](int fd,string const&l){ if(fd==1) lines.push_back(l); else violation("printed on standard error: "+json_::printable(l)); }; t=std::thread([this]{ rc=cut_main(2,av); out_end(); done=true; }); settle(); if(mock::all.size()!=1||mock::all[0]->path!="/w") violation("the path given is not what is watched"); if(done) violation("the program ends before there is input"); }
  static void kernel_restart_tree(){ no_switch(true); env_mkdirs("/w"); no_switch(false); }
  void one(event const&e){ if(seen>=lines.size()) violation("an event is not printed: "+json_::printable(wtr::to<string>(e))); auto&l=lines[seen++]; auto v=json_::parse(l); std::function<void(json_::V const&,event const&)> cmp=[&](json_::V const&v,event const&e){ auto str=[&](char const*k,string const&w){ auto p=v.get(k); if(!p||p->k!=json_::V::STR||p->s!=w) violation(string(k)+" is not "+json_::printable(w)+" in "+json_::printable(l)); };
      if(v.k!=json_::V::OBJ||v.m.size()!=5) violation("not an object of five members: "+json_::printable(l)); str("effect_type",etn[idx(e.effect_type)]); str("path_type",ptn[idx(e.path_type)]); str("path_name",e.path_name.native()); auto t=v.get("effect_time"); if(!t||t->k!=json_::V::NUM||t->s!=std::to_string(e.effect_time)) violation("effect_time is not "+std::to_string(e.effect_time)+" in "+json_::printable(l)); auto a=v.get("associated"); if(!a) violation("no associated in "+json_::printable(l)); if(!e.associated){ if(a->k!=json_::V::NUL) violation("associated is not null in "+json_::printable(l)); } else cmp(*a,*e.associated); }; cmp(v,e); }
  void ev(event const&e){ mock::all[0]->cb(e); one(e); }
  void end(bool ok){ mock::all[0]->close_ok=ok; switch(pick(2,"input")){ case 0: stdin_feed("\n",false); break; default: stdin_feed("",true); } settle(); if(!done) violation("the program does not end"); t.join(); if(rc!=(ok?0:1)) violation("exit status "+std::to_string(rc)+(ok?" although":" and yet not")+" closing succeeded"); if(mock::all[0]->live||!mock::all[0]->closes) violation("the watcher is not closed"); if(seen!=lines.size()) violation("a line too many: "+json_::printable(lines.back())); if(!out_capture(1).empty()&&out_capture(1).back()!='\n') violation("half a line at the end"); if(!out_capture(2).empty()) violation("something is printed on standard error"); } };
static Run& run(){ auto*r=new Run; r->start(); return *r; }
static void types(){ auto&r=run(); int a=pick(6,"effect"),b=pick(6,"path type"),c=pick(37,"associated"); if(c==36) r.ev(event("/w/x",ets[a],pts[b])); else r.ev(event(event("/w/x",ets[a],pts[b]),event("/w/y",ets[c/6],pts[c%6]))); r.end(true); }
static void times(){ auto&r=run(); static int64_t const at[]={0,1,9,10,999,1000000000ll,99999999999999999ll,100000000000000000ll,999999999999999999ll,1000000000000000000ll,1700000000123456789ll,9223372036854000000ll}; int64_t t=at[pick(12,"time")]; int64_t back=now_ns(); advance_ns(t-now_ns()-2); event e("/w/x",ET::create,PT::file); event f(e,event("/w/y",ET::create,PT::file)); advance_ns(back-now_ns()); if(pick(2,"associated")) r.ev(f); else r.ev(e); r.end(true); }
static char const*const sp[]={"\"","\\","/","\n","\x01","\x1f","\x7f","\xff","\xc3\xa4","\xe2\x80\xa8","\xf0\x9f\x98\x80","u","n","0022",":","},{","\xc3","\xed\xa0\x80","'","\t","%s","%n"," ","\r"};
static void specials(int depth){ auto&r=run(); string s; for(int i=0;i<depth;++i) s+=sp[pick(24,"piece")]; if(pick(2,"where")) r.ev(event(event("/w/"+s,ET::rename,PT::dir),event(s+"2",ET::rename,PT::dir))); else r.ev(event(s,ET::create,PT::file)); r.end(true); }
static void lengths(){ auto&r=run(); static int const L[]={0,1,15,16,17,255,256,1023,1024,4095,4096,8191,8192,70000}; string s(L[pick(14,"length")],pick(2,"of what")?'"':'a'); r.ev(event(s,ET::create,PT::file)); r.ev(event(event(s,ET::rename,PT::dir),event(s+"2",ET::rename,PT::dir))); r.end(true); }
static void nested(){ auto&r=run(); int n=pick(5,"depth"); auto e=std::make_unique<event>("/w/0",ET::create,PT::file); for(int i=0;i<n;++i){ event t("/w/"+std::to_string(i+1),ets[i],pts[i]); e=std::make_unique<event>(t,event(*e)); } r.ev(*e); r.end(true); }
/*  Events in any number, before the end and while closing, and closing well or not. */
static void histories(){ auto&r=run(); int n=pick(5,"events"),m=pick(4,"during close"); static int const many[]={0,1,2,3,300}; auto ev=[&](int i){ r.ev(event("/w/"+std::to_string(i),ets[i%6],pts[i%5])); }; for(int i=0;i<many[n];++i) ev(i); mock::all[0]->on_close.push_back([&](mock::Inst&){ for(int i=0;i<m;++i) ev(i+1000); }); r.end(pick(2,"close")==0); }
int main(int c,char**v){ std::vector<Scenario> s;
  s.push_back({"C16","cli-types",types,0,0,1}); s.push_back({"C16","cli-times",times,0,0,1}); s.push_back({"C16","cli-specials",[]{ specials(thorough?3:2); },0,0,1}); s.push_back({"C16","cli-lengths",lengths,0,0,1}); s.push_back({"C16","cli-nested",nested,0,0,1}); s.push_back({"C16","cli-histories",histories,0,0,1});
  return explore_main(c,v,s); }
