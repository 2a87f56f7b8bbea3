/*  Shared by the harnesses that drive wtr::watch: the watcher under test, the
    standard tree and the alphabet of filesystem operations. */
#pragma once
#include "../lib/oracle.h"
#include "../lib/sim.h"
#include <wtr/watcher.hpp>
#include <memory>
#include <stdarg.h>
#include <string.h>
#include <functional>
#include <optional>

namespace h {
inline std::string fmt(char const*f,...){ char b[4096]; va_list a; va_start(a,f); vsnprintf(b,sizeof b,f,a); va_end(a); return b; }
inline int et_of(enum wtr::event::effect_type t){ using E=enum wtr::event::effect_type; switch(t){ case E::rename: return sim::ET_RENAME; case E::modify: return sim::ET_MODIFY; case E::create: return sim::ET_CREATE; case E::destroy: return sim::ET_DESTROY; case E::owner: return sim::ET_OWNER; default: return sim::ET_OTHER; } }
inline int pt_of(enum wtr::event::path_type t){ using P=enum wtr::event::path_type; switch(t){ case P::dir: return sim::PT_DIR; case P::file: return sim::PT_FILE; case P::hard_link: return sim::PT_HARD; case P::sym_link: return sim::PT_SYM; case P::watcher: return sim::PT_WATCHER; default: return sim::PT_OTHER; } }
inline sim::Ev conv(int w,wtr::event const& e){ sim::Ev v; v.w=w; v.path=e.path_name.native(); v.et=et_of(e.effect_type); v.pt=pt_of(e.path_type); v.t=e.effect_time; if(e.associated){ v.assoc=true; v.apath=e.associated->path_name.native(); v.aet=et_of(e.associated->effect_type); v.apt=pt_of(e.associated->path_type); v.aassoc=(bool)e.associated->associated; } return v; }

/*  What the callback of a watcher does besides recording (used by some scenarios). */
struct W {
  int id; std::string asked, abs; bool closed=false, ret=false;
  std::function<void(wtr::event const&)> extra;
  std::unique_ptr<wtr::watch> w;
  W(int id,std::string const& asked,std::string const& abs,std::function<void(wtr::event const&)> ex={}):id(id),asked(asked),abs(abs),extra(std::move(ex)){}
  void open(){ w=std::make_unique<wtr::watch>(std::filesystem::path(asked),[this,i=id](wtr::event const& e){ sim::callback_begin(i); sim::rec_event(conv(i,e)); if(extra) extra(e); sim::callback_end(i); }); }
  bool close(){ ret=w->close(); sim::rec_closed(id); sim::observe(ret?"close true":"close false"); closed=true; return ret; }
  /* close, then the end of its lifetime */
  bool end(){ bool r=close(); w.reset(); return r; }
  void destroy(){ w.reset(); sim::rec_closed(id); closed=true; }
};

/*  /w is watched; /o is outside. */
inline void std_tree(){
  using namespace sim; no_switch(true);
  env_mkdirs("/w/d/g"); env_mkdirs("/w/e"); env_mkdirs("/o/x/s"); env_creat("/w/f"); env_creat("/w/d/h"); env_creat("/o/y");
  no_switch(false); }

struct Op { char const* name; std::function<int()> run; };
/*  Every operation of the alphabet; a result other than 0 means that it is not
    possible in this state, and the history is not pursued. */
inline std::vector<Op> const& ops_all(){ using namespace sim; static std::vector<Op> v={
  {"creat n",[]{return env_creat("/w/n");}},
  {"creat d/n",[]{return env_creat("/w/d/n");}},
  {"write f",[]{return env_write("/w/f");}},
  {"unlink f",[]{return env_unlink("/w/f");}},
  {"mv f d/f",[]{return env_rename("/w/f","/w/d/f");}},
  {"mv f n",[]{return env_rename("/w/f","/w/n");}},
  {"mv f out",[]{return env_rename("/w/f","/o/f");}},
  {"mv y in",[]{return env_rename("/o/y","/w/y");}},
  {"mv d/h f",[]{return env_rename("/w/d/h","/w/f");}},
  {"mkdir m",[]{return env_mkdir("/w/m");}},
  {"mkdir e/k",[]{return env_mkdir("/w/e/k");}},
  {"mkdir m/k",[]{return env_mkdir("/w/m/k");}},
  {"creat m/k/z",[]{return env_creat("/w/m/k/z");}},
  {"mv d D",[]{return env_rename("/w/d","/w/D");}},
  {"mv d out",[]{return env_rename("/w/d","/o/d");}},
  {"mv d back",[]{return env_rename("/o/d","/w/d");}},
  {"mv x in",[]{return env_rename("/o/x","/w/x");}},
  {"mv d e/d",[]{return env_rename("/w/d","/w/e/d");}},
  {"mv d e",[]{return env_rename("/w/d","/w/e");}},
  {"mv x e",[]{return env_rename("/o/x","/w/e");}},
  {"rmdir e",[]{return env_rmdir("/w/e");}},
  {"rmdir d/g",[]{return env_rmdir("/w/d/g");}},
  {"creat d/g/z",[]{return env_creat("/w/d/g/z");}},
  {"creat D/g/z",[]{return env_creat("/w/D/g/z");}},
  {"xchg f d/h",[]{return env_exchange("/w/f","/w/d/h");}},
  {"xchg d e",[]{return env_exchange("/w/d","/w/e");}},
  {"link f l",[]{return env_link("/w/f","/w/l");}},
  {"symlink",[]{return env_symlink("/o/x","/w/s");}},
  {"chmod f",[]{return env_chmod("/w/f");}},
  {"chmod d",[]{return env_chmod("/w/d");}},
  {"cat f",[]{return env_readfile("/w/f");}},
  {"ls d",[]{return env_listdir("/w/d");}},
  {"creat out",[]{return env_creat("/o/n");}},
  {"write out",[]{return env_write("/o/y");}},
  {"creat out/x",[]{return env_creat("/o/x/n");}},
  {"append f",[]{return env_append("/w/f");}},
  {"unlink d/h",[]{return env_unlink("/w/d/h");}},
  {"mkfifo",[]{return env_mkfifo("/w/p");}},
  {"creat D/n",[]{return env_creat("/w/D/n");}},
  {"creat e/n",[]{return env_creat("/w/e/n");}},
  }; return v; }
/*  For some scenarios only. */
inline std::vector<Op> const& ops_more(){ using namespace sim; static std::vector<Op> v={
  {"unlink e/n",[]{return env_unlink("/w/e/n");}},
  {"mkdir e",[]{return env_mkdir("/w/e");}},
  {"hold e",[]{return env_hold("/w/e");}},
  {"mv e/n n",[]{return env_rename("/w/e/n","/w/n");}},
  {"mv f e/n",[]{return env_rename("/w/f","/w/e/n");}},
  {"mv e m",[]{return env_rename("/w/e","/w/m");}},
  }; return v; }
inline std::vector<Op const*> ops(std::vector<char const*> names){ std::vector<Op const*> r; for(auto*n:names){ Op const*f=nullptr; for(auto*l:{&ops_all(),&ops_more()}) for(auto&o:*l) if(!strcmp(o.name,n)) f=&o; if(!f) sim::unmodeled(std::string("no operation ")+n); r.push_back(f); } return r; }
inline std::vector<Op const*> ops_every(){ std::vector<Op const*> r; for(auto&o:ops_all()) r.push_back(&o); return r; }

/*  Runs a history of `depth` operations. Between two of them the watcher may catch
    up or not. Returns false when an operation was not possible. */
enum Pace { CHOICE, SETTLE, BURST, PREEMPT };
inline bool history(std::vector<Op const*> const& al,int depth,Pace p){
  for(int i=0;i<depth;++i){ int c=sim::pick(al.size(),"op"); if(al[c]->run()) return false; sim::observe(al[c]->name);
    if(p==SETTLE) sim::settle(); else if(p==CHOICE&&i+1<depth){ if(sim::pick(2,"pace")==0) sim::settle(); } else if(p==PREEMPT) sim::settle_pre(); }
  return true; }
/*  Creates an entry in every directory of the tree and outside of it, so that stale
    watches and stale paths show. */
inline void probe(std::string const& root,std::string const& outside){ using namespace sim; for(auto&d:env_dirs(root)) env_creat(d+"/probe"); if(!outside.empty()) for(auto&d:env_dirs(outside)) env_creat(d+"/probe"); }
}
