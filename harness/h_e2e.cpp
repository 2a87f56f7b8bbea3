/*  The whole watcher on the simulated kernel against the whole watcher on the real one: the same sequences of
    operations, each waited for, must give the same events. */
#include <wtr/watcher.hpp>
#include "conf_ops.hpp"
#include <condition_variable>
#include <mutex>
#ifdef REAL
#include <chrono>
static bool as_root; extern "C" uid_t geteuid(void) noexcept { return as_root?0:1000; }
#endif
static std::vector<Op> all_ops(){ return alphabet([](auto,bool){}); }
static std::mutex m; static std::condition_variable cv; static std::vector<S> evs; static S waited; static bool seen;
static S rel(std::filesystem::path const& p){ S s=p.native(); size_t k=s.find(base+"/w"); if(k!=S::npos&&s[0]=='/') s=s.substr(base.size()+1); else if(k!=S::npos) s=s.substr(0,k)+s.substr(k+base.size()); return s; }
static void on(wtr::event const& e){ std::unique_lock<std::mutex> l(m); S s=rel(e.path_name)+":"+fmt("%d%d",(int)e.effect_type,(int)e.path_type); if(e.associated) s+=">"+rel(e.associated->path_name)+":"+fmt("%d%d",(int)e.associated->effect_type,(int)e.associated->path_type);
  bool sentinel=s.find("/zz")!=S::npos; if(!sentinel) evs.push_back(s); if(waited.size()&&s.find(waited)==0){ seen=true; cv.notify_all(); } }
static S run(std::vector<int> const& seq,std::vector<Op> const& ops,bool& possible){ evs.clear(); possible=true; S name; tree();
#ifdef REAL
  as_root=fan; int serial=0; seen=false; auto wait=[&](S w,auto f){ { std::unique_lock<std::mutex> l(m); waited=w; seen=false; } f(); std::unique_lock<std::mutex> l(m); bool r=cv.wait_for(l,std::chrono::seconds(10),[]{ return seen; }); waited.clear(); return r; };
  std::unique_ptr<wtr::watch> w; w=std::make_unique<wtr::watch>(P("w"),on);
  /* "live" comes before the watches do: touch files until one is seen */ { bool up=false; for(int i=0;i<2000&&!up;++i){ S z="w/zz"+fmt("%d",serial++); { std::unique_lock<std::mutex> l(m); waited="w/zz"; } do_creat(z); std::unique_lock<std::mutex> l(m); up=cv.wait_for(l,std::chrono::milliseconds(5),[]{ return seen; }); } if(!up) return "unusable: no watcher"; }
  auto caught_up=[&]{ S z="w/zz"+fmt("%d",serial++); return wait(z,[&]{ do_creat(z); }); };
#else
  auto w=std::make_unique<wtr::watch>(P("w"),on); settle(); auto caught_up=[&]{ settle(); return true; };
#endif
  for(int k:seq){ name+=ops[k].name+"; "; if(ops[k].run()){ possible=false; break; } if(!burst&&!caught_up()){ evs.push_back("STUCK"); break; } }
  if(burst&&!caught_up()) evs.push_back("STUCK");
  bool r=w->close(); w.reset(); S out; for(auto&e:evs) out+=e+" "; return name+"=> "+out+(r?"":"close false")+(possible?"":"!"); }
#ifdef REAL
int main(int c,char**v){ return real_main(c,v,all_ops,run); }
#else
int main(int c,char**v){ return sim_main(c,v,all_ops,[](auto const&s,auto const&o,bool& ok){ cfg.root=fan; return run(s,o,ok); }); }
#endif
