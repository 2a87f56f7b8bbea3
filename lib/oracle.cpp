#include "internal.h"
#include "oracle.h"
#include <sys/inotify.h>
#include <sys/fanotify.h>
#include <algorithm>
namespace sim {
static std::vector<Ev> evs; static bool closed_[16];
void rec_reset(){ callback_reset(); evs.clear(); memset(closed_,0,sizeof closed_); }
std::vector<Ev> const& events(){ return evs; }
static char const*ets[]={"rename","modify","create","destroy","owner","other"}; static char const*pts[]={"dir","file","hard_link","sym_link","watcher","other"};
static std::string q(std::string const&s){ std::string o; for(unsigned char c:s) if(c>=32&&c<127) o+=c; else o+=sfmt("\\x%02x",c); if(o.size()>160) o=o.substr(0,70)+sfmt("...(%zu bytes)...",s.size())+o.substr(o.size()-70); return o; }
std::string show(Ev const&e){ std::string s=sfmt("%s %s ",e.et>=0&&e.et<6?ets[e.et]:"?",e.pt>=0&&e.pt<6?pts[e.pt]:"?")+q(e.path); if(e.assoc) s+=" -> "+sfmt("%s %s ",e.aet>=0&&e.aet<6?ets[e.aet]:"?",e.apt>=0&&e.apt<6?pts[e.apt]:"?")+q(e.apath); return s; }
void rec_event(Ev const&e0){ InSim g; Ev e=e0; e.thread=self_id(); e.at=vnow; e.nrec=delivered().size(); e.seq=now_seq(); 
  if(e.w<16&&closed_[e.w]) violation(sfmt("watcher %d called back after close() had returned: ",e.w)+show(e));
  observe(sfmt("w%d ",e.w)+show(e)); evs.push_back(e); cb->counters[2]++; }
std::vector<Ev> events_of(int w){ std::vector<Ev> r; for(auto&e:evs) if(e.w==w) r.push_back(e); return r; }
std::vector<Ev> fs_events_of(int w){ std::vector<Ev> r; for(auto&e:evs) if(e.w==w&&e.pt!=PT_WATCHER) r.push_back(e); return r; }
std::vector<Ev> msgs_of(int w){ std::vector<Ev> r; for(auto&e:evs) if(e.w==w&&e.pt==PT_WATCHER) r.push_back(e); return r; }
std::vector<std::string> inst_msgs(int w,char const*p){ std::vector<std::string> r; for(auto&e:msgs_of(w)) if(starts(e.path,p)) r.push_back(e.path); return r; }
void rec_closed(int w){ closed_[w]=true; }
bool starts(std::string const&s,char const*p){ return s.compare(0,strlen(p),p)==0; }
bool under(std::string const&p,std::string const&r){ std::string b=r=="/"?"/":r+"/"; return p.size()>b.size()&&p.compare(0,b.size(),b)==0; }
static std::string dump(int w){ std::string s; for(auto&e:events_of(w)) s+="\n    "+show(e); return s; }

void check_lifecycle(int w,std::string const&abs,bool ret,bool may_fail){
  InSim g; bool full=enf("C01 C08 C10 C11 C13 C14 C16 C20"); if(!full&&!enf("C02")) return; auto v=events_of(w);
  if(!full){ /* C02: what close() says is what the last message says */ bool sd=!v.empty()&&starts(v.back().path,"s/self/die@"); if(ret!=sd) violation(sfmt("close() returned %s but the last message is ",ret?"true":"false")+(v.empty()?std::string("none"):q(v.back().path))); if(!v.empty()&&!(v.back().pt==PT_WATCHER&&v.back().et==ET_DESTROY)) violation("close() returned before the watcher had said that it ended: "+show(v.back())); return; }
  if(v.empty()) violation(sfmt("watcher %d: no event at all, not even a live message",w));
  auto&f=v.front(); auto&l=v.back();
  bool live=f.et==ET_CREATE&&f.pt==PT_WATCHER&&!f.assoc&&(f.path=="s/self/live@"+abs||f.path=="e/self/live@"+abs);
  if(!live) violation("the first event is not the live message for "+q(abs)+": "+show(f));
  bool die=v.size()>1&&l.et==ET_DESTROY&&l.pt==PT_WATCHER&&!l.assoc&&(l.path=="s/self/die@"+abs||l.path=="e/self/die@"+abs);
  if(!die) violation("the last event is not the die message for "+q(abs)+": "+show(l));
  bool slive=f.path[0]=='s', sdie=l.path[0]=='s'; bool emsg=false;
  for(size_t i=1;i+1<v.size();++i){ auto&e=v[i]; if(e.pt==PT_WATCHER){ 
      if(e.et==ET_CREATE||e.et==ET_DESTROY||starts(e.path.substr(std::min<size_t>(2,e.path.size())),"self/live@")||starts(e.path.substr(std::min<size_t>(2,e.path.size())),"self/die@")) violation("a second live or die message: "+show(e));
      if(e.assoc) violation("a watcher message with an associated event: "+show(e));
      if(!starts(e.path,"s/")&&!starts(e.path,"w/")&&!starts(e.path,"e/")) violation("a malformed watcher message: "+show(e));
      if(starts(e.path,"e/")) emsg=true; }
    else { if(!slive) violation("a filesystem event from a watcher that never went live: "+show(e)); } }
  if(!slive&&sdie) violation("e/self/live followed by s/self/die");
  if(slive&&!sdie&&!emsg&&prop!="C20") violation("the watcher died with an error it did not announce"+dump(w));
  if(sdie&&emsg) violation("a fatal error message, but the watcher died successfully"+dump(w));
  if(!may_fail&&(!slive||!sdie)) violation("the watcher failed although nothing went wrong:"+dump(w));
  if(ret!=sdie) violation(sfmt("close() returned %s but the last message is ",ret?"true":"false")+q(l.path));
}

struct Want { std::vector<std::string> paths; int et; int pt; bool assoc=false; std::vector<std::string> apaths; int apt=0; bool optional=false; size_t rec=0; std::string desc; int64_t tq=0; int group=-1; bool fanmulti=false; std::vector<int> ets; };
static std::string join(std::string const&d,std::string const&n){ return n.empty()||n=="."?d:(d=="/"?"/"+n:d+"/"+n); }

static std::vector<std::string> rec_paths(Rec const&r,std::string const&root,bool*optional){
  std::vector<std::string> out; if(!r.fan){ /* its path when reported, or one it has had since */
    if(r.dir_path.empty()||(r.dir_path!=root&&!under(r.dir_path,root))) return out; out.push_back(join(r.dir_path,r.name));
    for(auto&p:paths_of_ino_since(r.dir_ino,r.seq)) if(p==root||under(p,root)) out.push_back(join(p,r.name)); return out; }
  /* fanotify: any path the directory has had since the notification was queued */
  for(auto&p:paths_of_ino_since(r.dir_ino,r.seq)){ if(p.empty()||(p!=root&&!under(p,root))){ *optional=true; continue; } out.push_back(join(p,r.name)); }
  return out; }
static int et_of(uint32_t m,bool fan){ if(!fan) return m&IN_CREATE?ET_CREATE:m&IN_DELETE?ET_DESTROY:m&IN_MODIFY?ET_MODIFY:ET_RENAME; return m&FAN_CREATE?ET_CREATE:m&FAN_DELETE?ET_DESTROY:m&FAN_MODIFY?ET_MODIFY:ET_RENAME; }
static std::vector<int> ets_of(uint32_t m,bool fan){ std::vector<int> r; if(!fan){ r.push_back(et_of(m,false)); return r; } if(m&FAN_CREATE) r.push_back(ET_CREATE); if(m&FAN_DELETE) r.push_back(ET_DESTROY); if(m&FAN_MODIFY) r.push_back(ET_MODIFY); if(m&FAN_MOVE) r.push_back(ET_RENAME); return r; }

static bool fits(Want const&x,Ev const&e){ if(e.t<x.tq&&enf("C03 C06 C14 C16")) return false; if(std::find(x.ets.begin(),x.ets.end(),e.et)==x.ets.end()||e.pt!=x.pt||e.assoc!=x.assoc) return false; if(std::find(x.paths.begin(),x.paths.end(),e.path)==x.paths.end()) return false; if(x.assoc){ if(e.aet!=e.et||e.apt!=x.apt||e.aassoc) return false; if(std::find(x.apaths.begin(),x.apaths.end(),e.apath)==x.apaths.end()) return false; } return true; }

/* each element: alternatives, each a list of wants */
/* one per record: the ways to read the stream from here, each using up this record or also the next */
struct Alt_ { std::vector<Want> w; int use=1; bool known=false; };
struct Slot_ { std::vector<Alt_> alts; std::string desc; bool skip=false; bool move=false; std::string name; };
static size_t best_i,best_j; 
static bool match(std::vector<Slot_> const&s,size_t i,std::vector<Ev> const&v,size_t j,std::vector<char>&memo,bool*known){
  if(i>best_i||(i==best_i&&j>best_j)){best_i=i;best_j=j;}
  if(i>=s.size()) return j==v.size();
  size_t key=i*(v.size()+1)+j; if(memo[key]) return false;
  for(auto&al:s[i].alts){ auto&alt=al.w; bool kn=*known;
      /* optional wants: with and without */
      std::function<bool(size_t,size_t)> go=[&](size_t x,size_t y)->bool{ if(x==alt.size()) return match(s,i+al.use,v,y,memo,known); if(y<v.size()&&fits(alt[x],v[y])&&go(x+1,y+1)) return true; if(alt[x].optional&&go(x+1,y)) return true; return false; };
      if(al.known) *known=true; if(go(0,j)) return true; *known=kn; }
  memo[key]=1; return false; }

void check_delivery(int w,int inst,std::string const&root,bool losses){
  InSim g; if(!enf("C03 C04 C05 C06 C07 C08 C10 C11 C12 C13 C14 C16")) return; std::vector<Rec> rs; for(auto&r:delivered()) if(r.inst==inst) rs.push_back(r);
  std::vector<Slot_> slots; size_t overflow=0;
  auto single=[&](Rec const&r){ Want x; x.ets=ets_of(r.mask,r.fan); x.et=x.ets.empty()?-1:x.ets[0]; x.pt=(r.mask&(r.fan?FAN_ONDIR:IN_ISDIR))?PT_DIR:PT_FILE; bool opt=false; x.paths=rec_paths(r,root,&opt); x.optional=opt; x.tq=r.t_queued; x.desc=sfmt("record %x ",r.mask)+q(r.dir_path)+" "+q(r.name); return x; };
  auto has=[&](Want const&x){ return !x.paths.empty(); };
  for(size_t i=0;i<rs.size();++i){ auto&r=rs[i]; slots.emplace_back(); Slot_&s=slots.back(); s.desc=sfmt("record %x ",r.mask)+q(r.dir_path)+" "+q(r.name); s.name=r.name; s.move=r.mask&(r.fan?FAN_MOVE:IN_MOVE);
    uint32_t ent=r.fan?(FAN_CREATE|FAN_DELETE|FAN_MODIFY|FAN_MOVE):(IN_CREATE|IN_DELETE|IN_MODIFY|IN_MOVE);
    s.skip=true; s.alts={Alt_{}};
    if(r.mask&(r.fan?FAN_Q_OVERFLOW:IN_Q_OVERFLOW)){ overflow++; continue; }
    if(!r.fan&&(r.mask&(IN_IGNORED|IN_DELETE_SELF|IN_MOVE_SELF|IN_UNMOUNT))) continue;
    if(!(r.mask&ent)) continue;
    Want a=single(r); Alt_ alone; if(has(a)){ alone.w={a}; s.skip=false; }
    Rec const*n=i+1<rs.size()&&rs[i+1].batch==r.batch?&rs[i+1]:nullptr;
    if(n&&(n->mask&(r.fan?FAN_Q_OVERFLOW:IN_Q_OVERFLOW))) n=nullptr;
    bool halves=n&&(r.fan?(r.mask&FAN_MOVED_FROM)&&(n->mask&FAN_MOVED_TO):(r.mask&IN_MOVED_FROM)&&(n->mask&IN_MOVED_TO));
    s.alts.clear();
    if(!halves){ s.alts={alone}; continue; }
    Want b=single(*n); bool both=has(a)&&has(b), same=r.cookie&&r.cookie==n->cookie; Alt_ pair; pair.use=2; { Want x=a; x.assoc=true; x.apaths=b.paths; x.apt=b.pt; x.optional=false; pair.w={x}; }
    bool pure=!r.fan||(!(r.mask&(ent&~FAN_MOVE))&&!(n->mask&(ent&~FAN_MOVE))&&(r.mask&FAN_MOVE)!=FAN_MOVE&&(n->mask&FAN_MOVE)!=FAN_MOVE);
    if(same&&pure){ if(both) s.alts.push_back(pair); if(!both||a.optional||b.optional||losses) s.alts.push_back(alone); } /* losses: half of it may be what was lost */
    else { /* merged by the kernel: which halves belong together is not recorded. Otherwise: halves of different renames */
      bool merged=r.fan&&!pure; s.alts.push_back(alone); if(both&&a.pt==b.pt&&r.fan&&(merged||prop=="C14"||prop=="C16"||known("fanotify-adjacent-halves"))){ pair.known=!merged&&prop!="C14"&&prop!="C16"; s.alts.push_back(pair); } } }
  auto v=fs_events_of(w);
  /* C04 judges renames, C05 the changes made to see which directories are watched, C07 that nothing more is said */
  if(prop=="C04"){ for(auto&s:slots) if(!s.move) s.alts={Alt_{}}; std::vector<Ev> e; for(auto&x:v) if(x.et==ET_RENAME||x.assoc) e.push_back(x); v=e; }
  if(prop=="C05"){ for(auto&s:slots) if(s.name!="probe") s.alts={Alt_{}}; std::vector<Ev> e; for(auto&x:v) if(x.path.size()>=6&&x.path.compare(x.path.size()-6,6,"/probe")==0) e.push_back(x); v=e; }
  if(prop=="C07"||losses) for(auto&s:slots) for(auto&a:s.alts) for(auto&x:a.w) x.optional=true;
  std::vector<char> memo((slots.size()+1)*(v.size()+1)+1); best_i=best_j=0; bool kn_=false;
  if(!match(slots,0,v,0,memo,&kn_)){ std::string m="what was delivered is not what the kernel reported"; 
    if(best_i<slots.size()) m+="; kernel: "+slots[best_i].desc; else m+="; kernel: nothing more"; if(best_j<v.size()) m+="; delivered: "+show(v[best_j]); else m+="; delivered: nothing more";
    m+="\n  kernel records:"; for(auto&r:rs) m+=sfmt("\n    [read %d] mask=%x wd=%d cookie=%u ",r.batch,r.mask,r.wd,r.cookie)+q(r.dir_path)+" "+q(r.name); m+="\n  events:"; for(auto&e:events_of(w)) m+="\n    "+show(e); violation(m); }
  if(kn_) known_hit("fanotify-adjacent-halves");
  /* times: not before the process could know, not after the callback */
  if(enf("C03 C06 C14 C16")) for(auto&e:v) if(e.t<1700000000000000000ll||e.t>e.at) violation(sfmt("the effect time %lld is not between the start and the delivery %lld: ",(long long)e.t,(long long)e.at)+show(e));
  size_t ov=0; for(auto&e:msgs_of(w)) if(starts(e.path,"w/")&&e.path.find("overflow")!=std::string::npos) ov++;
  if(ov!=overflow&&enf("C11")) violation(sfmt("the kernel announced %zu losses of events, the watcher passed on %zu",overflow,ov));
}
void check_coverage(std::string const&root,int inst){ InSim g; if(!enf("C05 C08 C11 C13 C03 C06")) return; auto d=env_dirs(root); auto wd=watched_dirs(inst); for(auto&p:d) if(!std::binary_search(wd.begin(),wd.end(),p)) violation("the directory "+q(p)+" is in the tree but is not watched"); if(!unasked().empty()) violation("a change in a watched directory is not among those asked for: "+unasked()[0]); }
void check_resources(){ InSim g; if(!enf("C09 C13 C02 C10 C14 C16 C20")) return; if(prop=="C02"){ if(live_threads()>1) violation("a thread is still running after close(): "+thread_states()); return; } auto r=open_resources(); if(!r.empty()){ std::string m="not given back after close(): "; for(auto&x:r) m+=x+"; "; violation(m); } if(!resource_errors().empty()) violation("descriptor misuse: "+resource_errors()[0]); if(live_threads()>1) violation("a thread is still running after close(): "+thread_states()); }
}
