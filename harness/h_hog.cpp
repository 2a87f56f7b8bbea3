/*  The portable adapter, which compares scans, over the simulated filesystem and a
    virtual clock. */
#define WATER_WATCHER_USE_WARTHOG 1
#include "common.hpp"
#include <errno.h>
#include <map>
#include <set>
using namespace sim; using namespace h;
static constexpr int64_t SCAN=16000000;
/*  The tree as it was after each step: what a scan can have seen. 0: nothing, 1: a file, 2: a directory; the write time. */
struct Ver { int k=0; long m=0; bool operator==(Ver const&o) const { return k==o.k&&(k!=1||m==o.m); } };
using Snap=std::map<std::string,Ver>;
static std::vector<Snap> snaps; static std::set<std::string> ever;
/* Versions [lo,hi] a scan may have sampled; the number of events delivered by its end. */
struct Mark { size_t version; size_t events; };
static std::vector<Mark> marks;
static std::string root="/w";
static int kind(std::string const&p){ return env_isdir(p)?2:1; }
static void snap(){ advance_ns(1000); Snap s; for(auto&p:env_all(root)) if(p!=root) { if(env_isdir(p)) s[p]={2,0}; else { auto m=env_mtime(p); if(m>=0) s[p]={1,m}; } ever.insert(p); } snaps.push_back(s); }
static void mark(){ marks.push_back({snaps.size()-1,fs_events_of(0).size()}); }
/*  Time for a scan to begin and end with nothing else going on. */
static void scans(int n){ for(int i=0;i<n;++i) settle_time(SCAN+2000000); mark(); }
static void diff(Ver const&a,Ver const&b,std::vector<Ev>&out){ auto e=[&](int et,int k){ Ev v; v.et=et; v.pt=k==2?PT_DIR:PT_FILE; out.push_back(v); }; if(a==b) return; if(a.k==b.k){ e(ET_MODIFY,a.k); return; } if(a.k) e(ET_DESTROY,a.k); if(b.k) e(ET_CREATE,b.k); }
/*  For one path: do its events follow from some sequence of samples that respects the marks? */
static bool explains(std::vector<Ver> const&ver,std::vector<std::pair<size_t,Ev>> const&evs,bool free_sampling,bool cut){ /* state: (last sampled version, events used); between marks any samples (if free), at a mark exactly its version */
  std::set<std::pair<size_t,size_t>> cur={{marks[0].version,0}};
  if(!evs.empty()&&evs[0].first<marks[0].events) return false;
  auto step=[&](std::pair<size_t,size_t> s,size_t to,size_t limit,std::set<std::pair<size_t,size_t>>&out){ std::vector<Ev> d; diff(ver[s.first],ver[to],d); size_t u=s.second; for(auto&x:d){ if(u>=limit) return; auto&e=evs[u].second; if(e.et!=x.et||e.pt!=x.pt||e.assoc) return; u++; } out.insert({to,u}); };
  for(size_t k=1;k<marks.size();++k){ size_t limit=0; while(limit<evs.size()&&evs[limit].first<marks[k].events) limit++; std::set<std::pair<size_t,size_t>> reach=cur,work=cur; 
    if(free_sampling) while(!work.empty()){ std::set<std::pair<size_t,size_t>> nx; for(auto&s:work) for(size_t to=s.first+1;to<=marks[k].version;++to) step(s,to,limit,nx); work.clear(); for(auto&s:nx) if(reach.insert(s).second) work.insert(s); }
    std::set<std::pair<size_t,size_t>> out; if(cut&&k+1==marks.size()){ for(auto&s:reach) if(s.second==limit) return true; }
    for(auto&s:reach) step(s,marks[k].version,limit,out); cur.clear(); for(auto&s:out) if(s.second==limit) cur.insert(s); if(cur.empty()) return false; }
  return true; }
static std::string verstr(std::vector<Ver> const&v){ std::string r; for(auto&x:v) r+=x.k==0?"- ":x.k==2?"dir ":"file@"+std::to_string(x.m%1000000000)+" "; return r; }
static void judge(bool free_sampling,bool cut=false){ auto v=fs_events_of(0); std::map<std::string,std::vector<std::pair<size_t,Ev>>> by; for(size_t i=0;i<v.size();++i){ by[v[i].path].push_back({i,v[i]}); if(!ever.count(v[i].path)) violation("an event for a path that never was there: "+show(v[i])); }
  for(auto&p:ever){ std::vector<Ver> ver; for(auto&s:snaps){ auto it=s.find(p); ver.push_back(it==s.end()?Ver{}:it->second); } if(!explains(ver,by[p],free_sampling,cut)){ std::string m=p+" was, step by step: "+verstr(ver)+"; scans were over after steps"; for(auto&k:marks) m+=" "+std::to_string(k.version); m+="; delivered:"; for(auto&e:by[p]) m+=" "+show(e.second)+";"; violation("what was reported is not the difference between scans: "+m); } }
  for(auto&e:msgs_of(0)) if(!starts(e.path,"s/")&&!cut) violation("a message of failure: "+show(e)); }
static std::vector<Op const*> al(){ return ops({"creat n","creat d/n","write f","unlink f","mv f d/f","mv f n","mv f out","mv y in","mv d/h f","mkdir m","mkdir e/k","mkdir m/k","creat m/k/z","mv d D","mv d out","mv d back","mv x in","mv d e","rmdir e","rmdir d/g","creat d/g/z","xchg f d/h","xchg d e","chmod f","cat f","ls d","link f l","append f","unlink d/h","creat out"}); }
static void op_as(Op const*o,bool*ok){ *ok=o->run()==0; observe(o->name); snap(); }
struct H { W w; H(char const*p="/w"):w(0,p,p){ marks.clear(); snaps.clear(); ever.clear(); root=p; snap(); w.open(); settle(); settle_time(3*SCAN); mark(); }
  void end(bool may_fail=false){ int64_t t=now_ns(); bool r=w.close(); if(now_ns()-t>SCAN+2000000) violation(fmt("close() takes %lld ns",(long long)(now_ns()-t))); check_lifecycle(0,root,r,may_fail); if(!may_fail&&!r) violation("close() gave false"); { w.destroy(); } check_resources(); } };
/*  Any number of changes between two scans, any number of scans. */
static void session(int depth){ std_tree(); H h; auto a=al(); for(int i=0;i<depth;++i){ bool ok; op_as(a[pick(a.size(),"op")],&ok); if(!ok) return; if(pick(2,"scan")==0) scans(1); } scans(1); scans(2); judge(false); h.end(); }
/*  The tree starts empty, or becomes so. */
static void empty(int depth){ no_switch(true); env_mkdirs("/w"); env_mkdirs("/o"); if(pick(2,"one")) env_creat("/w/f"); no_switch(false); H h; static std::function<int()> const o[]={[]{return env_creat("/w/f");},[]{return env_unlink("/w/f");},[]{return env_mkdir("/w/d");},[]{return env_rmdir("/w/d");},[]{return env_write("/w/f");},[]{return env_creat("/w/d/g");},[]{return env_unlink("/w/d/g");},[]{return env_mkdir("/w/f");},[]{return env_rmdir("/w/f");}}; for(int i=0;i<depth;++i){ int r=o[pick(9,"op")](); snap(); if(r) return; if(pick(2,"scan")==0) scans(1); } scans(2); judge(false); h.end(); }
/*  Changes while a scan is going on: entries come and go at every point of it. */
static void preempted(int depth){ std_tree(); H h; auto a=ops({"creat d/n","unlink f","mv d/h f","mv d out","mv d D","rmdir d/g","rmdir e","mkdir e/k","write f","unlink d/h","mv f n","creat d/g/z"}); 
  allow_env_preempt(true); for(int i=0;i<depth;++i){ settle_time(SCAN-1000000); /* the scan begins, and is cut short somewhere */ advance_ns(2000000); settle_pre(); bool ok; op_as(a[pick(a.size(),"op")],&ok); if(!ok) return; } allow_env_preempt(false); settle(); settle_time(SCAN+2000000); scans(2); judge(true); h.end(); }
/*  Failing calls during scans. */
static void faulty(){ std_tree(); H h; faults={{"stat",{EACCES,EIO}},{"lstat",{EACCES}},{"opendir",{EACCES,EMFILE}},{"openat",{EACCES,EMFILE,ENFILE}},{"open",{EACCES,EMFILE}},{"readdir",{EIO}}}; auto a=ops({"creat d/n","unlink f","mv d D","write f"}); bool ok; op_as(a[pick(4,"op")],&ok); faults_enable(true); settle_time(SCAN+2000000); faults_enable(false); bool died=false; for(auto&m:msgs_of(0)) died|=starts(m.path,"e/self/die"); if(!died){ scans(2); died=false; for(auto&m:msgs_of(0)) died|=starts(m.path,"e/self/die"); } if(died) mark(); judge(true,died); h.end(died); }
/*  Permission: a directory that cannot be read. */
static void unreadable(){ std_tree(); int w=pick(3,"which"); if(w==0) env_access_none("/w/d"); H h; if(w==1) env_access_none("/w/e"); bool ok; auto a=ops({"creat n","unlink f","rmdir e","mkdir m","write f"}); op_as(a[pick(5,"op")],&ok); scans(2); for(auto&e:fs_events_of(0)) if(e.path.find("/w/d")==0||(w==1&&e.path.find("/w/e/")==0)) violation("an event for an entry that did not change: "+show(e)); size_t n=0; for(auto&e:fs_events_of(0)) n++,(void)e; if(!n) violation("nothing is reported"); h.end(); }
/*  Links, to files, to directories, in circles and to nothing. */
static void links(){ std_tree(); static char const*const t[]={"/w","/w/d","/w/f","/nope","/o/x","/o/y","..",".","s","../d/s"}; int k=pick(10,"target"); if(pick(2,"when")){ env_symlink(t[k],"/w/s"); } H h; env_symlink(t[k],"/w/e/s"); env_symlink(t[(k+1)%10],"/w/d/s"); snap(); scans(1); env_creat("/w/n"); snap(); scans(1); env_unlink("/w/e/s"); snap(); scans(2);
  std::map<std::string,int> n; for(auto&e:fs_events_of(0)){ if(std::count(e.path.begin(),e.path.end(),'/')>5) violation("the scan goes in circles: "+show(e)); n[e.path+"|"+std::to_string(e.et)]++; } for(auto&x:n) if(x.second>1) violation("reported more than once: "+x.first); if(n["/w/n|"+std::to_string(ET_CREATE)]!=1) violation("a file is not reported"); h.end(); }
/*  close() at every moment. */
static void races(){ std_tree(); W w(0,"/w","/w"); w.open(); int n=pick(4,"scans"); yield_point("opened"); if(n){ settle(); settle_time(n*5000000ll); } if(pick(2,"change")){ env_creat("/w/a"); env_unlink("/w/f"); } if(pick(2,"scan")) { settle_time(SCAN-1000000); advance_ns(2000000); settle_pre(); } int64_t t=now_ns(); bool r=w.close(); if(now_ns()-t>SCAN+2000000) violation(fmt("close() takes %lld ns",(long long)(now_ns()-t))); check_lifecycle(0,"/w",r,true); { w.destroy(); } check_resources(); env_creat("/w/late"); settle_time(5*SCAN); }
/*  The watched directory itself goes, or becomes something else. */
static void gone(){ no_switch(true); env_mkdirs("/w/t/s"); env_creat("/w/t/f"); no_switch(false); H h("/w/t"); switch(pick(4,"how")){ case 0: env_rename("/w/t","/o2"); break; case 1: env_unlink("/w/t/f"); env_rmdir("/w/t/s"); env_rmdir("/w/t"); break; case 2: env_rename("/w/t","/o2"); env_creat("/w/t"); break; default: env_rename("/w/t","/o2"); settle_time(4*SCAN); env_mkdir("/w/t"); } settle_time(4*SCAN); bool r=h.w.close(); check_lifecycle(0,"/w/t",r,true); { h.w.destroy(); } check_resources(); }
static void many(){ static int const N[]={1,2,63,64,65,300}; int n=N[pick(6,"number")]; no_switch(true); env_mkdirs("/w/d"); env_mkdirs("/o"); no_switch(false); H h; for(int i=0;i<n;++i) env_creat("/w/d/n"+std::to_string(i)); snap(); scans(1); for(int i=0;i<n;++i) env_write("/w/d/n"+std::to_string(i)); snap(); scans(1); if(pick(2,"how")) env_rename("/w/d","/o/d"); else for(int i=0;i<n;++i) env_unlink("/w/d/n"+std::to_string(i)); snap(); scans(2); judge(false); h.end(); }

int main(int c,char**v){ std::vector<Scenario> s; auto T=[](int q,int t){ return thorough?t:q; }; 
  auto S=[&](char const*n,std::function<void()> f,int q,int t,double w){ s.push_back({"C20",n,[f]{ cfg.root=false; f(); },q,t,w}); };
  S("hog-session",[=]{ session(T(2,3)); },0,0,3); S("hog-empty",[=]{ empty(T(4,5)); },0,0,2); S("hog-preempted",[=]{ preempted(T(1,2)); },1,2,3); S("hog-faulty",faulty,1,2,2); S("hog-unreadable",unreadable,0,0,1); S("hog-links",links,0,0,1); S("hog-races",races,1,2,2); S("hog-gone",gone,0,1,1); S("hog-many",many,0,0,1);
  return explore_main(c,v,s); }
