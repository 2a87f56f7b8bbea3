/*  The command line program over the real watcher and the simulated kernel, and a
    virtual clock. */
#include "common.hpp"
#include "json.hpp"
#include <errno.h>
#include <thread>
using namespace sim; using namespace h;
int cut_main(int,char const* const* const);
#include "cli_line.hpp"
/*  One run of the program. */
struct Cli { std::vector<std::string> args; std::vector<char const*> av; std::thread t; bool done=false; int rc=-1; int64_t t0=0,t1=0;
  void start(std::vector<std::string> const&a){ args=a; args.insert(args.begin(),"wtr.watcher"); for(auto&x:args) av.push_back(x.c_str()); av.push_back(nullptr); capture_output=true; on_line=[](int fd,std::string const&l){ if(fd==1&&!l.empty()&&l[0]=='{') rec_event(event_of(l)); };
    t0=now_ns(); t=std::thread([this]{ rc=cut_main((int)args.size(),av.data()); out_end(); t1=now_ns(); done=true; }); }
  void join(){ if(!done) violation("the program does not end; "+thread_states()); t.join(); observe("exit "+std::to_string(rc)); } };
static std::string joined(std::vector<std::string> const&a){ std::string r; for(auto&x:a) r+="'"+(x.size()>60?x.substr(0,60)+"...":x)+"' "; return r; }
static void whole_lines(){ auto&o=out_capture(1); if(!o.empty()&&o.back()!='\n') violation("the output does not end with a whole line: "+json_::printable(o)); size_t n=0; for(char c:o) n+=c=='\n'; if(n!=events().size()) violation(fmt("%zu lines, but %zu events: ",n,events().size())+json_::printable(o)); }
static void is_help(Cli&c,bool asked){ c.join(); auto&o=out_capture(1),&e=out_capture(2); auto&to=asked?o:e; auto&no=asked?e:o; if(to.find("wtr.watcher")==std::string::npos||to.find("-seconds")==std::string::npos||to.find("PATH")==std::string::npos) violation("no help for "+joined(c.args)+(asked?"on standard output: ":"on standard error: ")+json_::printable(o+e)); if(!no.empty()) violation("something is printed where help is not: "+json_::printable(no)); if(c.rc!=(asked?0:1)) violation(fmt("exit status %d with help for ",c.rc)+joined(c.args)); if(!instances().empty()) violation("something was watched"); }
/*  Messages, events and exit status of a program that watched. */
static void judge(Cli&c,std::string const&abs,bool may_fail,std::string const&root,bool delivery){ c.join(); rec_closed(0); if(!out_capture(2).empty()) violation("something is printed on standard error: "+json_::printable(out_capture(2))); whole_lines(); if(c.rc!=0&&c.rc!=1) violation(fmt("exit status %d",c.rc)); check_lifecycle(0,abs,c.rc==0,may_fail); if(!may_fail&&c.rc) violation("exit status 1 although nothing failed"); auto v=events_of(0); int i=v.empty()?-1:inst_of_thread(v[0].thread); if(delivery&&i>=0&&!root.empty()) check_delivery(0,i,root); check_resources(); }
static void tree(){ cfg.fan_merge=false; std_tree(); no_switch(true); env_mkdirs("/cwd/sub"); env_creat("/cwd/q"); env_symlink("/w/d","/lnk"); env_mkdirs("/sp \"ace\\\n/\xc3\xa4\xff"); no_switch(false); cfg.cwd="/cwd"; }

/*  How the path can be given, as what it is watched, what it is. */
struct PK { char const*arg,*abs,*real; bool exists; };
static std::string longp(int n){ std::string s; while((int)s.size()<n) s+="/x"; return s; }
static std::vector<PK> const& pks(){ static std::string l4095=longp(4094),l5000=longp(5000),l256="/"+std::string(256,'n'); static std::vector<PK> v={{nullptr,"/cwd","/cwd",true},{"/w","/w","/w",true},{"sub","/cwd/sub","/cwd/sub",true},{".","/cwd/.","/cwd",true},{"/sp \"ace\\\n/\xc3\xa4\xff","/sp \"ace\\\n/\xc3\xa4\xff","/sp \"ace\\\n/\xc3\xa4\xff",true},{"/lnk/..","/lnk/..","/w",true},{"/lnk","/lnk","/w/d",true},{"sub/../../w//","/cwd/sub/../../w//","/w",true},{"/w/f","/w/f","",true},{"/nope","","",false},{"","","",false},{"/w/f/x","","",false},{"-s","","",false},{"help","","",false},{l4095.c_str(),"","",false},{l5000.c_str(),"","",false},{l256.c_str(),"","",false}}; return v; }
struct U { char const*s; long double ns; };
static U const us[]={{"-nanoseconds",1},{"-ns",1},{"-microseconds",1e3},{"-us",1e3},{"-milliseconds",1e6},{"-ms",1e6},{"-seconds",1e9},{"-s",1e9},{"-minutes",60e9},{"-m",60e9},{"-hours",3600e9},{"-h",3600e9},{"-days",86400e9},{"-d",86400e9},{"-weeks",7*86400e9},{"-w",7*86400e9},{"-months",30*86400e9},{"-mts",30*86400e9},{"-years",365*86400e9},{"-y",365*86400e9}};
static void end_input(){ switch(pick(5,"input")){ case 3: stdin_feed("x",false); break; case 4: stdin_feed(std::string(1,0),false); break; case 0: stdin_feed("\n",false); break; case 1: stdin_feed("",true); break; default: stdin_feed("\n\n",true); } }
static void until_input(Cli&c,PK const&k,bool live){ settle(); settle_time(400ll*86400*1000000000); if(c.done) violation("the program ends before there is any input"); if(live){ size_t n=out_capture(1).size(); env_creat(std::string(k.real)+"/new"); settle(); if(out_capture(1).size()==n) violation("a change is not printed"); } end_input(); settle(); judge(c,k.abs,!live,k.real,live); }
static void paths(){ tree(); auto&k=pks()[pick(pks().size(),"path")]; std::vector<std::string> a; if(k.arg) a.push_back(k.arg); auto&c=*new Cli; c.start(a); if(!k.exists){ settle(); is_help(c,false); return; } until_input(c,k,k.real[0]); }
static void help(){ tree(); std::vector<std::string> a={pick(2,"spelling")?"-h":"--help"}; int n=pick(4,"more"); static char const*const more[]={"/w","-s","5"}; for(int i=0;i<n;++i) a.push_back(more[i]); if(pick(2,"input")) stdin_feed("\n",true); auto&c=*new Cli; c.start(a); settle(); is_help(c,true); }
/*  A time that is given: the program ends then, not before, whatever the input is. */
static void timed(Cli&c,PK const&k,long double d,bool live){ bool huge=d>8e18L; settle(); if(c.done&&d>2e6) violation("the program ends at once"); if(live){ size_t n=out_capture(1).size(); env_creat(std::string(k.real)+"/new"); settle(); if(!c.done&&out_capture(1).size()==n) violation("a change is not printed"); }
  if(huge){ settle_time(86400ll*36500*1000000000ll); if(c.done) violation("the program ends before its time: "+joined(c.args)); return; /* it goes on for longer than the clock */ }
  int64_t dn=(int64_t)d; if(dn>2000000){ settle_time(c.t0+dn-1000000-now_ns()); if(c.done) violation(fmt("the program ends %lld ns after its start, too early: ",(long long)(c.t1-c.t0))+joined(c.args)); if(live){ size_t n=out_capture(1).size(); env_creat(std::string(k.real)+"/last"); settle(); if(!c.done&&out_capture(1).size()==n) violation("a change is not printed"); } }
  settle_time(4000000); if(!c.done) violation("the program does not end when its time is over: "+joined(c.args)+thread_states()); judge(c,k.abs,!live||dn<2000000,k.real,live); }
static void units(){ tree(); auto&u=us[pick(20,"unit")]; static struct { char const*s; long double v; } const ns[]={{"1",1},{"2",2},{"3",3},{"7",7},{"10",10},{"59",59},{"60",60},{"100",100},{"999",999},{"1000",1000},{"65536",65536},{"2147483647",2147483647},{"2147483648",2147483648.L},{"4294967295",4294967295.L},{"4294967296",4294967296.L},{"9007199254740993",9007199254740992.L},{"9223372036854775807",9223372036854775807.L},{"9223372036854775808",9223372036854775808.L},{"18446744073709551614",18446744073709551614.L}}; auto&n=ns[pick(19,"number")]; int in=pick(3,"input"); if(in==1) stdin_feed("\n",false); if(in==2) stdin_feed("",true);
  PK k=pks()[1]; auto&c=*new Cli; c.start({k.arg,u.s,n.s}); timed(c,k,u.ns*n.v,true); }
static void timed_paths(){ tree(); auto&k=pks()[pick(pks().size()-1,"path")+1]; int u=pick(20,"unit"); int64_t n=pick(2,"number")?3:20; auto&c=*new Cli; std::vector<std::string> a={k.arg,us[u].s,std::to_string(n)}; if(pick(2,"more")) a.push_back("/o"); c.start(a); if(!k.exists){ settle(); is_help(c,false); return; } timed(c,k,us[u].ns*n,k.real[0]); }
/*  Argument lists of any other kind: one of the two, help or a program that watches and ends, and nothing worse. */
static void others(){ tree(); static char const*const w[]={"-s","-x","--","-","5","0","-1","-0","0.5","1.5","5x","abc","","nan","-nan","inf","1e9","1e300","1e-300","0x10","+5"," 5","-ms","-h","--help","/w","99999999999999999999999999999"}; int W=sizeof w/sizeof*w; std::vector<std::string> a={"/w"}; int k=pick(3,"how many")+1; for(int i=0;i<k;++i) a.push_back(w[pick(i==2?3:W,"word")]); auto&c=*new Cli; c.start(a); settle(); if(!c.done) { stdin_feed("",true); settle(); } if(!c.done) settle_time(100ll*365*86400*1000000000); if(!c.done) return; auto&e=out_capture(2); if(!e.empty()) is_help(c,false); else judge(c,"/w",true,"/w",false); }
static std::vector<Op const*> al(){ return ops({"creat n","creat d/n","write f","unlink f","mv f d/f","mv f out","mv y in","mv d D","mv x in","mkdir m","rmdir e","link f l","symlink","xchg f d/h","chmod f","mv f n"}); }
static void session(bool fan,int depth){ cfg.root=fan; tree(); auto&c=*new Cli; bool timed=pick(2,"timed"); if(timed) c.start({"/w","-s","5"}); else c.start({"/w"}); settle(); if(!history(al(),depth,CHOICE)){ return; } settle(); probe("/w","/o"); settle(); if(timed){ if(c.done) violation("the program ends early"); settle_time(6000000000ll); } else end_input(); settle(); judge(c,"/w",false,"/w",true); }
/*  Names of all kinds in the events. */
static void names(bool fan){ cfg.root=fan; tree(); int b=pick(255,"byte")+1; if(b=='/') return; std::string n=pick(2,"where")?std::string(1,char(b)):"a"+std::string(1,char(b))+"\""+std::string(1,char(b)); if(n==".") return; auto&c=*new Cli; c.start({"/w"}); settle(); env_creat("/w/"+n); env_mkdir("/w/d/"+n); settle(); env_creat("/w/d/"+n+"/"+n); env_rename("/w/"+n,"/w/e/"+n); settle(); end_input(); settle(); judge(c,"/w",false,"/w",true); }
/*  All schedules of a change, the end of input, and the start. */
static void races(bool fan){ cfg.root=fan; tree(); if(pick(2,"input first")) end_input(); auto&c=*new Cli; c.start({"/w"}); yield_point("started"); env_creat("/w/a"); env_creat("/w/d/b"); end_input(); settle(); judge(c,"/w",true,"/w",true); if(events_of(0).size()>=2&&starts(events_of(0)[0].path,"s/")&&c.rc) violation("exit status 1 of a watcher that closed well"); }
/*  Failures: the exit status tells of them. */
static void failing(bool fan){ cfg.root=fan; tree(); faults={{"getcwd",{ENOENT,EACCES}},{"inotify_init",{EMFILE,ENFILE,ENOMEM}},{"eventfd",{EMFILE,ENFILE}},{"epoll_create",{EMFILE}},{"epoll_ctl",{ENOMEM,ENOSPC}},{"stat",{EACCES,ELOOP,ENAMETOOLONG,EIO}},{"fanotify_init",{EMFILE}}}; faults_enable(true); auto&c=*new Cli; std::vector<std::string> a; int p=pick(3,"path"); if(p) a.push_back(p==1?"/w":"sub"); c.start(a); settle(); faults_enable(false); end_input(); settle(); if(!out_capture(2).empty()){ is_help(c,false); return; } bool nocwd=false; for(auto&l:fault_log()) nocwd|=l.find("getcwd")!=std::string::npos; judge(c,p==0?"/cwd":p==1?"/w":nocwd?"sub":"/cwd/sub",true,p==0?"/cwd":p==1?"/w":"/cwd/sub",false); if(c.rc==0&&!starts(msgs_of(0).back().path,"s/self/die@")) violation("exit status 0 of a watcher that failed"); }

#ifdef __SANITIZE_ADDRESS__
constexpr bool ASAN=true;
#else
constexpr bool ASAN=false;
#endif
int main(int c,char**v){ std::vector<Scenario> s; auto T=[](int q,int t){ return thorough?t:q; };
  s.push_back({"C16","cli-paths",paths,0,1,1}); s.push_back({"C16","cli-help",help,0,0,1}); s.push_back({"C16","cli-units",units,0,0,2}); s.push_back({"C16","cli-timed-paths",timed_paths,0,0,1}); s.push_back({"C16","cli-others",others,0,0,3});
  for(int f=0;f<2;++f){ bool fan=f; std::string A=fan?"fanotify.":"inotify."; s.push_back({"C16",A+"cli-session",[=]{ session(fan,ASAN?T(2,3):3); },0,1,3}); s.push_back({"C16",A+"cli-names",[=]{ names(fan); },0,0,1}); s.push_back({"C16",A+"cli-races",[=]{ races(fan); },2,3,2}); s.push_back({"C16",A+"cli-failing",[=]{ failing(fan); },1,2,1}); }
  return explore_main(c,v,s); }
