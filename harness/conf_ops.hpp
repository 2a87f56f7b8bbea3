/*  Operations on a tree, on the real filesystem (-DREAL) or on the simulated one. */
#pragma once
#include <sys/inotify.h>
#include <sys/fanotify.h>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <functional>
#include <map>
#include <string>
#include <vector>
#ifndef REAL
#include "../lib/sim.h"
using namespace sim;
#endif
using S=std::string;
static bool fan, thor, burst; static S base; /* where the tree is */
static S fmt(char const*f,...){ char b[4096]; va_list a; va_start(a,f); vsnprintf(b,sizeof b,f,a); va_end(a); return b; }
static S P(S const&p){ return base+"/"+p; }

#ifdef REAL
static int rc(int r){ return r<0?errno:0; }
static std::vector<int> kept;
static int do_creat(S p){ int f=open(P(p).c_str(),O_CREAT|O_EXCL|O_WRONLY,0600); if(f<0) return errno; close(f); return 0; }
static int do_mkdir(S p){ return rc(mkdir(P(p).c_str(),0700)); }
static int do_rmdir(S p){ return rc(rmdir(P(p).c_str())); }
static int do_write(S p,bool){ int f=open(P(p).c_str(),O_WRONLY|O_APPEND|O_NONBLOCK); if(f<0) return errno; if(write(f,"x",1)<0){} close(f); return 0; }
static int do_unlink(S p){ return rc(unlink(P(p).c_str())); }
static int do_rename(S a,S b){ return rc(rename(P(a).c_str(),P(b).c_str())); }
static int do_exchange(S a,S b){ return rc(syscall(SYS_renameat2,AT_FDCWD,P(a).c_str(),AT_FDCWD,P(b).c_str(),2)); }
static int do_link(S a,S b){ return rc(link(P(a).c_str(),P(b).c_str())); }
static int do_symlink(S a,S b){ return rc(symlink(P(a).c_str(),P(b).c_str())); }
static int do_mkfifo(S p){ return rc(mkfifo(P(p).c_str(),0600)); }
static int do_chmod(S p){ return rc(chmod(P(p).c_str(),0711)); }
static int do_readfile(S p){ int f=open(P(p).c_str(),O_RDONLY); if(f<0) return errno; char b[8]; if(read(f,b,8)<0){ int e=errno; close(f); return e; } close(f); return 0; }
static int do_list(S p){ DIR*d=opendir(P(p).c_str()); if(!d) return errno; while(readdir(d)); closedir(d); return 0; }
static int do_hold(S p){ int f=open(P(p).c_str(),O_RDONLY|O_NONBLOCK); if(f<0) return errno; kept.push_back(f); return 0; }
static int do_release(){ if(kept.empty()) return ENOENT; for(int f:kept) close(f); kept.clear(); return 0; }
#else
static int nkept;
static int do_creat(S p){ return env_creat(P(p)); }
static int do_mkdir(S p){ return env_mkdir(P(p)); }
static int do_rmdir(S p){ return env_rmdir(P(p)); }
static int do_write(S p,bool){ return env_write(P(p)); }
static int do_unlink(S p){ return env_unlink(P(p)); }
static int do_rename(S a,S b){ return env_rename(P(a),P(b)); }
static int do_exchange(S a,S b){ return env_exchange(P(a),P(b)); }
static int do_link(S a,S b){ return env_link(P(a),P(b)); }
static int do_symlink(S a,S b){ return env_symlink(P(a),P(b)); }
static int do_mkfifo(S p){ return env_mkfifo(P(p)); }
static int do_chmod(S p){ return env_chmod(P(p)); }
static int do_readfile(S p){ return env_readfile(P(p)); }
static int do_list(S p){ return env_listdir(P(p)); }
static int do_hold(S p){ int r=env_hold(P(p)); if(!r) nkept++; return r; }
static int do_release(){ if(!nkept) return ENOENT; nkept=0; return env_release(""); }
#endif

struct Op { S name; std::function<int()> run; };
template<class F> static std::vector<Op> alphabet(F more){ std::vector<Op> o; auto A=[&](S n,std::function<int()> f){ o.push_back({n,f}); };
  auto MK=[&](S p){ A("mkdir "+p,[=]{ return do_mkdir(p); }); }; auto RM=[&](S p){ A("rmdir "+p,[=]{ return do_rmdir(p); }); }; auto CR=[&](S p){ A("creat "+p,[=]{ return do_creat(p); }); };
  auto WR=[&](S p){ A("write "+p,[=]{ return do_write(p,true); }); }; auto UN=[&](S p){ A("unlink "+p,[=]{ return do_unlink(p); }); }; auto MV=[&](S a,S b){ A("rename "+a+" "+b,[=]{ return do_rename(a,b); }); };
  auto EX=[&](S a,S b){ A("exchange "+a+" "+b,[=]{ return do_exchange(a,b); }); };
  more(A,false);
  MK("w/n"); RM("w/e"); CR("w/a"); WR("w/f"); UN("w/f"); MV("w/f","w/b"); MV("w/f","w/d/h"); MV("w/d","w/e"); MV("w/e","o/e"); MV("o/x","w/x"); MV("w/f","o/f"); MV("o/y","w/y"); EX("w/f","w/d/h"); WR("w/a"); UN("w/a"); RM("w/n"); MV("w/a","w/f"); MV("w/n","w/e"); MV("w/d/g","w/g2");
  if(thor){ MK("w/d/n"); RM("w/d/g"); CR("w/d/a"); WR("w/d/h"); UN("w/d/h"); MV("w/f","w/d/b"); MV("w/d/h","w/b"); MV("w/d/g","w/e"); MV("w/e","w/d/g"); MV("w/d","o/d"); MV("o/y","w/f"); MV("w/d","w/n"); EX("w/d","w/e"); EX("w/e","o/y"); EX("w/f","w/e"); EX("o/x","w/e");
    A("link w/f w/d/l",[]{ return do_link("w/f","w/d/l"); }); WR("w/d/l"); A("link o/y w/y2",[]{ return do_link("o/y","w/y2"); }); WR("o/y"); UN("w/y2"); WR("w/y2"); A("symlink w/f w/s",[]{ return do_symlink("w/f","w/s"); }); A("mkfifo w/p",[]{ return do_mkfifo("w/p"); });
    A("chmod w/f",[]{ return do_chmod("w/f"); }); A("chmod w/d",[]{ return do_chmod("w/d"); }); A("cat w/f",[]{ return do_readfile("w/f"); }); A("list w/d",[]{ return do_list("w/d"); }); A("hold w/e",[]{ return do_hold("w/e"); }); A("hold w/f",[]{ return do_hold("w/f"); }); A("release",[]{ return do_release(); });
    more(A,true); RM("w/d"); }
  return o; }

static void tree(){ do_mkdir("w"); do_mkdir("w/d"); do_mkdir("w/d/g"); do_mkdir("w/e"); do_mkdir("o"); do_mkdir("o/x"); do_mkdir("o/x/s"); do_creat("w/f"); do_creat("w/d/h"); do_creat("o/y"); }
#ifdef REAL
#include <ftw.h>
static int rmone(char const*p,const struct stat*,int,struct FTW*){ remove(p); return 0; }
static void clear_tree(){ for(int f:kept) close(f); kept.clear(); nftw(base.c_str(),rmone,16,FTW_DEPTH|FTW_PHYS); }
/*  main <in|fan> <thorough> <depth> <scratch> <share> <of>: lines to stdout. */
template<class R> static int real_main(int c,char**v,std::vector<Op> (*make)(),R run){ if(c<7) return 2; fan=S(v[1])=="fan"; burst=getenv("CONF_BURST")!=nullptr; thor=atoi(v[2]); int depth=atoi(v[3]); S top=S(v[4])+"/conf"+fmt("%d",getpid()); int share=atoi(v[5]),of=atoi(v[6]); auto ops=make(); int serial=0; mkdir(top.c_str(),0700); bool usable=true;
  std::function<void(std::vector<int>)> go=[&](std::vector<int> seq){ if(!usable) return; base=top+"/"+fmt("%d",serial++); mkdir(base.c_str(),0700); bool ok; S l=run(seq,ops,ok); clear_tree(); puts(l.c_str()); if(l.rfind("unusable",0)==0){ usable=false; return; } if(!ok) return;
    if((int)seq.size()<depth) for(int k=0;k<(int)ops.size();++k){ if(seq.size()==1&&(seq[0]*7+k)%of!=share) continue; auto s=seq; s.push_back(k); go(s); } };
  go({}); rmdir(top.c_str()); return 0; }
#else
static long raw(long n,long a,long b,long c){ long r; __asm__ volatile("syscall":"=a"(r):"a"(n),"D"(a),"S"(b),"d"(c):"rcx","r11","memory"); return r; }
static void put_line(S l){ static char const*path=getenv("CONF_OUT"); if(path){ l+="\n"; long f=raw(SYS_open,(long)path,O_WRONLY|O_APPEND|O_CREAT,0600); raw(SYS_write,f,(long)l.data(),l.size()); raw(SYS_close,f,0,0); } observe(l); }
template<class R> static int sim_main(int c,char**v,std::vector<Op> (*make)(),R run){ fan=getenv("CONF_FAN")!=nullptr; thor=getenv("CONF_THOROUGH")!=nullptr; burst=getenv("CONF_BURST")!=nullptr; int bd=getenv("CONF_BOUND")?atoi(getenv("CONF_BOUND")):0; int d=getenv("CONF_DEPTH")?atoi(getenv("CONF_DEPTH")):2; std::vector<Scenario> s;
  s.push_back({"","conf",[=]{ cfg.root=true; nkept=0; auto ops=make(); std::vector<int> seq; int n=pick(d+1,"length"); for(int i=0;i<n;++i) seq.push_back(pick(ops.size(),"op")); bool ok; S l=run(seq,ops,ok);
    if(!ok){ /* not possible before the end: said by the shorter one */ size_t k=0,p=0; S nm=l.substr(0,l.find("=>")); while((p=nm.find("; ",p))!=S::npos){ k++; p+=2; } if((int)k<n) return; } put_line(l); },bd,bd,1}); return explore_main(c,v,s); }
#endif
