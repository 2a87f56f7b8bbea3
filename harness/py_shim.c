/*  The native library the Python wrapper is given: open and close are decided by the harness, or, for whole
    programs, by the environment; callbacks run on a thread of their own with memory which is gone afterwards. */
#define _GNU_SOURCE
#include <pthread.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
struct ev { int64_t t; char const*p,*a; int8_t et,pt; };
typedef void (*cb_t)(struct ev,void*);
static void* (*on_open)(char const*,cb_t,void*); static bool (*on_close)(void*);
void mock_set(void*(*o)(char const*,cb_t,void*),bool(*c)(void*)){ on_open=o; on_close=c; }
struct em { cb_t cb; void*ctx; struct ev e; };
static char*dup_tight(char const*s){ if(!s) return NULL; size_t n=strlen(s)+1; char*r=malloc(n); memcpy(r,s,n); return r; }
static void*run(void*v){ struct em*m=v; m->cb(m->e,m->ctx); return NULL; }
/*  As the real library: the strings live until the callback returns. */
void mock_emit(cb_t cb,void*ctx,int64_t t,char const*p,char const*a,int et,int pt){ struct em m={cb,ctx,{t,dup_tight(p),dup_tight(a),(int8_t)et,(int8_t)pt}}; pthread_t th; if(pthread_create(&th,NULL,run,&m)) abort(); pthread_join(th,NULL); char*f[2]={(char*)m.e.p,(char*)m.e.a}; for(int i=0;i<2;++i) if(f[i]){ memset(f[i],'#',strlen(f[i])); free(f[i]); } }
/*  For whole programs. */
static void say(char const*m){ char const*e=getenv("MOCK_LOG"); int fd=e?atoi(e):2; char b[4200]; int n=snprintf(b,sizeof b,"%s\n",m); if(write(fd,b,n)!=n) abort(); }
struct prog { cb_t cb; void*ctx; char path[4096]; int n; bool closed; };
static struct prog*all[16]; static int nall;
static char const*const names[]={"plain","quote\"quote","back\\slash","new\nline","tab\t","\x01\x1f\x7f","\xff\xfe","\xc3\xa9\xe2\x82\xac","\xf0\x9f\x90\x8d","\xed\xa0\x80","{\"a\":1}","'","$","\xc3"};
void* wtr_watcher_open(char const*path,cb_t cb,void*ctx){ if(on_open) return on_open(path,cb,ctx); if(strstr(path,"/unopenable")) return NULL; struct prog*p=calloc(1,sizeof *p); p->cb=cb; p->ctx=ctx; strncpy(p->path,path,sizeof p->path-1); all[nall++]=p; say("open"); char b[8400]; snprintf(b,sizeof b,"s/self/live@%s",path); mock_emit(cb,ctx,1,b,NULL,2,4);
  if(getenv("MOCK_NAMES")) for(int et=0;et<6;++et) for(int pt=0;pt<6;++pt) for(size_t i=0;i<sizeof names/sizeof*names;++i) for(int a=0;a<2;++a) mock_emit(cb,ctx,1000000000000000000ll+et*100000+pt*10000+i*10+a,names[i],a?names[(i+3)%(sizeof names/sizeof*names)]:NULL,et,pt); return p; }
bool wtr_watcher_close(void*w){ if(on_close) return on_close(w); struct prog*p=w; bool known=false; for(int i=0;i<nall;++i) known|=all[i]==p; if(!known){ say("close-unknown"); return false; } if(p->closed){ say("close-twice"); return false; } p->closed=true; say("close-begin"); char b[8400]; snprintf(b,sizeof b,"s/self/die@%s",p->path); mock_emit(p->cb,p->ctx,2,b,NULL,3,4); say("close-end"); return !strstr(p->path,"/unclosable"); }
