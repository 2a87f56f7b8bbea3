/*  The native library the addon is given in the real Node.js (compiled twice: as that library, and, with CONTROL,
    as an addon through which the harness decides what it does). */
#include <pthread.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>
#include <string>
#include <vector>
#include <atomic>
#include <wtr/watcher-c.h>
struct Ev { int64_t t; std::string p; bool has; std::string a; int et,pt; };
struct Nat { std::string path; wtr_watcher_callback cb; void*ctx; int closed=0; bool ok=true; std::vector<Ev> late; int sent=0; std::atomic<bool> stop{false}; pthread_t flood; bool flooding=false; };
struct Api { std::vector<Nat*> nats; bool refuse=false,flood=false; int bad=0; };
#ifndef CONTROL
static Api api;
extern "C" Api*mock_api(){ return &api; }
static void say(char const*m){ char const*e=getenv("MOCK_LOG"); if(!e) return; std::string s=std::string(m)+"\n"; if(write(atoi(e),s.data(),s.size())<0) abort(); }
static void call(Nat*n,Ev const&e){ char*p=strdup(e.p.c_str()),*a=e.has?strdup(e.a.c_str()):nullptr; wtr_watcher_event v; v.effect_time=e.t; v.path_name=p; v.associated_path_name=a; v.effect_type=(int8_t)e.et; v.path_type=(int8_t)e.pt; n->sent++; n->cb(v,n->ctx); memset(p,'#',strlen(p)); free(p); if(a){ memset(a,'#',strlen(a)); free(a); } }
struct Job { Nat*n; std::vector<Ev> es; };
static void*run(void*v){ Job*j=(Job*)v; for(auto&e:j->es) call(j->n,e); return nullptr; }
extern "C" void mock_emit(Nat*n,std::vector<Ev> const*es){ Job j{n,*es}; pthread_t t; if(pthread_create(&t,nullptr,run,&j)) abort(); pthread_join(t,nullptr); }
static void*flood(void*v){ Nat*n=(Nat*)v; for(int i=0;!n->stop;++i){ call(n,{i,"/w/flood",i%2==0,"/w/b",i%6,i%5}); if(i%64==0){ timespec t{0,200000}; nanosleep(&t,nullptr); } } return nullptr; }
extern "C" void* wtr_watcher_open(char const*const path,wtr_watcher_callback cb,void*ctx){ if(api.refuse) return nullptr; auto n=new Nat; n->path=path; n->cb=cb; n->ctx=ctx; api.nats.push_back(n); say("open"); if(api.flood){ n->flooding=true; if(pthread_create(&n->flood,nullptr,flood,n)) abort(); } return n; }
extern "C" bool wtr_watcher_close(void*w){ Nat*n=nullptr; for(auto x:api.nats) if(x==w) n=x; if(!n||n->closed){ api.bad++; say(n?"close-twice":"close-unknown"); return false; } n->closed++; say("close"); if(n->flooding){ n->stop=true; pthread_join(n->flood,nullptr); } mock_emit(n,&n->late); say("close-end"); return n->ok; }
#else
#define NAPI_VERSION 8
#include <node_api.h>
extern "C" Api*mock_api(); extern "C" void mock_emit(Nat*,std::vector<Ev> const*);
static int64_t I(napi_env e,napi_value v){ int64_t r=0; napi_get_value_int64(e,v,&r); return r; }
static int64_t B(napi_env e,napi_value v){ int64_t r=0; bool l; napi_get_value_bigint_int64(e,v,&r,&l); return r; }
static std::string S(napi_env e,napi_value v){ void*p=nullptr; size_t n=0; if(napi_get_buffer_info(e,v,&p,&n)!=napi_ok) return ""; return std::string((char*)p,n); }
static bool isnull(napi_env e,napi_value v){ napi_valuetype t; napi_typeof(e,v,&t); return t==napi_null; }
static napi_value N(napi_env e,double d){ napi_value r; napi_create_double(e,d,&r); return r; }
#define F(name,k) static napi_value name(napi_env e,napi_callback_info i){ size_t c=k+1; napi_value a[k+1]; napi_get_cb_info(e,i,&c,a,nullptr,nullptr); Api*m=mock_api(); (void)a; (void)m;
static Ev E(napi_env e,napi_value*a){ Ev x; x.t=B(e,a[0]); x.p=S(e,a[1]); x.has=!isnull(e,a[2]); x.a=x.has?S(e,a[2]):""; x.et=(int)I(e,a[3]); x.pt=(int)I(e,a[4]); return x; }
F(count,0) return N(e,m->nats.size()); }
F(emit,7) std::vector<Ev> v((size_t)I(e,a[6]),E(e,a+1)); for(size_t k=0;k<v.size();++k) v[k].t+=k; mock_emit(m->nats[I(e,a[0])],&v); return nullptr; }
F(late,6) m->nats[I(e,a[0])]->late.push_back(E(e,a+1)); return nullptr; }
F(set_ok,2) m->nats[I(e,a[0])]->ok=I(e,a[1])!=0; return nullptr; }
F(closed,1) return N(e,m->nats[I(e,a[0])]->closed); }
F(bad,0) return N(e,m->bad); }
F(refuse,1) m->refuse=I(e,a[0])!=0; return nullptr; }
F(flood,1) m->flood=I(e,a[0])!=0; return nullptr; }
F(path,1) napi_value r; auto&p=m->nats[I(e,a[0])]->path; void*d; napi_create_buffer_copy(e,p.size(),p.data(),&d,&r); return r; }
static napi_value init(napi_env e,napi_value x){ struct { char const*n; napi_callback f; } t[]={{"count",count},{"emit",emit},{"late",late},{"setOk",set_ok},{"closed",closed},{"bad",bad},{"refuse",refuse},{"flood",flood},{"path",path}}; for(auto&y:t){ napi_value f; napi_create_function(e,y.n,NAPI_AUTO_LENGTH,y.f,nullptr,&f); napi_set_named_property(e,x,y.n,f); } return x; }
NAPI_MODULE(node_mock,init)
#endif
