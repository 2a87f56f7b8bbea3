/*  The Node.js addon, as it is, over a Node-API of our own which checks its rules, and a native watcher which does
    what the harness says. The scenario is the JavaScript thread. */
#include "../lib/sim.h"
#include <wtr/watcher-c.h>
#define NAPI_VERSION 8
#include <node_api.h>
#include <condition_variable>
#include <deque>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <thread>
using namespace sim;
static std::string fmt(char const*f,...){ char b[2048]; va_list a; va_start(a,f); vsnprintf(b,sizeof b,f,a); va_end(a); return b; }
extern "C" napi_value napi_register_module_v1(napi_env,napi_value);

/* ---- memory of the addon: what it took and did not give back (with AddressSanitizer only) ---- */
extern "C" int __sanitizer_install_malloc_and_free_hooks(void(*)(volatile void const*,size_t),void(*)(volatile void const*)) __attribute__((weak));
static int depth_in[64]; static void volatile const*held[1<<16]; static size_t nheld; static bool tracking;
static bool inside(){ return depth_in[self_id()&63]>0; }
static void on_malloc(volatile void const*p,size_t){ if(tracking&&inside()&&nheld<sizeof held/sizeof*held) held[nheld++]=p; }
static void on_free(volatile void const*p){ if(tracking) for(size_t i=nheld;i-->0;) if(held[i]==p){ held[i]=held[--nheld]; return; } }
struct In { int*d; In():d(&depth_in[self_id()&63]){ ++*d; } ~In(){ --*d; } };
struct Out { int*d; int was; Out():d(&depth_in[self_id()&63]),was(*d){ *d=0; } ~Out(){ *d=was; } };

/* ---- values ---- */
struct Fin { napi_finalize f; void*data,*hint; };
struct Val { enum K { Undef,Null,Bool,Num,Str,Obj,Fun } k=Undef; double n=0; std::string s; std::map<std::string,Val*> props; napi_callback cb=nullptr; void*data=nullptr; std::vector<Fin> fins; bool gone=false; std::function<void(Val*)> js; void*wrap=nullptr; bool wrapped=false; };
struct Handle { Val*v; int scope; bool dead=false; };
struct napi_env__ { bool over=false; };
struct napi_ref__ { Val*v; uint32_t n; bool deleted=false; };
struct napi_callback_info__ { std::vector<Val*> args; Val*self; void*data; };
struct Ts { napi_threadsafe_function_call_js call; napi_finalize fin; void*fdata,*ctx; Val*cb; size_t max; long threads; std::deque<void*> q; bool closing=false,finalized=false,deleted=false; };
struct Hook { void(*f)(void*); void*a; Ts*ts; };
static napi_env__ the_env; static std::vector<std::unique_ptr<Val>> vals; static std::vector<std::unique_ptr<Handle>> handles; static std::vector<std::unique_ptr<napi_ref__>> refs; static std::vector<std::unique_ptr<Ts>> tss; static std::vector<Hook> hooks; static int scope_now; static std::vector<int> scopes; static bool pending; static std::string pending_msg; static int js_thread; static std::string armed; static bool faulty;
static Val*mk(Val::K k){ vals.push_back(std::make_unique<Val>()); vals.back()->k=k; return vals.back().get(); }
static napi_value hv(Val*v){ handles.push_back(std::make_unique<Handle>(Handle{v,scopes.empty()?0:scopes.back()})); return (napi_value)handles.back().get(); }
static void open_scope(){ scopes.push_back(++scope_now); }
static void close_scope(){ int s=scopes.back(); scopes.pop_back(); for(auto&h:handles) if(h->scope==s) h->dead=true; }
static Val*val(napi_value h,char const*f){ for(auto it=handles.rbegin();it!=handles.rend();++it) if((napi_value)it->get()==h){ if((*it)->dead) violation(std::string(f)+": a value is used outside the scope it lives in"); return (*it)->v; } violation(std::string(f)+": this is no value"); }
static bool on_js(char const*f){ if(self_id()!=js_thread) violation(std::string(f)+" is called on a thread which is not JavaScript's"); return true; }
/*  These fail only if they are called in the wrong way. */
static bool can_fail(std::string const&f){ return f!="napi_get_cb_info"&&f!="napi_typeof"&&f!="napi_get_boolean"&&f!="napi_get_null"&&f!="napi_get_undefined"&&f!="napi_get_global"&&f!="napi_is_exception_pending"; }
#define API(f) Out out__; on_js(#f); if(!env) return napi_invalid_arg; if(env!=&the_env) violation(#f ": this is no environment"); if(the_env.over) violation(#f " is called after the environment is gone"); if(faulty&&can_fail(#f)&&deviate(2,#f " fails")){ armed=#f; return napi_generic_failure; }
#define ARG(x) if(!(x)) return napi_invalid_arg;
#define PEND if(pending) return napi_pending_exception;
extern "C" {
napi_status napi_create_object(napi_env env,napi_value*r){ API(napi_create_object) ARG(r) *r=hv(mk(Val::Obj)); return napi_ok; }
static napi_status num(double d,napi_value*r){ ARG(r) auto v=mk(Val::Num); v->n=d; *r=hv(v); return napi_ok; }
napi_status napi_create_int64(napi_env env,int64_t x,napi_value*r){ API(napi_create_int64) return num((double)x,r); }
napi_status napi_create_int32(napi_env env,int32_t x,napi_value*r){ API(napi_create_int32) return num(x,r); }
napi_status napi_create_uint32(napi_env env,uint32_t x,napi_value*r){ API(napi_create_uint32) return num(x,r); }
napi_status napi_create_double(napi_env env,double x,napi_value*r){ API(napi_create_double) return num(x,r); }
static napi_status str(char const*s,size_t n,napi_value*r){ ARG(r) if(!s){ ARG(n==0) s=""; } else ARG(n==NAPI_AUTO_LENGTH||n<=INT32_MAX) auto v=mk(Val::Str); v->s=n==NAPI_AUTO_LENGTH?std::string(s):std::string(s,n); *r=hv(v); return napi_ok; }
napi_status napi_create_string_utf8(napi_env env,char const*s,size_t n,napi_value*r){ API(napi_create_string_utf8) return str(s,n,r); }
napi_status napi_create_string_latin1(napi_env env,char const*s,size_t n,napi_value*r){ API(napi_create_string_latin1) napi_status st=str(s,n,r); if(st==napi_ok){ auto v=((Handle*)*r)->v; std::string u; for(unsigned char c:v->s) if(c<128) u+=c; else { u+=char(0xc0|c>>6); u+=char(0x80|(c&63)); } v->s=u; } return st; }
napi_status napi_get_null(napi_env env,napi_value*r){ API(napi_get_null) ARG(r) *r=hv(mk(Val::Null)); return napi_ok; }
napi_status napi_get_undefined(napi_env env,napi_value*r){ API(napi_get_undefined) ARG(r) *r=hv(mk(Val::Undef)); return napi_ok; }
napi_status napi_get_boolean(napi_env env,bool b,napi_value*r){ API(napi_get_boolean) ARG(r) auto v=mk(Val::Bool); v->n=b; *r=hv(v); return napi_ok; }
napi_status napi_get_global(napi_env env,napi_value*r){ API(napi_get_global) ARG(r) *r=hv(mk(Val::Obj)); return napi_ok; }
napi_status napi_set_named_property(napi_env env,napi_value o,char const*n,napi_value v){ API(napi_set_named_property) PEND ARG(o&&n&&v) auto ob=val(o,"napi_set_named_property"); if(ob->k!=Val::Obj&&ob->k!=Val::Fun) return napi_object_expected; ob->props[n]=val(v,"napi_set_named_property"); return napi_ok; }
napi_status napi_set_property(napi_env env,napi_value o,napi_value k,napi_value v){ API(napi_set_property) PEND ARG(o&&k&&v) val(o,"napi_set_property")->props[val(k,"napi_set_property")->s]=val(v,"napi_set_property"); return napi_ok; }
napi_status napi_get_named_property(napi_env env,napi_value o,char const*n,napi_value*r){ API(napi_get_named_property) PEND ARG(o&&n&&r) auto&p=val(o,"napi_get_named_property")->props; *r=hv(p.count(n)?p[n]:mk(Val::Undef)); return napi_ok; }
napi_status napi_define_properties(napi_env env,napi_value o,size_t n,napi_property_descriptor const*d){ API(napi_define_properties) PEND ARG(o&&(d||!n)) for(size_t i=0;i<n;++i){ Val*v; if(d[i].method){ v=mk(Val::Fun); v->cb=d[i].method; v->data=d[i].data; } else v=val(d[i].value,"napi_define_properties"); val(o,"napi_define_properties")->props[d[i].utf8name]=v; } return napi_ok; }
napi_status napi_create_function(napi_env env,char const*,size_t,napi_callback cb,void*data,napi_value*r){ API(napi_create_function) PEND ARG(cb&&r) auto v=mk(Val::Fun); v->cb=cb; v->data=data; *r=hv(v); return napi_ok; }
napi_status napi_typeof(napi_env env,napi_value h,napi_valuetype*r){ API(napi_typeof) ARG(h&&r) static napi_valuetype const t[]={napi_undefined,napi_null,napi_boolean,napi_number,napi_string,napi_object,napi_function}; *r=t[val(h,"napi_typeof")->k]; return napi_ok; }
napi_status napi_get_cb_info(napi_env env,napi_callback_info i,size_t*argc,napi_value*argv,napi_value*self,void**data){ API(napi_get_cb_info) ARG(i) if(argv){ ARG(argc) for(size_t k=0;k<*argc;++k) argv[k]=hv(k<i->args.size()?i->args[k]:mk(Val::Undef)); } if(argc) *argc=i->args.size(); if(self) *self=hv(i->self); if(data) *data=i->data; return napi_ok; }
static napi_status thr(char const*m){ PEND pending=true; pending_msg=m?m:""; return napi_ok; }
napi_status napi_throw_error(napi_env env,char const*,char const*m){ bool f=faulty; faulty=false; API(napi_throw_error) faulty=f; return thr(m); }
napi_status napi_throw_type_error(napi_env env,char const*,char const*m){ bool f=faulty; faulty=false; API(napi_throw_type_error) faulty=f; return thr(m); }
napi_status napi_throw_range_error(napi_env env,char const*,char const*m){ bool f=faulty; faulty=false; API(napi_throw_range_error) faulty=f; return thr(m); }
napi_status napi_throw(napi_env env,napi_value v){ API(napi_throw) return thr(val(v,"napi_throw")->s.c_str()); }
napi_status napi_create_error(napi_env env,napi_value,napi_value m,napi_value*r){ API(napi_create_error) ARG(m&&r) auto v=mk(Val::Obj); v->s=val(m,"napi_create_error")->s; *r=hv(v); return napi_ok; }
napi_status napi_is_exception_pending(napi_env env,bool*r){ API(napi_is_exception_pending) *r=pending; return napi_ok; }
napi_status napi_get_and_clear_last_exception(napi_env env,napi_value*r){ API(napi_get_and_clear_last_exception) *r=hv(mk(Val::Obj)); pending=false; return napi_ok; }
napi_status napi_get_last_error_info(node_api_basic_env e,napi_extended_error_info const**r){ napi_env env=(napi_env)e; API(napi_get_last_error_info) static napi_extended_error_info x; x.error_message="an error"; *r=&x; return napi_ok; }
napi_status napi_fatal_exception(napi_env env,napi_value){ API(napi_fatal_exception) return napi_ok; }
void napi_fatal_error(char const*,size_t,char const*,size_t){ violation("the addon ends the program"); }
napi_status napi_get_value_string_utf8(napi_env env,napi_value h,char*b,size_t n,size_t*r){ API(napi_get_value_string_utf8) ARG(h) auto v=val(h,"napi_get_value_string_utf8"); if(v->k!=Val::Str) return napi_string_expected; if(!b){ ARG(r) *r=v->s.size(); } else if(n){ size_t k=v->s.size()<n-1?v->s.size():n-1; while(k<v->s.size()&&k>0&&((unsigned char)v->s[k]&0xc0)==0x80) --k; memcpy(b,v->s.data(),k); b[k]=0; if(r) *r=k; } else if(r) *r=0; return napi_ok; }
napi_status napi_call_function(napi_env env,napi_value self,napi_value f,size_t n,napi_value const*a,napi_value*r){ API(napi_call_function) PEND ARG(f&&self) if(n) ARG(a) auto fn=val(f,"napi_call_function"); val(self,"napi_call_function"); if(fn->k!=Val::Fun) return napi_invalid_arg; if(!fn->js) violation("an unknown function is called"); if(n!=1) violation(fmt("the callback is given %zu arguments",n)); auto x=val(a[0],"napi_call_function"); fn->js(x); if(pending) return napi_pending_exception; if(r) *r=hv(mk(Val::Undef)); return napi_ok; }
napi_status napi_create_reference(napi_env env,napi_value v,uint32_t n,napi_ref*r){ API(napi_create_reference) ARG(v&&r) auto x=val(v,"napi_create_reference"); if(x->k!=Val::Obj&&x->k!=Val::Fun) return napi_object_expected; refs.push_back(std::make_unique<napi_ref__>(napi_ref__{x,n})); *r=refs.back().get(); return napi_ok; }
static napi_ref__*ref_of(napi_ref r,char const*f){ for(auto&x:refs) if(x.get()==r){ if(x->deleted) violation(std::string(f)+": the reference was deleted before"); return r; } violation(std::string(f)+": this is no reference"); }
napi_status napi_delete_reference(node_api_basic_env e,napi_ref r){ napi_env env=(napi_env)e; bool f=faulty; faulty=false; API(napi_delete_reference) faulty=f; ARG(r) ref_of(r,"napi_delete_reference")->deleted=true; return napi_ok; }
napi_status napi_reference_ref(napi_env env,napi_ref r,uint32_t*n){ API(napi_reference_ref) auto x=ref_of(r,"napi_reference_ref"); x->n++; if(n) *n=x->n; return napi_ok; }
napi_status napi_reference_unref(napi_env env,napi_ref r,uint32_t*n){ API(napi_reference_unref) auto x=ref_of(r,"napi_reference_unref"); if(!x->n) return napi_generic_failure; x->n--; if(n) *n=x->n; return napi_ok; }
napi_status napi_get_reference_value(napi_env env,napi_ref r,napi_value*v){ API(napi_get_reference_value) *v=hv(ref_of(r,"napi_get_reference_value")->v); return napi_ok; }
napi_status napi_open_handle_scope(napi_env env,napi_handle_scope*s){ API(napi_open_handle_scope) open_scope(); *s=(napi_handle_scope)(intptr_t)scopes.back(); return napi_ok; }
napi_status napi_close_handle_scope(napi_env env,napi_handle_scope s){ API(napi_close_handle_scope) if(scopes.empty()||(intptr_t)s!=scopes.back()) violation("scopes are closed in another order"); close_scope(); return napi_ok; }
static napi_status addfin(Val*v,napi_finalize f,void*d,void*h){ v->fins.push_back({f,d,h}); return napi_ok; }
napi_status napi_wrap(napi_env env,napi_value o,void*d,napi_finalize f,void*h,napi_ref*r){ API(napi_wrap) PEND ARG(o) auto v=val(o,"napi_wrap"); if(v->wrapped) return napi_invalid_arg; v->wrapped=true; v->wrap=d; if(f) addfin(v,f,d,h); if(r){ refs.push_back(std::make_unique<napi_ref__>(napi_ref__{v,0})); *r=refs.back().get(); } return napi_ok; }
napi_status napi_unwrap(napi_env env,napi_value o,void**d){ API(napi_unwrap) ARG(o&&d) auto v=val(o,"napi_unwrap"); if(!v->wrapped) return napi_invalid_arg; *d=v->wrap; return napi_ok; }
napi_status napi_remove_wrap(napi_env env,napi_value o,void**d){ API(napi_remove_wrap) ARG(o) auto v=val(o,"napi_remove_wrap"); if(!v->wrapped) return napi_invalid_arg; if(d) *d=v->wrap; v->wrapped=false; v->fins.clear(); return napi_ok; }
napi_status napi_add_finalizer(napi_env env,napi_value o,void*d,napi_finalize f,void*h,napi_ref*r){ API(napi_add_finalizer) ARG(o&&f) auto v=val(o,"napi_add_finalizer"); if(v->k!=Val::Obj&&v->k!=Val::Fun) return napi_invalid_arg; if(r){ refs.push_back(std::make_unique<napi_ref__>(napi_ref__{v,0})); *r=refs.back().get(); } return addfin(v,f,d,h); }
napi_status napi_add_env_cleanup_hook(node_api_basic_env e,void(*f)(void*),void*a){ napi_env env=(napi_env)e; API(napi_add_env_cleanup_hook) ARG(f) for(auto&h:hooks) if(h.f==f&&h.a==a) violation("one cleanup hook is added twice"); hooks.push_back({f,a,nullptr}); return napi_ok; }
napi_status napi_remove_env_cleanup_hook(node_api_basic_env e,void(*f)(void*),void*a){ napi_env env=(napi_env)e; bool fl=faulty; faulty=false; API(napi_remove_env_cleanup_hook) faulty=fl; ARG(f) for(size_t i=0;i<hooks.size();++i) if(hooks[i].f==f&&hooks[i].a==a){ hooks.erase(hooks.begin()+i); break; } return napi_ok; }
static void*inst_data; static napi_finalize inst_fin; static void*inst_hint;
napi_status napi_set_instance_data(node_api_basic_env e,void*d,napi_finalize f,void*h){ napi_env env=(napi_env)e; API(napi_set_instance_data) inst_data=d; inst_fin=f; inst_hint=h; return napi_ok; }
napi_status napi_get_instance_data(node_api_basic_env e,void**d){ napi_env env=(napi_env)e; API(napi_get_instance_data) *d=inst_data; return napi_ok; }
void napi_module_register(napi_module*){}
/* thread-safe functions */
static bool quiet; /* many events at once, no scheduling points in between */
static std::mutex ts_m; static std::condition_variable ts_cv;
static Ts*ts_of(napi_threadsafe_function f,char const*n){ for(auto&t:tss) if((napi_threadsafe_function)t.get()==f){ if(t->deleted) violation(std::string(n)+": the thread-safe function was freed before"); return t.get(); } violation(std::string(n)+": this is no thread-safe function"); }
napi_status napi_create_threadsafe_function(napi_env env,napi_value f,napi_value res,napi_value name,size_t max,size_t threads,void*fd,napi_finalize fin,void*ctx,napi_threadsafe_function_call_js call,napi_threadsafe_function*r){ API(napi_create_threadsafe_function) ARG(name&&threads>0&&r) Val*cb=nullptr; if(f){ cb=val(f,"napi_create_threadsafe_function"); if(cb->k!=Val::Fun) return napi_invalid_arg; } else ARG(call) if(res) val(res,"napi_create_threadsafe_function"); if(val(name,"napi_create_threadsafe_function")->k!=Val::Str) return napi_string_expected; auto t=std::make_unique<Ts>(); t->call=call; t->fin=fin; t->fdata=fd; t->ctx=ctx; t->cb=cb; t->max=max; t->threads=(long)threads; *r=(napi_threadsafe_function)t.get(); hooks.push_back({nullptr,nullptr,t.get()}); tss.push_back(std::move(t)); return napi_ok; }
napi_status napi_get_threadsafe_function_context(napi_threadsafe_function f,void**r){ Out o; *r=ts_of(f,"napi_get_threadsafe_function_context")->ctx; return napi_ok; }
static void gone(Ts*t){ if(t->finalized&&t->threads==0) t->deleted=true; }
napi_status napi_call_threadsafe_function(napi_threadsafe_function f,void*d,napi_threadsafe_function_call_mode m){ Out o; std::unique_lock<std::mutex> l(ts_m,std::defer_lock); if(!quiet){ yield_point("calls the thread-safe function"); l.lock(); } auto t=ts_of(f,"napi_call_threadsafe_function"); 
  while(t->max&&t->q.size()>=t->max&&!t->closing){ if(m==napi_tsfn_nonblocking) return napi_queue_full; if(quiet) l.lock(); ts_cv.wait(l); if(quiet) l.unlock(); }
  if(t->closing){ if(t->threads==0) return napi_invalid_arg; t->threads--; gone(t); return napi_closing; } t->q.push_back(d); return napi_ok; }
napi_status napi_acquire_threadsafe_function(napi_threadsafe_function f){ Out o; auto t=ts_of(f,"napi_acquire_threadsafe_function"); if(t->closing) return napi_closing; t->threads++; return napi_ok; }
napi_status napi_release_threadsafe_function(napi_threadsafe_function f,napi_threadsafe_function_release_mode m){ Out o; auto t=ts_of(f,"napi_release_threadsafe_function"); if(t->threads==0) return napi_invalid_arg; t->threads--; if(m==napi_tsfn_abort) t->closing=true; gone(t); return napi_ok; }
napi_status napi_unref_threadsafe_function(node_api_basic_env e,napi_threadsafe_function f){ napi_env env=(napi_env)e; API(napi_unref_threadsafe_function) ts_of(f,"napi_unref_threadsafe_function"); return napi_ok; }
napi_status napi_ref_threadsafe_function(node_api_basic_env e,napi_threadsafe_function f){ napi_env env=(napi_env)e; API(napi_ref_threadsafe_function) ts_of(f,"napi_ref_threadsafe_function"); return napi_ok; }
}
/*  JavaScript's side. */
static void finalize_ts(Ts*t){ if(t->finalized) return; t->closing=true; t->finalized=true; while(!t->q.empty()){ void*d=t->q.front(); t->q.pop_front(); { In in; t->call(nullptr,nullptr,t->ctx,d); } } if(t->fin){ open_scope(); { In in; t->fin(the_env.over?nullptr:&the_env,t->fdata,t->ctx); } close_scope(); } gone(t); }
static int uncaught;
/*  Runs up to n of the calls that are waiting; gives the number of those. */
static int turn(int n){ int k=0; for(size_t i=0;i<tss.size();++i){ auto t=tss[i].get(); while(k<n&&!t->q.empty()&&!t->closing&&!t->finalized){ void*d; { std::unique_lock<std::mutex> l(ts_m,std::defer_lock); if(!quiet) l.lock(); d=t->q.front(); t->q.pop_front(); if(!quiet||t->max) ts_cv.notify_all(); } open_scope(); auto cb=t->cb?hv(t->cb):nullptr; { In in; t->call(&the_env,cb,t->ctx,d); } if(pending){ pending=false; uncaught++; } close_scope(); k++; } if(!t->finalized&&(t->closing||(t->q.empty()&&t->threads==0))) finalize_ts(t); } return k; }
static Val*call(Val*f,std::vector<Val*> args,bool&threw){ open_scope(); napi_callback_info__ i{args,mk(Val::Obj),f->data}; napi_value r; { In in; r=f->cb(&the_env,&i); } Val*v=r?val(r,"the result of a call"):mk(Val::Undef); threw=pending; pending=false; close_scope(); return v; }
static void collect(Val*v){ if(v->gone) return; v->gone=true; auto f=v->fins; v->fins.clear(); for(auto&x:f){ open_scope(); { In in; x.f(&the_env,x.data,x.hint); } close_scope(); } }
static void end_env(){ while(!hooks.empty()){ auto h=hooks.back(); hooks.pop_back(); if(h.ts) finalize_ts(h.ts); else { In in; h.f(h.a); } } for(size_t i=0;i<vals.size();++i) collect(vals[i].get()); if(inst_fin){ In in; inst_fin(&the_env,inst_data,inst_hint); } the_env.over=true; }

/* ---- the native watcher ---- */
struct E { int64_t t; std::string p; bool has; std::string a; int8_t et,pt; };
struct Nat { std::string path; wtr_watcher_callback cb; void*ctx; std::thread th; std::mutex m; std::condition_variable cv; bool stop=false; std::deque<E> todo; bool busy=false; std::vector<E> late; bool ok=true; int closed=0; bool over=false; };
static std::vector<std::unique_ptr<Nat>> nats; static std::function<void(Nat&)> on_open; static bool refuse;
static void emit(Nat&n,E const&e){ Out o; auto dup=[](std::string const&s){ char*p=(char*)malloc(s.size()+1); memcpy(p,s.c_str(),s.size()+1); return p; }; char*p=dup(e.p),*a=e.has?dup(e.a):nullptr; wtr_watcher_event v; v.effect_time=e.t; v.path_name=p; v.associated_path_name=a; v.effect_type=e.et; v.path_type=e.pt; { In in; n.cb(v,n.ctx); } memset(p,'#',e.p.size()); free(p); if(a){ memset(a,'#',e.a.size()); free(a); } }
extern "C" void* wtr_watcher_open(char const*const path,wtr_watcher_callback cb,void*ctx){ Out o; if(refuse) return nullptr; if(!path||!cb) violation("the native watcher is opened without a path or a callback"); nats.push_back(std::make_unique<Nat>()); Nat*n=nats.back().get(); n->path=path; n->cb=cb; n->ctx=ctx; if(on_open) on_open(*n); n->th=std::thread([n]{ std::unique_lock<std::mutex> l(n->m); for(;;){ if(!n->todo.empty()){ std::deque<E> es; if(quiet) es.swap(n->todo); else { es.push_back(n->todo.front()); n->todo.pop_front(); } n->busy=true; l.unlock(); for(auto&e:es) emit(*n,e); l.lock(); n->busy=false; n->cv.notify_all(); continue; } if(n->stop) break; n->cv.wait(l); } auto late=n->late; l.unlock(); for(auto&e:late) emit(*n,e); }); return n; }
extern "C" bool wtr_watcher_close(void*w){ Out o; if(!w) return false; Nat*n=nullptr; for(auto&x:nats) if(x.get()==w) n=x.get(); if(!n) violation("the native watcher is given a handle which is not one"); if(n->closed++) violation("the native watcher is closed twice"); { std::unique_lock<std::mutex> l(n->m); n->stop=true; n->cv.notify_all(); } n->th.join(); n->over=true; return n->ok; }
static void push(Nat&n,std::deque<E> const&e){ std::unique_lock<std::mutex> l(n.m); n.todo.insert(n.todo.end(),e.begin(),e.end()); n.cv.notify_all(); }
static void push(Nat&n,E const&e){ std::unique_lock<std::mutex> l(n.m); n.todo.push_back(e); n.cv.notify_all(); }
static void flush(Nat&n){ std::unique_lock<std::mutex> l(n.m); while((!n.todo.empty()||n.busy)) n.cv.wait(l); }

/* ---- judging ---- */
static double dnum(int64_t x){ return (double)x; }
static void same(Val*v,E const&e){ auto s=fmt("sent: time %lld, path of %zu bytes %s, %s, types %d %d; ",(long long)e.t,e.p.size(),e.p.substr(0,60).c_str(),e.has?("associated "+e.a.substr(0,60)).c_str():"not associated",e.et,e.pt); if(v->k!=Val::Obj) violation(s+"the callback is not given an object"); auto g=[&](char const*n){ auto it=v->props.find(n); if(it==v->props.end()) violation(s+"the object has no "+n); return it->second; };
  if(v->props.size()!=5) violation(s+fmt("the object has %zu properties",v->props.size())); auto t=g("effectTime"),p=g("pathName"),a=g("associatedPathName"),et=g("effectType"),pt=g("pathType"); if(t->k!=Val::Num||t->n!=dnum(e.t)) violation(s+fmt("effectTime is %.0f",t->n)); if(p->k!=Val::Str||p->s!=e.p) violation(s+"pathName is "+p->s.substr(0,100)); if(e.has?a->k!=Val::Str||a->s!=e.a:a->k!=Val::Null) violation(s+"associatedPathName is "+(a->k==Val::Str?a->s.substr(0,100):a->k==Val::Null?"null":"something else")); if(et->k!=Val::Num||et->n!=e.et) violation(s+fmt("effectType is %.0f",et->n)); if(pt->k!=Val::Num||pt->n!=e.pt) violation(s+fmt("pathType is %.0f",pt->n)); }
struct W { Val*cb=nullptr,*obj=nullptr,*fn=nullptr; Nat*n=nullptr; std::deque<E> expect; int got=0; std::function<void()> in_cb; bool closed=false; std::vector<std::pair<Val*,E>> kept; };
static std::vector<std::unique_ptr<W>> ws; static Val*mod_watch; static int serial;
static void start(){ js_thread=self_id(); open_scope(); napi_value ex=hv(mk(Val::Obj)); napi_value r; { In in; r=napi_register_module_v1(&the_env,ex); } auto m=val(r?r:ex,"the module"); mod_watch=m->props.count("watch")?m->props["watch"]:nullptr; if(!mod_watch||mod_watch->k!=Val::Fun) violation("the module has no function watch"); close_scope(); tracking=true; if(__sanitizer_install_malloc_and_free_hooks) __sanitizer_install_malloc_and_free_hooks(on_malloc,on_free); }
static Val*S(std::string const&s){ auto v=mk(Val::Str); v->s=s; return v; }
static W&watch(std::string const&path="/w",bool may_throw=false){ ws.push_back(std::make_unique<W>()); W*w=ws.back().get(); w->cb=mk(Val::Fun); w->cb->js=[w](Val*v){ if(w->expect.empty()) violation("the callback is given an event that was not sent, or again"); E e=w->expect.front(); w->expect.pop_front(); same(v,e); if(w->kept.size()<16) w->kept.push_back({v,e}); w->got++; if(w->in_cb){ auto f=w->in_cb; Out o; f(); } };
  size_t before=nats.size(); on_open=[w](Nat&n){ w->n=&n; }; bool threw; auto r=call(mod_watch,{S(path),w->cb},threw); on_open=nullptr; if(threw){ if(!may_throw) violation("watch() throws: "+pending_msg); if(nats.size()!=before&&!nats.back()->closed) violation("watch() throws, but the native watcher stays open"); w->closed=true; return *w; } if(nats.size()!=before+1||!w->n) violation("watch() does not open a native watcher"); if(nats.back()->path!=path) violation(fmt("asked for a path of %zu bytes, the native watcher was given one of %zu",path.size(),nats.back()->path.size())); if(r->k!=Val::Obj||!r->props.count("close")||r->props["close"]->k!=Val::Fun) violation("watch() gives no object with a function close"); w->obj=r; w->fn=r->props["close"]; return *w; }
static bool twins;
/*  Each different from the one before, or in pairs of the same, with times that also go back. */
static E ev(){ int k=++serial; if(twins){ k/=2; k=k%2?k:9-k; } return {1700000000000000000ll+k*1000003ll,"/w/n"+std::to_string(k),k%3==0,"/w/m"+std::to_string(k),int8_t(k%6),int8_t(k/2%6)}; }
static void send(W&w,int n){ std::deque<E> es; for(int i=0;i<n;++i){ es.push_back(ev()); w.expect.push_back(es.back()); } if(quiet) push(*w.n,es); else for(auto&e:es) push(*w.n,e); }
static void late(W&w,int n){ for(int i=0;i<n;++i) w.n->late.push_back(ev()); }
static bool close(W&w){ bool first=!w.closed; w.closed=true; if(first){ std::unique_lock<std::mutex> l(w.n->m); for(auto&e:w.n->late) w.expect.push_back(e); } bool threw; auto r=call(w.fn,{},threw); if(threw) violation("close() throws"); if(r->k!=Val::Bool) violation("close() does not give true or false"); if(first&&!w.n->over) violation("close() did not close the native watcher"); if((r->n!=0)!=(first&&w.n->ok)) violation(fmt("close() gave %s, the native watcher %s, %s",r->n?"true":"false",w.n->ok?"true":"false",first?"the first time":"again")); observe(r->n?"true":"false"); return r->n; }
static void drain(){ for(int i=0;i<100&&turn(1<<30);++i); }
static void drop(W&w){ if(w.obj){ collect(w.obj); collect(w.fn); w.obj=w.fn=nullptr; } }
/*  The end of the environment, after which nothing may be left. */
static void end(bool cut=false){ if(!cut) drain(); for(auto&w:ws) if(!w->n) continue; else if(w->closed&&!w->expect.empty()&&!cut) violation(fmt("%zu events never reached the callback",w->expect.size())); 
  for(auto&w:ws) for(auto&k:w->kept) same(k.first,k.second);
  for(auto&w:ws) w->in_cb=nullptr; end_env(); for(auto&n:nats) if(n->closed!=1) violation(fmt("a native watcher is closed %d times by the end",n->closed)); for(auto&n:nats) for(int i=0;i<1;++i) if(!n->over) violation("a native watcher runs on after JavaScript is gone"); for(auto&r:refs) if(!r->deleted) violation("a reference is never deleted"); for(auto&t:tss) if(!t->deleted) violation("a thread-safe function is never released"); tracking=false; if(nheld) violation(fmt("%zu pieces of memory are never given back",nheld)); if(live_threads()>1) violation("a thread runs on"); }

static char const*const pieces[]={"\"","\\","\n","\t","\x01","\x7f"," ","%s","{","\xc3\xa9","\xe2\x82\xac","\xf0\x9f\x90\x8d","\xff","\xc3","\xed\xa0\x80","'"};
static void values(){ start(); W&w=watch(); int et=pick(6,"effect"),pt=pick(6,"path type"); auto s=[&](E e){ e.et=et; e.pt=pt; w.expect.push_back(e); push(*w.n,e); }; static int64_t const T[]={0,1,-1,INT32_MAX,1ll<<32,(1ll<<53)-1,(1ll<<53)+1,1795136338493256973ll,INT64_MAX,INT64_MIN}; for(auto t:T) s({t,"/w/f",false,"",0,0}); for(int b=1;b<256;++b) s({7,"/w/"+std::string(1,b)+"x",b%2==0,std::string(1,b),0,0}); for(auto a:pieces) for(auto b:pieces) s({8,std::string(a)+b,true,std::string(b)+a,0,0}); for(int n:{1,255,256,4094,4095,4096,4097,70000}) s({9,std::string(n,'n'),n%2==0,std::string(n,'m'),0,0}); flush(*w.n); drain(); close(w); end(); }
static void many(){ quiet=true; start(); W&w=watch(); static int const N[]={0,1,2,1023,1024,1025,1026,5000},L[]={0,1,2,2000}; int n=N[pick(8,"waiting")],l=L[pick(4,"while closing")]; int k=pick(3,"turns"); late(w,l); if(k==1){ send(w,n/2); flush(*w.n); turn(n/4); send(w,n-n/2); } else send(w,n); if(k<2) flush(*w.n); close(w); if(pick(2,"again")) close(w); if(pick(2,"dropped")) drop(w); end(); if(w.got!=n+l) violation(fmt("%d events were sent, %d arrived",n+l,w.got)); }
static void paths(){ start(); int n=pick(10,"path"); static int const L[]={0,1,255,4094,4095,4096,4097,8192,70000}; std::string p; if(n<9){ int u=pick(3,"of"); for(int i=0;i<L[n];++i) p+=u==0?"p":u==1?"\xc3\xa9":"\xf0\x9f\x90\x8d"; } else p="/w w/\"\\\n"; W&w=watch(p); send(w,1); flush(*w.n); drain(); close(w); end(); }
static Val*any(int k){ switch(k){ case 0: return mk(Val::Undef); case 1: return mk(Val::Null); case 2: { auto v=mk(Val::Num); v->n=3; return v; } case 3: return S("text"); case 4: return mk(Val::Obj); case 5: return mk(Val::Bool); default: { auto v=mk(Val::Fun); v->js=[](Val*){}; return v; } } }
static void args(){ start(); int n=pick(4,"number of arguments"); std::vector<Val*> a; int k0=3,k1=6; for(int i=0;i<n;++i){ int k=pick(7,"kind"); if(i==0) k0=k; if(i==1) k1=k; a.push_back(any(k)); } refuse=pick(2,"opening")==1; bool threw; auto r=call(mod_watch,a,threw); bool good=n==2&&k0==3&&k1==6&&!refuse; if(threw==good) violation(good?"watch() throws: "+pending_msg:fmt("watch() is given %d arguments it cannot use, or cannot open the watcher, and nobody is told",n)); if(!threw){ open_scope(); if(!r->props.count("close")) violation("watch() gives no function close"); call(r->props["close"],{},threw); close_scope(); } else if(!nats.empty()) violation("a native watcher is opened for arguments which cannot be used"); if(pick(2,"collected")) for(size_t i=0;i<vals.size();++i) if(vals[i]->k==Val::Obj||vals[i]->k==Val::Fun) if(vals[i].get()!=mod_watch) collect(vals[i].get()); end(); }
static void failing(){ start(); faulty=true; W&w=watch("/w",true); faulty=false; bool threw=!w.obj; if(!threw&&!w.n) violation("neither a watcher nor an exception"); if(!armed.empty()&&!threw&&armed!="napi_typeof"&&armed!="napi_wrap"&&armed!="napi_unref_threadsafe_function"){ /* a failure that does not matter: everything must work */ } if(!threw){ late(w,1); send(w,2); flush(*w.n); drain(); if(pick(2,"closed")) close(w); } end(); if(!threw&&w.closed&&w.got!=3) violation("events are lost"); }
static void sessions(int depth){ start(); twins=pick(2,"twins"); W*a=&watch(); W*b=nullptr; bool over=false; late(*a,pick(2,"late events")); a->n->ok=pick(2,"close gives")==0;
  for(int d=0;d<depth&&!over;++d){ int op=pick(12,"op"); auto live=[&](W*w){ return w&&!w->closed&&w->n; };
    switch(op){ case 0: over=true; break;
      case 1: if(!live(a)) return; send(*a,1); flush(*a->n); break;
      case 2: if(!live(a)) return; send(*a,2); flush(*a->n); break;
      case 3: if(!turn(1)) return; break;
      case 4: if(!turn(1<<30)) return; break;
      case 5: if(!a->fn) return; close(*a); break;
      case 6: if(!a->obj) return; drop(*a); break;
      case 7: if(!live(a)||!a->fn||a->in_cb) return; a->in_cb=[a]{ a->in_cb=nullptr; if(a->fn&&!a->closed) close(*a); }; break;
      case 8: if(a->in_cb) return; a->in_cb=[a]{ a->in_cb=nullptr; pending=true; }; break;
      case 9: if(b) return; b=&watch("/v"); late(*b,1); break;
      case 10: if(!live(b)) return; send(*b,1); flush(*b->n); break;
      case 11: if(!b||!b->fn) return; close(*b); break; } }
  end(); }
/*  The environment ends while calls wait or are made. */
static void ends(){ start(); W&w=watch(); late(w,pick(3,"late")); send(w,pick(3,"events")); if(pick(2,"wait")) flush(*w.n); yield_point("js"); turn(pick(2,"turn")); if(pick(2,"dropped")) drop(w); int c=pick(3,"closed"); if(c==1&&w.fn) close(w); end(true); }
/*  Events come while JavaScript opens, runs and closes. */
static void schedules(){ start(); W&w=watch(); int n=pick(3,"events"); late(w,pick(2,"late")); send(w,n); yield_point("js"); turn(1); yield_point("js"); turn(1<<30); if(pick(2,"close in callback")) w.in_cb=[&w]{ w.in_cb=nullptr; if(!w.closed) close(w); }; send(w,w.closed?0:1); yield_point("js"); turn(1); if(!w.closed) close(w); if(pick(2,"again")) close(w); end(); if(!w.expect.empty()) violation("events are lost"); }

int main(int c,char**v){ std::vector<Scenario> s; auto T=[](int q,int t){ return thorough?t:q; };
  auto add=[&](char const*n,std::function<void()> f,int q,int t,double w){ s.push_back({"C17",n,f,q,t,w}); };
  add("napi-values",values,0,0,1); add("napi-many",many,0,1,2); add("napi-paths",paths,0,0,1); add("napi-args",args,0,0,1); add("napi-failing",failing,1,2,1); add("napi-sessions",[=]{ sessions(T(4,6)); },0,0,4); add("napi-ends",ends,1,2,1); add("napi-schedules",schedules,2,3,3);
  return explore_main(c,v,s); }
