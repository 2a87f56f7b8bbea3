/*  Events as values: text, JSON, streams, copies, equality. */
#include "../lib/sim.h"
#include <wtr/watcher.hpp>
#include <map>
#include <optional>
#include <sstream>
#include <stdarg.h>
#include <string.h>
using namespace sim; using wtr::event; using std::string; using std::wstring;
static string fmt(char const*f,...){ char b[4096]; va_list a; va_start(a,f); vsnprintf(b,sizeof b,f,a); va_end(a); return b; }
using ET=enum event::effect_type; using PT=enum event::path_type;
static ET const ets[]={ET::rename,ET::modify,ET::create,ET::destroy,ET::owner,ET::other}; static PT const pts[]={PT::dir,PT::file,PT::hard_link,PT::sym_link,PT::watcher,PT::other};
static char const*const etn[]={"rename","modify","create","destroy","owner","other"}; static char const*const ptn[]={"dir","file","hard_link","sym_link","watcher","other"};
using U=std::u32string; /* code units: bytes, or wide characters */
static string q(U const&s){ string o; for(auto c:s) if(c>=32&&c<127) o+=char(c); else o+=fmt("\\x{%x}",(unsigned)c); return o.size()>400?o.substr(0,400)+"...":o; }
static U units(string const&s){ U r; for(unsigned char c:s) r+=c; return r; }
static U units(wstring const&s){ U r; for(auto c:s) r+=(char32_t)c; return r; }
static U ascii(char const*s){ return units(string(s)); }

/* A strict parser. Throws nothing: a failure is a violation. */
struct J { bool obj=false; U str; std::vector<std::pair<U,J>> m; };
struct P { U s; size_t i=0; [[noreturn]] void bad(char const*w){ violation(fmt("not well-formed: %s at %zu of ",w,i)+q(s)); }
  char32_t pk(){ if(i>=s.size()) bad("it ends"); return s[i]; } void want(char c){ if(pk()!=(char32_t)c) bad(fmt("no '%c'",c).c_str()); i++; }
  U string_(){ want('"'); U r; for(;;){ auto c=pk(); i++; if(c=='"') return r; if(c<0x20) bad("a control character"); if(c!='\\'){ r+=c; continue; } c=pk(); i++; switch(c){ case '"': case '\\': case '/': r+=c; break; case 'b': r+=8; break; case 'f': r+=12; break; case 'n': r+=10; break; case 'r': r+=13; break; case 't': r+=9; break;
      case 'u': { unsigned v=0; for(int k=0;k<4;++k){ c=pk(); i++; int d=c>='0'&&c<='9'?c-'0':c>='a'&&c<='f'?c-'a'+10:c>='A'&&c<='F'?c-'A'+10:-1; if(d<0) bad("\\u"); v=v*16+d; } if(v>=0x80) bad("an escape that needs more than one unit"); r+=v; break; } default: bad("an escape"); } } }
  J value(){ J j; if(pk()=='"'){ j.str=string_(); return j; } return object(); }
  J object(){ J j; j.obj=true; want('{'); if(pk()=='}'){ i++; return j; } for(;;){ member(j); if(pk()==','){ i++; continue; } want('}'); return j; } }
  void member(J&j){ U k=string_(); want(':'); for(auto&x:j.m) if(x.first==k) bad("a member twice"); J v=value(); j.m.emplace_back(k,v); } };
static J member(U const&text,U*key){ P p; p.s=text; J j; p.member(j); if(p.i!=text.size()) p.bad("something follows"); *key=j.m[0].first; return j.m[0].second; }
static void has(J const&j,U const&text,char const*k,U const&v){ for(auto&x:j.m) if(x.first==ascii(k)){ if(x.second.obj||x.second.str!=v) violation(fmt("%s is ",k)+(x.second.obj?string("an object"):q(x.second.str))+" instead of "+q(v)+" in "+q(text)); return; } violation(fmt("no %s in ",k)+q(text)); }

struct X { std::optional<event> e; int et=0,pt=0; string path; string num; };
/* The wide form of a name; false if it is not well-formed UTF-8. */
static bool wide(string const&s,U&out){ out.clear(); for(size_t i=0;i<s.size();){ unsigned char b=s[i]; int n=b<0x80?1:(b>>5)==6?2:(b>>4)==14?3:(b>>3)==30?4:0; if(!n||i+n>s.size()) return false; char32_t c=n==1?b:b&((1<<(7-n))-1); for(int k=1;k<n;++k){ unsigned char x=s[i+k]; if((x&0xc0)!=0x80) return false; c=c<<6|(x&0x3f); } if((n==2&&c<0x80)||(n==3&&(c<0x800||(c>=0xd800&&c<0xe000)))||(n==4&&(c<0x10000||c>0x10ffff))) return false; out+=c; i+=n; } return true; }
static int idx(ET t){ for(int i=0;i<6;++i) if(ets[i]==t) return i; return 5; } static int idx(PT t){ for(int i=0;i<6;++i) if(pts[i]==t) return i; return 5; }
static void text_of(event const& e){
  for(int w=0;w<2;++w){ U t=w?units(wtr::to<wstring>(e)):units(wtr::to<string>(e)); U key; J j=member(t,&key); if(!j.obj) violation("not an object: "+q(t));
    if(key!=ascii(std::to_string(e.effect_time).c_str())) violation(fmt("the key is not the effect time %lld: ",(long long)e.effect_time)+q(t));
    auto one=[&](J const&j,event const&e,bool top){ U p=units(e.path_name.native()); bool ok=true; if(w) ok=wide(e.path_name.native(),p); has(j,t,"effect_type",ascii(etn[idx(e.effect_type)])); has(j,t,"path_type",ascii(ptn[idx(e.path_type)])); if(ok) has(j,t,"path_name",p); size_t want=3; if(top&&e.associated) want=4; if(j.m.size()!=want) violation("another number of members: "+q(t)); };
    one(j,e,true); bool seen=false; for(auto&x:j.m) if(x.first==ascii("associated")){ seen=true; if(!e.associated||!x.second.obj) violation("what is associated? "+q(t)); one(x.second,*e.associated,false); } if(e.associated&&!seen) violation("no associated event in "+q(t));
    if(w){ std::wostringstream s; s<<e; if(s.str()!=wtr::to<wstring>(e)) violation("streaming is not converting (wide): "+q(t)); } else { std::ostringstream s; s<<e; if(s.str()!=wtr::to<string>(e)) violation("streaming is not converting: "+q(t)); } } 
  /* the parts */
  auto p=e.path_name.native(); if(wtr::to<string>(e.path_name)!=p) violation("the text of a path is not the path: "+q(units(p))); U wp; if(wide(p,wp)){ if(units(wtr::to<wstring>(e.path_name))!=wp) violation("the wide text of a path is not the path: "+q(units(p))); } else (void)wtr::to<wstring>(e.path_name); }
static void copies(event const& e){ { std::optional<event> c; { auto o=std::make_unique<event>(e); if(!(*o==e)||*o!=e) violation("a copy is not equal"); c.emplace(*o); } /* the one copied from is gone */
    if(!(*c==e)||!(e==*c)||*c!=e) violation("a copy of a copy is not equal"); if(c->path_name.native()!=e.path_name.native()||c->effect_type!=e.effect_type||c->path_type!=e.path_type||c->effect_time!=e.effect_time||(bool)c->associated!=(bool)e.associated) violation("a copy differs"); if(e.associated&&(c->associated.get()==e.associated.get()||c->associated->path_name.native()!=e.associated->path_name.native())) violation("a copy shares, or differs in, its associated event"); text_of(*c); } }

static void types(){ int a=pick(6,"effect"),b=pick(6,"path type"),c=pick(37,"associated"); event e("/w/x",ets[a],pts[b]); if(c==36){ text_of(e); copies(e); } else { event f(e,event("/w/y",ets[c/6],pts[c%6])); text_of(f); copies(f); }
  auto et=wtr::to<string>(ets[a]); auto pt=wtr::to<string>(pts[b]); if(et!=etn[a]||pt!=ptn[b]) violation("text of a type: "+et+" "+pt); if(wtr::to<std::string_view>(ets[a])!=etn[a]||wtr::to<std::string_view>(pts[b])!=ptn[b]) violation("view of a type");
  if(units(wtr::to<wstring>(ets[a]))!=ascii(etn[a])||units(wtr::to<wstring>(pts[b]))!=ascii(ptn[b])||units(wstring(wtr::to<std::wstring_view>(ets[a])))!=ascii(etn[a])||units(wstring(wtr::to<std::wstring_view>(pts[b])))!=ascii(ptn[b])) violation("wide text of a type");
  std::ostringstream s; s<<ets[a]<<pts[b]; if(s.str()!=et+pt) violation("streamed types: "+s.str()); std::wostringstream w; w<<ets[a]<<pts[b]; if(units(w.str())!=units(et+pt)) violation("streamed wide types"); }
static void bytes(){ int n=pick(255,"byte")+1; int where=pick(5,"where"); string c(1,char(n)); string s=where==0?c:where==1?"/w/"+c:where==2?"/w/a"+c+"b":where==3?c+c:"/w/"+c+"\xc3\xa4"; event e(s,ET::create,PT::file); text_of(e); copies(e); event f(event("/w/a",ET::rename,PT::file),event(s,ET::rename,PT::file)); text_of(f); copies(f); }
static char const*const sp[]={"\"","\\","/","\n","\x01","\x1f","\x7f","\xff","\xc3\xa4","\xe2\x80\xa8","\xf0\x9f\x98\x80","u","n","0022",":","},{","\xc3","\xa4","\xed\xa0\x80","\xc0\x80","'","\t","\xf4\x90\x80\x80"," "};
static void specials(int depth){ string s; int n=sizeof sp/sizeof*sp; for(int i=0;i<depth;++i) s+=sp[pick(n,"piece")]; event e(s,ET::create,PT::file); text_of(e); event f(event(s,ET::rename,PT::dir),event(s+"2",ET::rename,PT::dir)); text_of(f); copies(f); }
static void lengths(){ static int const L[]={0,1,15,16,17,31,63,64,255,256,4095,4096,4097,70000}; string s(L[pick(14,"length")],pick(2,"of what")?'"':'a'); event e(s,ET::create,PT::file); text_of(e); copies(e); event f(event(s,ET::rename,PT::dir),event(s+"2",ET::rename,PT::dir)); text_of(f); copies(f); }
static void numbers(){ int k=pick(19,"power"),m=pick(7,"multiple"),d=pick(3,"offset"),neg=pick(2,"sign"); __int128 v=1; for(int i=0;i<k;++i) v*=10; v*=(int[]){1,2,3,5,7,8,9}[m]; v+=d-1; if(neg) v=-v; if(k==18&&m==6&&d==0) v=neg?(__int128)(-9223372036854775807ll-1):9223372036854775807ll; if(k==18&&m==6&&d==1) v=neg?-9223372036854775807ll:9223372036854775806ll; if(k==0&&m==0&&d==2) v=0;
  if(v>9223372036854775807ll||v<(__int128)(-9223372036854775807ll-1)) return; long long n=(long long)v; auto w=std::to_string(n); auto g=wtr::to<string>(n); if(g!=w) violation("the text of "+w+" is "+q(units(g))); auto h=wtr::to<wstring>(n); if(units(h)!=units(w)) violation("the wide text of "+w+" is "+q(units(h)));
  /* as an effect time: what a clock can show */
  if(n>=0){ advance_ns(n-now_ns()-2); event e("/w/x",ET::modify,PT::file); text_of(e); event f(e,event("/w/y",ET::modify,PT::file)); text_of(f); } }

/* The clock is set so that events can have equal times. */
static std::unique_ptr<event> mk(int64_t t,string const&p,ET e,PT pt){ advance_ns(t-now_ns()-1); return std::make_unique<event>(p,e,pt); }
static bool same(event const&a,event const&b){ return a.path_name.native()==b.path_name.native()&&a.effect_type==b.effect_type&&a.path_type==b.path_type&&a.effect_time==b.effect_time&&(bool)a.associated==(bool)b.associated&&(!a.associated||same(*a.associated,*b.associated)); }
/*  All pairs of events out of a set in which any two differ in any combination of fields, at three depths. */
static std::unique_ptr<event> variant(int depth,char const*tag){ int path=pick(2,tag),et=pick(2,tag),pt=pick(2,tag),tm=pick(2,tag); auto e=mk(1700000000000000000ll+tm,path?"/w/a":"/w/b",et?ET::rename:ET::modify,pt?PT::file:PT::dir); if(depth==0||pick(2,tag)==0) return e; auto a=variant(depth-1,tag); advance_ns(1700000000000000000ll+tm-now_ns()-1); return std::make_unique<event>(*e,event(*a)); }
static void equal(int depth){ auto a=variant(depth,"one"),b=variant(depth,"other"); bool w=same(*a,*b); if((*a==*b)!=w||(*b==*a)!=w||(*a!=*b)==w||(*b!=*a)==w) violation(string(w?"equal":"different")+" events are taken for "+(w?"different":"equal")+" ones: "+wtr::to<string>(*a)+" and "+wtr::to<string>(*b)); copies(*a); }
/*  Nested copies, kept beyond what they were copied from. */
static void nested(){ int n=pick(5,"depth"); std::vector<std::unique_ptr<event>> all; all.push_back(mk(1700000000000000000ll,"/w/0",ET::create,PT::file)); for(int i=0;i<n;++i) all.push_back(std::make_unique<event>(*mk(1700000000000000000ll+i,"/w/"+std::to_string(i+1),ets[i],pts[i]),event(*all.back()))); auto keep=std::make_unique<event>(*all.back()); if(!same(*keep,*all.back())) violation("a nested copy differs"); string before=wtr::to<string>(*keep); all.clear(); if(wtr::to<string>(*keep)!=before) violation("a copy changed when the original went"); int d=0; for(event const*p=keep.get();p;p=p->associated.get()) d++; if(d!=n+1) violation("a nested copy is not as deep as the original"); copies(*keep); }

int main(int c,char**v){ std::vector<Scenario> s;
  s.push_back({"C15","event-types",types,0,0,1}); s.push_back({"C15","event-bytes",bytes,0,0,1}); s.push_back({"C15","event-specials",[]{ specials(thorough?3:2); },0,0,1}); s.push_back({"C15","event-lengths",lengths,0,0,1}); s.push_back({"C15","event-numbers",numbers,0,0,1}); s.push_back({"C15","event-equality",[]{ equal(thorough?2:1); },0,0,3}); s.push_back({"C15","event-nested",nested,0,0,1});
  return explore_main(c,v,s); }
