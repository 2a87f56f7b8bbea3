/*  A strict reader of JSON text (bytes), for what programs under test print. */
#pragma once
#include "../lib/sim.h"
#include <optional>
#include <string>
#include <utility>
#include <vector>
namespace json_ {
struct V { enum K { OBJ, STR, NUM, NUL, OTHER } k=NUL; std::string s; std::vector<std::pair<std::string,V>> m;
  V const* get(char const*n) const { for(auto&x:m) if(x.first==n) return &x.second; return nullptr; } };
inline std::string printable(std::string const&s){ std::string o; char b[8]; for(unsigned char c:s) if(c>=32&&c<127) o+=c; else { snprintf(b,sizeof b,"\\x%02x",c); o+=b; } return o.size()>600?o.substr(0,600)+"...":o; }
struct P { std::string const&s; size_t i=0;
  [[noreturn]] void bad(std::string const&w){ sim::violation("not well-formed JSON: "+w+" at "+std::to_string(i)+" of "+printable(s)); }
  int pk(){ return i<s.size()?(unsigned char)s[i]:-1; }
  void want(char const*t){ for(;*t;++t,++i) if(pk()!=(unsigned char)*t) bad(std::string("no ")+*t); }
  void ws(){ while(pk()==' '||pk()=='\t') i++; }
  static void utf8(std::string&r,unsigned v){ if(v<0x80) r+=v; else if(v<0x800){ r+=0xc0|v>>6; r+=0x80|(v&63); } else if(v<0x10000){ r+=0xe0|v>>12; r+=0x80|((v>>6)&63); r+=0x80|(v&63); } else { r+=0xf0|v>>18; r+=0x80|((v>>12)&63); r+=0x80|((v>>6)&63); r+=0x80|(v&63); } }
  unsigned hex4(){ unsigned v=0; for(int k=0;k<4;++k){ int c=pk(); int d=c>='0'&&c<='9'?c-'0':c>='a'&&c<='f'?c-'a'+10:c>='A'&&c<='F'?c-'A'+10:-1; if(d<0) bad("a \\u escape"); v=v*16+d; i++; } return v; }
  std::string str(){ want("\""); std::string r; for(;;){ int c=pk(); if(c<0) bad("it ends in a string"); i++; if(c=='"') return r; if(c<0x20) bad("a control character"); if(c!='\\'){ r+=(char)c; continue; } c=pk(); i++; switch(c){ case '"': case '\\': case '/': r+=(char)c; break; case 'b': r+=8; break; case 'f': r+=12; break; case 'n': r+=10; break; case 'r': r+=13; break; case 't': r+=9; break;
      case 'u': { unsigned v=hex4(); if(v>=0xd800&&v<0xdc00){ want("\\u"); unsigned l=hex4(); if(l<0xdc00||l>0xdfff) bad("half a surrogate pair"); v=0x10000+((v-0xd800)<<10)+(l-0xdc00); } else if(v>=0xdc80&&v<=0xdcff){ r+=(char)(v-0xdc00); break; } else if(v>=0xdc00&&v<0xe000) bad("half a surrogate pair"); utf8(r,v); break; } default: bad("an escape"); } } }
  V val(){ ws(); V v; int c=pk(); if(c=='"'){ v.k=V::STR; v.s=str(); } else if(c=='{'){ v.k=V::OBJ; i++; ws(); if(pk()=='}'){ i++; return v; } for(;;){ ws(); auto k=str(); if(v.get(k.c_str())) bad("a member twice"); ws(); want(":"); auto x=val(); v.m.emplace_back(k,x); ws(); if(pk()==','){ i++; continue; } want("}"); break; } }
    else if(c=='n'){ want("null"); v.k=V::NUL; } else if(c=='t'){ want("true"); v.k=V::OTHER; } else if(c=='f'){ want("false"); v.k=V::OTHER; }
    else { v.k=V::NUM; size_t a=i; if(pk()=='-') i++; if(!(pk()>='0'&&pk()<='9')) bad("a value"); if(pk()=='0'&&i+1<s.size()&&s[i+1]>='0'&&s[i+1]<='9') bad("a leading zero"); while(pk()>='0'&&pk()<='9') i++; v.s=s.substr(a,i-a); }
    ws(); return v; }
  V whole(){ V v=val(); if(i!=s.size()) bad("something follows"); return v; } };
inline V parse(std::string const&s){ P p{s}; return p.whole(); }
}
