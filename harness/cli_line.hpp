/*  A line the command line program prints, as an event. */
#pragma once
#include "../lib/oracle.h"
#include "json.hpp"
#include <errno.h>
using sim::Ev; using sim::violation;
static int type_of(char const*const*names,json_::V const*v,char const*what,std::string const&line){ if(!v||v->k!=json_::V::STR) violation(std::string("no ")+what+" in "+json_::printable(line)); for(int i=0;i<6;++i) if(v->s==names[i]) return i; violation(std::string("a ")+what+" that is none: "+json_::printable(line)); }
static char const*const etn[]={"rename","modify","create","destroy","owner","other"}; static char const*const ptn[]={"dir","file","hard_link","sym_link","watcher","other"};
static Ev event_of(std::string const&line){ auto v=json_::parse(line); auto one=[&](json_::V const&v,Ev&e,bool top)->json_::V const*{ if(v.k!=json_::V::OBJ) violation("not an object: "+json_::printable(line)); if(v.m.size()!=5) violation("another number of members than five: "+json_::printable(line));
    int et=type_of(etn,v.get("effect_type"),"effect_type",line),pt=type_of(ptn,v.get("path_type"),"path_type",line); auto p=v.get("path_name"); if(!p||p->k!=json_::V::STR) violation("no path_name in "+json_::printable(line)); auto t=v.get("effect_time"); if(!t||t->k!=json_::V::NUM) violation("no effect_time in "+json_::printable(line)); auto a=v.get("associated"); if(!a||(a->k!=json_::V::NUL&&a->k!=json_::V::OBJ)) violation("associated is missing, or neither an object nor null: "+json_::printable(line));
    if(top){ e.et=et; e.pt=pt; e.path=p->s; errno=0; e.t=strtoll(t->s.c_str(),nullptr,10); if(errno) violation("not a time: "+json_::printable(line)); } else { e.aet=et; e.apt=pt; e.apath=p->s; } return a; };
  Ev e; e.w=0; auto a=one(v,e,true); if(a->k==json_::V::OBJ){ e.assoc=true; auto b=one(*a,e,false); e.aassoc=b->k!=json_::V::NUL; } return e; }
