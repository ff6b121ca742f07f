// P23: sorted stacks against an ordinary stack.
#include "sym.h"
#include <vector>
#include <sdsl/sorted_int_stack.hpp>
#include <sdsl/sorted_stack_support.hpp>
#include <sdsl/sorted_multi_stack_support.hpp>
using namespace sdsl;
#ifndef ST
#define ST sorted_int_stack
#define KIND 0
#endif
static const uint64_t DL[]={1,63,62,64,2,126,189,500,31,127,5000,65};
extern "C" void __sym_main(){ sym_merge(0);
  uint64_t n=sym_cfg("n",200),L=sym_cfg("L",6),k=sym_cfg("k",5),pre=sym_cfg("pre",0),pk=sym_cfg("pk",0),first=sym_cfg("first",0); ST s(n); std::vector<uint64_t> r;
  auto chk=[&]{ sym_assert(s.empty()==r.empty(),"empty"); sym_assert(s.size()==r.size(),"size"); if(!r.empty()) sym_assert(s.top()==r.back(),"top"); };
  auto push=[&](uint64_t x){
#if KIND==2
    bool b=s.push(x); sym_assert(b==(r.empty()||r.back()<x),"push result");
#else
    s.push(x);
#endif
    r.push_back(x); };
  auto pop=[&]{
#if KIND==2
    if(!r.empty()){ uint64_t o=r.back(); r.pop_back(); bool b=s.pop(); sym_assert(b==(r.empty()||r.back()!=o),"pop result"); } else { s.pop(); }
#else
    if(!r.empty()) r.pop_back(); s.pop();
#endif
    };
  auto room=[&](uint64_t x){ return KIND==0?true:KIND==1?x<=n:(x<=n&&r.size()<n); };
  for(uint64_t i=0;i<pre;i++){ uint64_t d=pk==0?1:pk==1?DL[i%6]:pk==2?63:(KIND==2?i%3==0:1+i%70),x=r.empty()?first:r.back()+d; if(room(x)) push(x); } chk();
  for(uint64_t i=0;i<L;i++){ uint64_t c=sym_conc(sym_rangei("op",i,0,k)); if(c==0){ pop(); if(!r.empty()&&sym_cfg("pop2",0)) pop(); } else { uint64_t d=KIND==2?(c==1?0:DL[c-2]):DL[c-1],x=r.empty()?(c==2?0:d):r.back()+d; if(!room(x)) x=n; if(room(x)&&(r.empty()||r.back()<x||(KIND==2&&r.back()==x))) push(x); } chk(); }
  ST u(s); for(uint64_t i=0;i<r.size()+1;i++) u.pop(); sym_assert(u.empty(),"copy emptied"); chk();
  while(!r.empty()){ pop(); chk(); } pop(); chk(); { uint64_t x=n<70?n:70; push(x); chk(); pop(); chk(); }
  sym_cover("stack"); }
