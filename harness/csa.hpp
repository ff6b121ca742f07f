// Compressed suffix arrays: construction on a RAM file and the naive reference (P19, P20, P26).
#pragma once
#include "txt.hpp"
#include <sdsl/suffix_arrays.hpp>
#include <sdsl/construct.hpp>
#include <map>
using namespace sdsl;
#ifndef CSA
#define CSA csa_wt<>
#endif
typedef CSA csa_t;
struct ref { seq a,e,isa,occ; uint64_t n; std::map<uint64_t,uint64_t> cnt; };
static inline ref mkref(seq a){ a.push_back(0); ref r; r.a=a; r.n=a.size(); r.e=naive_sa(a); r.isa.assign(r.n,0); for(uint64_t i=0;i<r.n;i++){ r.isa[r.e[i]]=i; r.cnt[a[i]]++; } return r; }
// file names of this thread
static inline std::string FN(const char* s){ std::string r(s); if(int t=sym_tid()) r+=t==1?"_t1":"_t2"; return r; }
// an id of its own for every cache a thread uses
static inline std::string FU(const char* s){ static thread_local uint64_t c=0; std::string r=FN(s); if(sym_tid()) r+="_"+std::to_string(++c); return r; }
// a: text without the terminating 0; nb = 0 serialized int_vector, else bytes per symbol ('d': decimal text)
template<class T> static inline void mk(T& x,const seq& a,uint64_t nb,const char* ff="@txt"){ const std::string f=FN(ff); uint64_t n=a.size();
  if(nb==0){ int_vector<IW> t(n,0,IW==8?8:64); for(uint64_t i=0;i<n;i++) t[i]=a[i]; store_to_file(t,f); }
  else if(nb=='d'){ std::string s; for(uint64_t i=0;i<n;i++){ s+=std::to_string(a[i]); s+=' '; } store_to_file(s.c_str(),f); }
  else { std::string s; for(uint64_t i=0;i<n;i++) for(uint64_t b=0;b<nb;b++) s+=(char)(a[i]>>(8*b)); osfstream o(f,std::ios::binary|std::ios::trunc|std::ios::out); o.write(s.data(),s.size()); o.close(); }
  cache_config c(true,"@",FU("x")); if(sym_cfg("sc",0)){ int_vector<> z(2,tsym(0,0),64); z[1]=tsym(0,2); store_to_cache(z,conf::KEY_SAMPLE_CHAR,c); } construct(x,f,c,nb); }
