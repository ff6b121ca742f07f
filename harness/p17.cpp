// P17: suffix array construction, BWT and inverse suffix array against naive suffix sorting.
#include "txt.hpp"
#include <sdsl/construct.hpp>
#include <sdsl/construct_isa.hpp>
using namespace sdsl;
#ifndef ALG
#define ALG 0
#endif
extern "C" void __sym_main(){ sym_merge(0);
  seq a=gentext(); a.push_back(0); uint64_t n=a.size(); seq e=naive_sa(a);
  cache_config c(false,"@","x"); int_vector<IW> t(n,0,IW==8?8:(uint8_t)sym_cfg("tw",64)); for(uint64_t i=0;i<n;i++) t[i]=a[i];
#if IW==0
  if(sym_cfg("tw",64)==0) util::bit_compress(t);
#endif
  store_to_cache(t,key_text_trait<IW>::KEY_TEXT,c);
#if ALG==2   // direct use of the integer suffix sorter on a vector
  { int_vector<> v(t.size(),0,IW==8?8:t.width()); for(uint64_t i=0;i<n;i++) v[i]=a[i]; int_vector<> s; qsufsort::construct_sa(s,v); sym_assert(s.size()==n,"sa size"); for(uint64_t i=0;i<n;i++) sym_assert(s[i]==e[i],"suffix array"); store_to_cache(s,conf::KEY_SA,c); }
#elif ALG==3 // text file with fixed width symbols
  { const char* f="@raw"; std::string raw; uint64_t nb=sym_cfg("nb",1); { osfstream o(f); for(uint64_t i=0;i<n;i++) for(uint64_t b=0;b<nb;b++) o.put((char)(a[i]>>(8*b))); } int_vector<> s; qsufsort::construct_sa(s,f,nb); sym_assert(s.size()==n,"sa size"); for(uint64_t i=0;i<n;i++) sym_assert(s[i]==e[i],"suffix array"); store_to_cache(s,conf::KEY_SA,c); }
#else
  construct_config::byte_algo_sa=ALG?SE_SAIS:LIBDIVSUFSORT; construct_sa<IW>(c);
#endif
  { int_vector<> s; sym_assert(load_from_cache(s,conf::KEY_SA,c),"sa stored"); sym_assert(s.size()==n,"sa size"); for(uint64_t i=0;i<n;i++) sym_assert(s[i]==e[i],"suffix array"); }
  construct_bwt<IW>(c); construct_isa(c);
  { int_vector<IW> b; sym_assert(load_from_cache(b,key_bwt_trait<IW>::KEY_BWT,c),"bwt stored"); sym_assert(b.size()==n,"bwt size"); for(uint64_t i=0;i<n;i++) sym_assert(b[i]==a[e[i]?e[i]-1:n-1],"bwt"); }
  { int_vector<> s; sym_assert(load_from_cache(s,conf::KEY_ISA,c),"isa stored"); sym_assert(s.size()==n,"isa size"); for(uint64_t i=0;i<n;i++) sym_assert(s[e[i]]==i,"isa"); }
  { int_vector<IW> u; sym_assert(load_from_cache(u,key_text_trait<IW>::KEY_TEXT,c),"text kept"); sym_assert(u.size()==n,"text size"); for(uint64_t i=0;i<n;i++) sym_assert(u[i]==a[i],"text unchanged"); }
  sym_cover("sa"); }
