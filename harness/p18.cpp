// P18: LCP construction and LCP containers against naive longest common prefixes.
#include "txt.hpp"
#include <sdsl/construct.hpp>
#include <sdsl/construct_lcp.hpp>
#include <sdsl/construct_lcp_helper.hpp>
#include <sdsl/lcp.hpp>
#include <sdsl/suffix_arrays.hpp>
using namespace sdsl;
#ifndef ALG
#define ALG construct_lcp_kasai<8>
#endif
#ifdef LCPC
typedef LCPC L;
static void test(const L& l,const seq& h){ uint64_t n=h.size(); sym_assert(l.size()==n,"size"); sym_assert(l.empty()==(n==0),"empty"); for(uint64_t i=0;i<n;i++) if(tlook(i,n)) sym_assert(l[i]==h[i],"lcp value"); uint64_t i=0; for(auto v:l){ if(tlook(i,n)) sym_assert(v==h[i],"iterator"); i++; } sym_assert(i==n,"iterator range"); }
#endif
extern "C" void __sym_main(){ sym_merge(0); cache_config c(false,"@","x"); seq h;
#ifndef LCPC
  { seq a=gentext(); a.push_back(0); uint64_t n=a.size(); seq e=naive_sa(a); h.assign(n,0); for(uint64_t i=1;i<n;i++){ uint64_t p=e[i-1],q=e[i]; while(p<n&&q<n&&a[p]==a[q]){ p++; q++; h[i]++; } }
    int_vector<IW> t(n,0,IW==8?8:64); for(uint64_t i=0;i<n;i++) t[i]=a[i];
#if IW==0
    if(sym_cfg("tw",64)==0) util::bit_compress(t);
#endif
    store_to_cache(t,key_text_trait<IW>::KEY_TEXT,c); int_vector<> s(n,0,bits::hi(n)+1); int_vector<IW> b(n,0,t.width()); for(uint64_t i=0;i<n;i++){ s[i]=e[i]; b[i]=a[e[i]?e[i]-1:n-1]; } store_to_cache(s,conf::KEY_SA,c); store_to_cache(b,key_bwt_trait<IW>::KEY_BWT,c); }
  ALG(c);
  { int_vector<> l; sym_assert(load_from_cache(l,conf::KEY_LCP,c),"lcp stored"); sym_assert(l.size()==h.size(),"lcp size"); for(uint64_t i=0;i<h.size();i++) sym_assert(l[i]==h[i],"lcp"); }
  sym_cover("lcp");
#else
  static const uint64_t V[]={0,1,254,255,256,65535,1ULL<<20,(1ULL<<31)+7,(1ULL<<33)+1,2,128,127}; uint64_t n=sym_cfg("n",4),k=sym_cfg("k",4),wo=sym_cfg("wo",0),wl=sym_cfg("wl",n),bg=sym_cfg("bg",0),mx=0; h.assign(n,0);
  for(uint64_t i=0;i<n;i++){ uint64_t r=(i*2654435761ULL)>>12; h[i]=(i>=wo&&i<wo+wl)?V[sym_conc(sym_rangei("v",i,0,k-1))]:bg==1?255:bg==2?254+i%3:bg==3?r%17:bg==4?i:bg==5?(r%13==0?r%1000:r%5):bg==6?(i%2)*300:bg==7?255+i:0; mx=std::max(mx,h[i]); }
  int_vector<> s(n,0,bits::hi(mx)+1); for(uint64_t i=0;i<n;i++) s[i]=h[i]; store_to_cache(s,conf::KEY_LCP,c);
  { L l(c); test(l,h); L m(l); { L x(std::move(l)); test(x,h); } test(m,h); store_to_file(m,"@lc"); L u; load_from_file(u,"@lc"); test(u,h); L z; z=u; u.swap(m); test(z,h); test(u,h); z=std::move(u); test(z,h); }
  sym_cover("lcp");
#endif
}
