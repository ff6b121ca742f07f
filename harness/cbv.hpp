// Shared specification of compressed bit vectors: size, access, get_int, rank and select equal those of the plain sequence.
#pragma once
#include "bvspec.hpp"
template<class BV> struct NoSel{ NoSel(const BV*){} uint64_t operator()(uint64_t)const{ return 0; } };
template<class BV,class R1,class R0,class S1,class S0,bool sel> static void cbv_check(const bit_vector& v,const BV& b,uint64_t wo,uint64_t wl,uint64_t step){
  uint64_t n=v.size(); sym_assert(b.size()==n,"size"); R1 r1(&b); R0 r0(&b); S1 s1(&b); S0 s0(&b); uint64_t c[2]={0,0},tot[2]={0,0};
  for(uint64_t i=0;i<n;i++) tot[(bool)v[i]]++;
  auto q=[&](uint64_t i){ return step==1||i%step==0||i%64<2||i+2>=n||(i+20>=wo&&i<=wo+wl+20); }; static const uint8_t lens[]={1,5,31,64,2,63}; unsigned li=0;
  for(uint64_t i=0;i<n;i++){ bool x=v[i]; bool qq=q(i);
    if(qq){ sym_assert((bool)b[i]==x,"access"); sym_assert(r1(i)==c[1],"rank1"); sym_assert(r0(i)==c[0],"rank0");
      for(int k=0;k<2;k++){ uint8_t l=lens[li++%6]; if(l>n-i) l=n-i; if(l){ uint64_t e=0; for(unsigned j=0;j<l;j++) e|=(uint64_t)v[i+j]<<j; sym_assert(b.get_int(i,l)==e,"get_int"); } } }
    c[x]++;
    if(sel&&(qq||c[x]+1>=tot[x])){ sym_cover("sel"); if(x) sym_assert(s1(c[1])==i,"select1"); else sym_assert(s0(c[0])==i,"select0"); } }
  sym_assert(r1(n)==c[1],"rank1(size)"); sym_assert(r0(n)==c[0],"rank0(size)");
  { auto it=b.begin(); uint64_t k=n<12?n:12; for(uint64_t i=0;i<k;i++){ sym_assert((bool)*it==(bool)v[i],"iterator"); ++it; } sym_assert((uint64_t)(b.end()-b.begin())==n,"iterator range"); }
  sym_cover("done");
}
// fast background for long vectors: word k is a function of bg
static inline uint64_t bgword(uint64_t bg,uint64_t k){ switch(bg){ case 0: return 0; case 1: return ~0ULL; case 2: return 0xAAAAAAAAAAAAAAAAULL; case 3: return k*0x9E3779B97F4A7C15ULL; case 4: return k%97==0?1ULL<<(k%64):0; case 5: return k%97==0?~(1ULL<<(k%64)):~0ULL; case 6: return (k/50)%2?~0ULL:0; } return 0; }
static inline void mklong(bit_vector& v,uint64_t n,uint64_t bg,uint64_t wo,uint64_t wl){ // window enumerated path by path
  v=bit_vector(n,0); uint64_t W=n>>6; for(uint64_t k=0;k<W;k++) v.data()[k]=bgword(bg,k); for(uint64_t i=W<<6;i<n;i++) v[i]=bgword(bg,W)>>(i&63)&1;
  for(uint64_t j=0;j<wl&&wo+j<n;j++) v[wo+j]=sym_conc(sym_ui("w",wo+j,1)); }
