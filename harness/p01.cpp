// P01: 64-bit word primitives against their definitions, bit by bit.
#include "sym.h"
#include <sdsl/bits.hpp>
using namespace sdsl;
#define B(x,i) (((x)>>(i))&1)
extern "C" void __sym_main(){
  uint64_t op=sym_cfg("op",0);
  if(op==0){ uint64_t x=sym_u("x",64),s=0; for(int i=0;i<64;i++) s+=B(x,i); REQUIRE(bits::cnt(x)==s);
    s=0; for(int i=0;i<32;i++) s+=B(x,i); REQUIRE(bits::cnt32((uint32_t)x)==s); }
  if(op==1){ uint64_t x=sym_u("x",64),h=0,l=0; for(int i=0;i<64;i++) h=B(x,i)?i:h; for(int i=63;i>=0;i--) l=B(x,i)?i:l; REQUIRE(bits::hi(x)==h); REQUIRE(bits::lo(x)==l); }
  if(op==2){ uint64_t x=sym_u("x",64),c0=sym_u("c",1),c=c0,s=0,p=c0,m=0; for(int i=0;i<64;i++){ s+=p&~B(x,i)&1; m|=(p&~B(x,i)&1)<<i; p=B(x,i); }
    REQUIRE(bits::cnt10(x,c)==s); REQUIRE(c==B(x,63)); REQUIRE(bits::map10(x,c0)==m); 
    uint64_t d=c0; s=0;m=0;p=c0; for(int i=0;i<64;i++){ s+=(1-p)&B(x,i); m|=((1-p)&B(x,i))<<i; p=B(x,i); } 
    REQUIRE(bits::cnt01(x,d)==s); REQUIRE(d==B(x,63)); REQUIRE(bits::map01(x,c0)==m);
    m=0; p=0; for(int i=0;i<64;i++){ m|=(p&~B(x,i)&1)<<i; p=B(x,i); } REQUIRE(bits::map10(x)==m);
    m=0; p=1; for(int i=0;i<64;i++){ m|=((1-p)&B(x,i))<<i; p=B(x,i); } REQUIRE(bits::map01(x)==m); }
  if(op==3){ // i-th set bit; the result is determined by: bit r set, i-1 set bits below
    uint64_t x=sym_u("x",64); uint32_t i=sym_range("i",sym_cfg("ilo",1),sym_cfg("ihi",64)); uint32_t c=0; for(int p=0;p<64;p++) c+=B(x,p); sym_assume(i<=c); sym_merge(0); i=sym_conc(i);
    uint32_t r=bits::sel(x,i); REQUIRE(r<64); uint32_t q=sym_conc(r>>3), t=r&7, pre=0; for(uint32_t p=0;p<8*q;p++) pre+=B(x,p);
    pre=sym_conc(pre); uint32_t byte=(x>>(8*q))&255, b=pre; for(uint32_t j=0;j<8;j++) b+=B(byte,j)&(j<t);
    sym_assert(B(byte,t)&(b==i-1),"sel"); sym_cover("sel"); }
  if(op==4){ // terminating 11 patterns: counts, carry, on the window [0,w)
    uint64_t w=sym_cfg("w",64), sh=sym_cfg("sh",0), bg=sym_cfg("bg",0); uint64_t m=w>=64?~0ULL:((1ULL<<w)-1)<<sh; uint64_t x=(sym_u("x",w)<<sh)|(bg?(0xAAAAAAAAAAAAAAAAULL*(bg==1)|0xFFFFFFFFFFFFFFFFULL*(bg==2)|0x6DB6DB6DB6DB6DB6ULL*(bg==3))&~m:0); uint64_t c0=sym_u("c",1),c=c0; uint64_t s=0,p=c0,z=0,y=0;
    for(int i=0;i<64;i++){ uint64_t t=p&B(x,i); s+=t; p=B(x,i)&~t; } for(int i=0;i<64;i++){ uint64_t t=y&B(x,i); z+=t; y=B(x,i)&~t; }
    REQUIRE(bits::cnt11(x,c)==s); REQUIRE(c==p); REQUIRE(bits::cnt11(x)==z); }
  if(op==5){ // terminating 11 patterns: positions
    uint64_t w=sym_cfg("w",12), sh=sym_cfg("sh",0); uint64_t x=sym_u("x",w)<<sh; uint64_t c0=sym_cfg("carry",1)?sym_u("c",1):0; uint64_t p=c0,k=0,last=0; sym_merge(0); x=sym_conc(x>>sh)<<sh; c0=sym_conc(c0); p=c0;
    for(int i=0;i<64;i++){ uint64_t t=p&B(x,i); if(t){ k++; REQUIRE(bits::sel11(x,k,c0)==(uint32_t)i); last=i; sym_cover("sel11"); } p=B(x,i)&~t; }
    if(c0==0) REQUIRE(bits::hi11(x)==last); }
  if(op==6){ uint64_t x=sym_u("x",64),m=0; for(int i=0;i<64;i++) m|=B(x,i)<<(63-i); REQUIRE(bits::rev(x)==m); }
  if(op==7){ // next / previous set bit over four words
    uint64_t nw=sym_cfg("nw",4); uint64_t a[8]; for(uint64_t i=0;i<nw;i++) a[i]=sym_ui("w",i,64);
    uint64_t idx=sym_range("idx",0,64*nw-1); sym_merge(0); idx=sym_conc(idx); sym_merge(1);
    uint64_t nx=~0ULL,pv=~0ULL; for(uint64_t i=64*nw;i-->idx;) nx=(a[i/64]>>(i%64))&1?i:nx; for(uint64_t i=0;i<=idx;i++) pv=(a[i/64]>>(i%64))&1?i:pv;
    if(nx!=~0ULL){ REQUIRE(bits::next(a,idx)==nx); sym_cover("next"); } if(pv!=~0ULL){ REQUIRE(bits::prev(a,idx)==pv); sym_cover("prev"); } }
}
