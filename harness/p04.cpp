// P04: utilities on vectors.
#include "sym.h"
#include <sdsl/int_vector.hpp>
#include <sdsl/util.hpp>
using namespace sdsl;
static inline uint64_t msk(unsigned l){ return l>=64?~0ULL:(1ULL<<l)-1; }
extern "C" void __sym_main(){
  uint64_t op=sym_cfg("op",0), lo=sym_cfg("lo",1), hi=sym_cfg("hi",64), n=sym_cfg("n",4);
  if(op==0) for(unsigned w=lo;w<=hi;w++){ // bit_compress: values kept, width minimal
    int_vector<> v(n,0,w); uint64_t m[32],a=0; for(uint64_t i=0;i<n;i++){ m[i]=sym_ui("v",i,64)&msk(w); v[i]=m[i]; a|=m[i]; }
    util::bit_compress(v); sym_merge(0); unsigned nw=sym_conc(v.width()); sym_merge(1);
    REQUIRE(v.size()==n); sym_assert(a<=msk(nw),"bit_compress: width large enough"); sym_assert(nw==1||(a>>(nw-1))!=0,"bit_compress: width minimal"); for(uint64_t i=0;i<n;i++) sym_assert(v[i]==m[i],"bit_compress: value kept"); sym_cover("bc"); }
  if(op==1) for(unsigned w=lo;w<=hi;w++) for(unsigned nw=w;nw<=64;nw+=(nw<w+3||nw>60)?1:7){
    int_vector<> v(n,0,w); uint64_t m[32]; for(uint64_t i=0;i<n;i++){ m[i]=sym_ui("v",i,64)&msk(w); v[i]=m[i]; }
    util::expand_width(v,nw); REQUIRE(v.width()==nw); REQUIRE(v.size()==n); for(uint64_t i=0;i<n;i++) sym_assert(v[i]==m[i],"expand_width: value kept"); }
  if(op==2) for(unsigned w=lo;w<=hi;w++){
    uint64_t k=sym_u("k",64)&msk(w); for(uint64_t nn:{(uint64_t)0,(uint64_t)1,n,(uint64_t)67}){ if(nn*w>1400) nn=1400/w; int_vector<> v(nn,0,w); util::set_to_value(v,k); REQUIRE(v.size()==nn&&v.width()==w); for(uint64_t i=0;i<nn;i++) sym_assert(v[i]==k,"set_to_value"); 
      int_vector<> d(nn,k,w); for(uint64_t i=0;i<nn;i++) sym_assert(d[i]==k,"constructor default"); 
      util::set_to_id(v); for(uint64_t i=0;i<nn;i++) sym_assert(v[i]==(i&msk(w)),"set_to_id");
      util::_set_one_bits(v); for(uint64_t i=0;i<nn;i++) sym_assert(v[i]==msk(w),"_set_one_bits"); util::_set_zero_bits(v); for(uint64_t i=0;i<nn;i++) sym_assert(v[i]==0,"_set_zero_bits"); } }
  if(op==3){ // modulo (division is expensive for the solver: width-bounded)
    unsigned w=lo; int_vector<> v(n,0,w); uint64_t m[32]; for(uint64_t i=0;i<n;i++){ m[i]=sym_ui("v",i,w); v[i]=m[i]; } uint64_t d=sym_range("m",1,sym_cfg("mmax",9)); sym_merge(0); d=sym_conc(d); sym_merge(1);
    util::mod(v,d); for(uint64_t i=0;i<n;i++){ uint64_t e=m[i]; for(uint64_t q=0;q<=(msk(w)/d);q++) e=e>=d?e-d:e; sym_assert(v[i]==e,"mod"); } }
  if(op==4){ // counts on bit vectors, bits beyond the size arbitrary (as flip() leaves them)
    bit_vector b(n,0); uint64_t W=b.capacity()>>6; for(uint64_t i=0;i<W;i++) b.data()[i]=sym_ui("w",i,64);
    uint64_t o=0,oz=0,zo=0; for(uint64_t i=0;i<n;i++){ uint64_t x=b[i]; o+=x; uint64_t p=i?(uint64_t)b[i-1]:2; if(i){ oz+=p&(1-x); zo+=(1-p)&x; } }
    sym_assert(util::cnt_one_bits(b)==o,"cnt_one_bits"); sym_assert(util::cnt_onezero_bits(b)==oz,"cnt_onezero_bits"); sym_assert(util::cnt_zeroone_bits(b)==zo,"cnt_zeroone_bits"); }
  if(op==5){ bit_vector b(n,0); uint64_t W=b.capacity()>>6; for(uint64_t i=0;i<W;i++) b.data()[i]=sym_ui("w",i,64); if(!sym_cfg("tail",0)&&(n&63)) b.data()[W-1]&=msk(n&63);
    uint64_t i=sym_range("i",0,n-1); sym_merge(0); i=sym_conc(i); sym_merge(1); uint64_t nx=n,pv=n; for(uint64_t k=n;k-->i;) nx=b[k]?k:nx; for(uint64_t k=0;k<=i;k++) pv=b[k]?k:pv;
    sym_assert(util::next_bit(b,i)==nx,"next_bit"); sym_assert(util::prev_bit(b,i)==pv,"prev_bit"); sym_cover("np"); }
}
