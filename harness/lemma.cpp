// Lemmas: leaf bit operations equal their specification for every argument.  A lemma that is proved on the
// current tree enables the corresponding summary in the executor.
#include "sym.h"
#include <sdsl/bits.hpp>
using namespace sdsl;
extern "C" uint64_t __sym_popcount(uint64_t);
extern "C" void __sym_main(){
  uint64_t k=sym_cfg("lemma",1), x=sym_u("x",64);
  if(k==1){ uint64_t s=0; for(int i=0;i<64;i++) s+=(x>>i)&1; sym_assert(bits::cnt(x)==s,"lemma cnt"); }
  if(k==2){ uint64_t s=0; for(int i=0;i<64;i++) s=((x>>i)&1)?i:s; sym_assert(bits::hi(x)==s,"lemma hi"); }
  if(k==3){ sym_assume(x!=0); uint64_t s=63; for(int i=62;i>=0;i--) s=((x>>i)&1)?i:s; sym_assert(bits::lo(x)==s,"lemma lo"); }
  if(k==4){ // the result r satisfies: bit r is set and exactly i-1 bits below r are set (this determines r)
    uint32_t i=sym_range("i",sym_cfg("ilo",1),sym_cfg("ihi",64)); uint32_t c=0; for(int p=0;p<64;p++) c+=(x>>p)&1; sym_assume(i<=c); sym_merge(0); i=sym_conc(i);
    uint32_t r=bits::sel(x,i); REQUIRE(r<64); uint32_t q=sym_conc(r>>3), t=r&7, pre=0; for(uint32_t p=0;p<8*q;p++) pre+=(x>>p)&1;
    pre=sym_conc(pre); uint32_t byte=(x>>(8*q))&255, b=pre; for(uint32_t j=0;j<8;j++) b+=((byte>>j)&1)&(j<t);
    sym_assert(((byte>>t)&1)&(b==i-1),"lemma sel"); }
}
