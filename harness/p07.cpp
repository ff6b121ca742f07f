// P07: bit_vector_il and hyb_vector.
#include "cbv.hpp"
template<uint32_t bs> static void il(const bit_vector& v,uint64_t wo,uint64_t wl,uint64_t step){ typedef bit_vector_il<bs> B; B b(v); cbv_check<B,rank_support_il<1,bs>,rank_support_il<0,bs>,select_support_il<1,bs>,select_support_il<0,bs>,true>(v,b,wo,wl,step); }
template<uint32_t k> static void hyb(const bit_vector& v,uint64_t wo,uint64_t wl,uint64_t step){ typedef hyb_vector<k> B; B b(v); cbv_check<B,rank_support_hyb<1,k>,rank_support_hyb<0,k>,NoSel<B>,NoSel<B>,false>(v,b,wo,wl,step); }
extern "C" void __sym_main(){
  uint64_t n=sym_cfg("n",64),bg=sym_cfg("bg",0),wo=sym_cfg("wo",0),wl=sym_cfg("wl",n),which=sym_cfg("which",0),step=sym_cfg("step",1);
  sym_merge(0); bit_vector v; if(sym_cfg("long",0)) mklong(v,n,bg,wo,wl); else mkbv(v,n,bg,wo,wl,sym_cfg("tail",0),"w",sym_cfg("conc",0)?2:1);
  switch(which){ case 0: il<64>(v,wo,wl,step); break; case 1: il<128>(v,wo,wl,step); break; case 2: il<256>(v,wo,wl,step); break; case 3: il<512>(v,wo,wl,step); break; case 4: il<1024>(v,wo,wl,step); break; case 5: il<4096>(v,wo,wl,step); break;
    case 10: hyb<8>(v,wo,wl,step); break; case 11: hyb<16>(v,wo,wl,step); break; case 12: hyb<2>(v,wo,wl,step); break; }
}
