// P08: rrr_vector (block size, rac, sampling rate chosen at compile time by the driver).
#include "cbv.hpp"
#ifndef BS
#define BS 15
#define K 2
#endif
extern "C" void __sym_main(){
  uint64_t n=sym_cfg("n",64),bg=sym_cfg("bg",0),wo=sym_cfg("wo",0),wl=sym_cfg("wl",n),step=sym_cfg("step",1);
  sym_merge(0); bit_vector v; mkbv(v,n,bg,wo,wl,sym_cfg("tail",0),"w",sym_cfg("conc",0)?2:1);
  typedef rrr_vector<BS,int_vector<>,K> B; B b(v); cbv_check<B,rank_support_rrr<1,BS,int_vector<>,K>,rank_support_rrr<0,BS,int_vector<>,K>,select_support_rrr<1,BS,int_vector<>,K>,select_support_rrr<0,BS,int_vector<>,K>,true>(v,b,wo,wl,step);
}
