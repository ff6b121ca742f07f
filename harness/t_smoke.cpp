#include "sym.h"
#include <sdsl/bit_vectors.hpp>
using namespace sdsl;
extern "C" void __sym_main(){
  size_t n=sym_cfg("n",64);
  bit_vector b(n,0);
  for(size_t i=0;i<(n+63)/64;i++) b.data()[i]=sym_ui("w",i,(n-64*i)>=64?64:n-64*i);
  rank_support_v<1,1> r(&b);
  size_t cnt=0;
  for(size_t i=0;i<=n;i++){ uint64_t x=r(i); sym_assert(x==cnt,"rank_v"); if(i<n) cnt+=b[i]; }
  select_support_mcl<1,1> s(&b);
  cnt=0;
  for(size_t i=0;i<n;i++){ if(b[i]){ cnt++; sym_assert(s(cnt)==i,"select"); sym_cover("sel"); } }
}
