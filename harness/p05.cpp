// P05: rank supports of plain bit vectors.
#include "bvspec.hpp"
template<class R,unsigned b,unsigned len> static void check(const bit_vector& v,uint64_t step){
  R r(&v); uint64_t n=v.size(), c=0; REQUIRE(r.size()==n);
  for(uint64_t i=0;i<=n;i++){ if(i%step==0||i==n||i%64<2||i%64==63){ sym_assert(r(i)==c,"rank"); if(i%128==0) sym_assert(r.rank(i)==c,"rank"); } if(i<n) c+=occ<b,len>(v,i); }
}
template<unsigned b,unsigned len> static void all(uint64_t which,const bit_vector& v,uint64_t step){
  if(which==0) check<rank_support_v<b,len>,b,len>(v,step);
  if(which==1) check<rank_support_v5<b,len>,b,len>(v,step);
  if(which==2) check<rank_support_scan<b,len>,b,len>(v,step);
}
extern "C" void __sym_main(){
  uint64_t n=sym_cfg("n",64),bg=sym_cfg("bg",0),wo=sym_cfg("wo",0),wl=sym_cfg("wl",n),pat=sym_cfg("pat",0),which=sym_cfg("which",0),step=sym_cfg("step",1),how=sym_cfg("how",0);
  bit_vector v; mkbv(v,n,bg,wo,wl,sym_cfg("tail",1));
  if(how==1){ bit_vector u(1,0); uint64_t x[8]; for(uint64_t i=0;i<v.capacity()/64;i++) x[i]=v.data()[i]; u.resize(n); for(uint64_t i=0;i<v.capacity()/64;i++) u.data()[i]=x[i]; v=std::move(u); } // grown by resize
  switch(pat){ case 0: all<0,1>(which,v,step); break; case 1: all<1,1>(which,v,step); break; case 2: all<0,2>(which,v,step); break; case 3: all<1,2>(which,v,step); break; case 4: all<10,2>(which,v,step); break; case 5: all<11,2>(which,v,step); break; }
}
