// P06: select supports of plain bit vectors.
#include "bvspec.hpp"
// all arguments of a vector given by its content: position of the i-th occurrence is a function of the content only
template<class S,unsigned b,unsigned len> static void check(const bit_vector& v,uint64_t mode,uint64_t wo,uint64_t wl){
  uint64_t n=v.size();
  if(mode==0){ // merged paths: fully symbolic content
    int o=sym_merge(1); static uint64_t c[4096]; uint64_t t=0; for(uint64_t i=0;i<n;i++){ c[i]=t; t+=occ<b,len>(v,i); }
    uint64_t i=sym_range("i",1,n); sym_assume(i<=t); uint64_t e=0; for(uint64_t p=0;p<n;p++){ uint64_t h=occ<b,len>(v,p)&(c[p]==i-1); e|=p&(0-h); }
    S s(&v); sym_cover("sel"); sym_assert(s(i)==e,"select"); sym_assert(s.select(i)==e,"select"); sym_merge(o);
  } else { // every content of the symbolic window is a path of its own
    sym_merge(0); S s(&v); uint64_t t=0,step=sym_cfg("step",1),tot=0; for(uint64_t i=0;i<n;i++) tot+=occ<b,len>(v,i);
    for(uint64_t i=0;i<n;i++) if(occ<b,len>(v,i)){ t++; if(t%step==0||t%4096<3||t%4096>4094||(t%64<2&&step<64)||(i+40>=wo&&i<=wo+wl+40)||t>=tot-2){ sym_cover("sel"); sym_assert(s(t)==i,"select"); } }
  }
}
template<unsigned b,unsigned len> static void all(uint64_t which,const bit_vector& v,uint64_t mode,uint64_t wo,uint64_t wl);
template<unsigned b,unsigned len,bool scan> struct Sel{ static void go(uint64_t which,const bit_vector& v,uint64_t mode,uint64_t wo,uint64_t wl){ if(which==0) check<select_support_mcl<b,len>,b,len>(v,mode,wo,wl); else go2(v,mode,wo,wl); }
  static void go2(const bit_vector& v,uint64_t mode,uint64_t wo,uint64_t wl){ check<select_support_scan<b,len>,b,len>(v,mode,wo,wl); } };
template<unsigned b,unsigned len> struct Sel<b,len,false>{ static void go(uint64_t,const bit_vector& v,uint64_t mode,uint64_t wo,uint64_t wl){ check<select_support_mcl<b,len>,b,len>(v,mode,wo,wl); } };
extern "C" void __sym_main(){
  uint64_t n=sym_cfg("n",64),bg=sym_cfg("bg",0),wo=sym_cfg("wo",0),wl=sym_cfg("wl",n),pat=sym_cfg("pat",0),which=sym_cfg("which",0),mode=sym_cfg("mode",0);
  bit_vector v; mkbv(v,n,bg,wo,wl,sym_cfg("tail",1),"w",mode==1);
  switch(pat){ case 0: Sel<0,1,true>::go(which,v,mode,wo,wl); break; case 1: Sel<1,1,true>::go(which,v,mode,wo,wl); break; case 2: Sel<0,2,false>::go(which,v,mode,wo,wl); break; case 3: Sel<1,2,true>::go(which,v,mode,wo,wl); break; case 4: Sel<10,2,true>::go(which,v,mode,wo,wl); break; case 5: Sel<11,2,false>::go(which,v,mode,wo,wl); break; }
}
