// P10: self-delimiting codes.
#include "sym.h"
#include <sdsl/int_vector.hpp>
#include <sdsl/coder.hpp>
#include <sdsl/coder_comma.hpp>
using namespace sdsl;
#ifndef CODER
#define CODER coder::elias_delta
#define ZERO 1
#endif
typedef CODER CD;
static const uint64_t FILL=0xA5C3F00F5AA53C96ULL;
// encode x at bit offset off of a buffer with known content, check length, position, decode, and that bits before are untouched
static void one(uint64_t x,uint8_t off){
  uint64_t buf[6]; for(int i=0;i<6;i++) buf[i]=FILL; uint64_t* p=buf; uint8_t o=off; CD::encode(x,p,o); uint64_t L=CD::encoding_length(x);
  sym_assert((uint64_t)(p-buf)*64+o==off+L,"announced length equals the bits written"); if(off) sym_assert((buf[0]&((1ULL<<off)-1))==(FILL&((1ULL<<off)-1)),"bits before the code are untouched");
  uint64_t y=CD::template decode<false,false,uint64_t*>(buf,off,1); sym_assert(y==x,"single value round trip"); uint64_t z=0; CD::template decode<false,true,uint64_t*>(buf,off,1,&z); sym_assert(z==x,"round trip through an iterator"); sym_cover("one"); }
static uint64_t alpha(uint64_t k){ static const uint64_t A[]={1,2,3,4,8,5,15,16,21,255,256,1000,65535,65536,(1ULL<<32)-1,1ULL<<40,(1ULL<<62)+12345,~0ULL,0}; return A[k%19]; }
static uint64_t bgval(uint64_t bg,uint64_t i){ switch(bg){ case 0: return 1; case 1: return 1+i%3; case 2: return alpha((i*7+3)%18); case 3: return i%70==69?5:1; case 4: return i%7==3?200:1; case 5: return 1+(i*2654435761ULL>>5)%40; } return 1; }
extern "C" void __sym_main(){
  uint64_t op=sym_cfg("op",0); sym_merge(0);
  if(op==0){ // x = 2^k + any k low bits
    uint64_t lo=sym_cfg("lo",0),hi=sym_cfg("hi",63); for(uint64_t k=lo;k<=hi;k++){ uint64_t x=1ULL<<k; if(k) x|=sym_ui("x",k,k); for(uint8_t off:{0,1,29,63}) one(x,off); } if(ZERO||0) { one(0,0); one(0,17); } }
  else if(op==1){ // windows around chosen values
    uint64_t lo=sym_cfg("lo",0),hi=sym_cfg("hi",10); for(uint64_t k=lo;k<=hi;k++){ uint64_t f=1,g=1; for(uint64_t i=0;i<k;i++){ uint64_t h=f+g; f=g; g=h; } uint64_t base=k<92?g:k==92?0-16ULL:0-(1ULL<<63); base-=4; uint64_t x=base+sym_conc(sym_ui("d",0,3)); if(!ZERO&&x==0) continue; if(k<5&&(int64_t)x<(ZERO?0:1)) continue; for(uint8_t off:{0,5,63}) one(x,off); }
    { uint64_t lg=sym_conc(sym_range("lg",3,63)); uint64_t x=(1ULL<<lg)-2+sym_conc(sym_u("e",2)); one(x,9); } }
  else { // sequences
    uint64_t n=sym_cfg("n",3),bg=sym_cfg("bg",2),wo=sym_cfg("wo",0),wl=sym_cfg("wl",3),width=sym_cfg("w",64),na=sym_cfg("na",19),step=sym_cfg("step",1);
    int_vector<> v(n,0,width); uint64_t m=width<64?(1ULL<<width)-1:~0ULL; bool zeros=false;
    for(uint64_t i=0;i<n;i++){ uint64_t x; if(i>=wo&&i<wo+wl) x=alpha(sym_conc(sym_rangei("a",i,0,na-1))); else x=bgval(bg,i); x&=m; if(x==0) zeros=true; v[i]=x; }
    int_vector<> z; z.width(width); sym_assert(CD::encode(v,z),"encode reports success"); std::vector<uint64_t> st(n+1,0); uint64_t tot=0; for(uint64_t i=0;i<n;i++){ uint64_t x=v[i]; if(x==0&&ZERO) x=width<64?1ULL<<width:0; st[i]=tot; tot+=CD::encoding_length(x); } st[n]=tot;
    sym_assert(z.bit_size()==tot,"size of the encoded vector"); int_vector<> u; CD::decode(z,u); sym_assert(u.size()==n,"decoded size"); sym_assert(u.width()==width,"decoded width"); for(uint64_t i=0;i<n&&i<u.size();i++) sym_assert(u[i]==v[i],"decoded element"); sym_cover("seq");
    if(!zeros) for(uint64_t s=0;s<n;s+=(s+2>=wo&&s<=wo+wl)||step==1?1:step){ uint64_t sum=0; for(uint64_t j=0;s+j<=n;j++){ if(j) sum+=v[s+j-1];
        if(step==1||j<3||j%step==0||(s+j+2>=wo&&s+j<=wo+wl+2)||s+j==n||(j>60&&j<70)){ sym_assert(CD::decode_prefix_sum(z.data(),st[s],j)==sum,"prefix sum"); sym_assert(CD::decode_prefix_sum(z.data(),st[s],st[s+j],j)==sum,"prefix sum with end"); if(j&&bg<4){ sym_assert((CD::template decode<true,false,uint64_t*>(z.data(),st[s],j))==sum,"summed decode"); sym_assert((CD::template decode<false,false,uint64_t*>(z.data(),st[s],j))==v[s+j-1],"skipping decode"); } } } }
  }
}
