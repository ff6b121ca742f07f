// Independent specification of bit patterns on a bit sequence.
#pragma once
#include "sym.h"
#include <sdsl/bit_vectors.hpp>
using namespace sdsl;
static inline uint64_t msk(unsigned l){ return l>=64?~0ULL:(1ULL<<l)-1; }
// occurrence of pattern (len 1: bit; len 2: two bits, first bit = earlier position) ending at position i
template<unsigned b,unsigned len> static inline uint64_t occ(const bit_vector& v,uint64_t i){
  uint64_t x=v[i];
  if(len==1) return b?x:1-x;
  if(i==0) return 0;
  uint64_t p=v[i-1]; uint64_t first=b>=10?1:0, second=(b==1||b==11)?1:0;
  return (first?p:1-p)&(second?x:1-x);
}
// a vector of n bits: background pattern, window [wo,wo+wl) symbolic; tail bits beyond n symbolic if asked for
// 4096 positions: the first 4050 spread below a power of two p2, the last 46 close behind it, then gap, then a dense stretch
static inline uint64_t bgpow(uint64_t i,uint64_t n){ uint64_t p2=1; while(p2*4<=n+p2) p2*=2; uint64_t d=(p2-200)/4050; if(i<d*4050) return i%d==d/2; if(i>=p2+8&&i<p2+8+3*46) return (i-p2-8)%3==0; return i+5000>=n&&i+4900<n; }
static inline uint64_t bgbit(uint64_t bg,uint64_t i,uint64_t n){
  if(bg>=25&&bg<=28){ uint64_t x=bgpow(i,n)|(bg>=27&&i?bgpow(i-1,n):0); return (bg==26||bg==28)?1-x:x; }
  switch(bg){ case 0: return 0; case 1: return 1; case 2: return i&1; case 3: return (i*2654435761ULL>>7)&1; case 4: return i%37==0; case 5: return i%37!=0; case 6: return i%29==3||i%29==4; case 7: return (i/100)&1; case 8: return i%600==17; case 9: return (i/4500)&1; case 10: return i<n/2; case 11: return i%6==1; case 12: return i%20==7; case 13: return i<95000?i%20==7:1; case 14: return i%20!=7; case 15: return i%40==7||i%40==8; case 16: return !(i%40==7||i%40==8); case 17: return i==3||i+5>=n; case 18: return !(i==3||i+5>=n); case 19: return i==3||i==4||i+5>=n; case 20: return !(i==3||i==4||i+5>=n); case 21: return i<95000?i%22==7:1; case 22: return !(i<95000?i%22==7:1); case 23: return i<95000?(i%22==7||i%22==8):(i>>1)%2; case 24: return !(i<95000?(i%22==7||i%22==8):(i>>1)%2); } return 0; }
static inline uint64_t bitvars(const char* nm,uint64_t pos,uint64_t len,bool conc=false){ uint64_t x=0; for(uint64_t j=0;j<len;j++){ uint64_t b=sym_ui(nm,pos+j,1); if(conc) b=sym_conc(b); x|=b<<j; } return x; } // one variable per bit
static inline void mkbv(bit_vector& v,uint64_t n,uint64_t bg,uint64_t wo,uint64_t wl,bool tail,const char* nm="w",int bits=0){ // bits: 0 = word variables, 1 = one variable per bit, 2 = every window content is a path from the start
  v=bit_vector(n,0); uint64_t W=v.capacity()>>6;
  for(uint64_t k=0;k<W;k++){ uint64_t x=0; for(uint64_t j=0;j<64;j++) if(64*k+j<n) x|=bgbit(bg,64*k+j,n)<<j; 
    uint64_t lo=wo>64*k?wo-64*k:0, hi=wo+wl>64*k?wo+wl-64*k:0; if(hi>64) hi=64; if(64*k+hi>n) hi=n>64*k?n-64*k:0;
    if(lo<hi){ uint64_t m=msk(hi-lo)<<lo; x=(x&~m)|((bits?bitvars(nm,64*k+lo,hi-lo,bits==2):sym_ui(nm,k,hi-lo))<<lo); }
    if(tail&&k==W-1&&(n&63)) x|=sym_u("tail",64-(n&63))<<(n&63);
    v.data()[k]=x; } }
