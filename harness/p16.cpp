// P16: range minimum / maximum structures against a scan.
#include "sym.h"
#include <vector>
#include <sdsl/vectors.hpp>
#include <sdsl/bp_support.hpp>
#include <sdsl/rmq_support.hpp>
using namespace sdsl;
#ifndef RMQ
#define RMQ rmq_succinct_sct<>
#endif
#ifndef MINI
#define MINI 1
#endif
#ifndef TIE // 0 any, 1 leftmost, 2 rightmost
#define TIE 1
#endif
typedef RMQ rmq_t;
static uint64_t bg(uint64_t k,uint64_t i,uint64_t n){ uint64_t h=(i*2654435761ULL)>>14; switch(k){ case 1: return 3; case 2: return i; case 3: return n-i; case 4: return h%7; case 5: return i%16; case 6: return (i/10)%4==0?1:8+(h%5); case 7: return i<n/2?i:n-i; case 8: return i<n/2?n-i:i; case 9: return h; } return 2; }
static uint64_t val(uint64_t al,uint64_t x){ static const uint64_t t[]={0,1ULL<<63,~0ULL,77,~0ULL-1,(1ULL<<63)-1,2,1ULL<<32}; return al?t[x]:x; }
extern "C" void __sym_main(){ sym_merge(0);
  uint64_t n=sym_cfg("n",5),k=sym_cfg("k",4),al=sym_cfg("al",0),bk=sym_cfg("bg",0),wo=sym_cfg("wo",0),wl=sym_cfg("wl",n),step=sym_cfg("step",1); int_vector<> v(n,0,64); for(uint64_t i=0;i<n;i++) v[i]=(i>=wo&&i<wo+wl)?val(al,sym_conc(sym_rangei("v",i,0,k-1))):bg(bk,i,n);
  rmq_t q(&v); bool lk=n>30; auto near=[&](uint64_t i){ return !lk||i<2||i+2>=n||(i+2>=wo&&i<wo+wl+2)||i%step==0; };
  if(n) sym_assert(q.size()==n,"size"); for(uint64_t l=0;l<n;l++) if(near(l)){ uint64_t best=l; for(uint64_t r=l;r<n;r++){ uint64_t a=v[r],m=v[best]; bool lt=MINI?a<m:a>m,eq=a==m; if(lt||(TIE==2&&eq)) best=r; if(near(r)){ uint64_t g=q(l,r); sym_assert(g>=l&&g<=r,"position in range"); if(g<=r&&g>=l) sym_assert(v[g]==v[best],"extremal value"); if(TIE) sym_assert(g==best,"leftmost/rightmost position"); } } }
  sym_cover("rmq"); }
