// Texts for the suffix-array family (P17-P21) and naive suffix sorting.
#pragma once
#include "sym.h"
#include <vector>
#include <string>
#include <algorithm>
typedef std::vector<uint64_t> seq;
#ifndef IW
#define IW 8
#endif
static const uint64_t TAB[][8]={{97,98,99,100,101,102,103,104},{1,255,128,127,2,254,64,3},{10,200,11,201,12,202,13,203}};
static const uint64_t TAI[][8]={{1,2,3,4,5,6,7,8},{3,1,9,4,2,8,17,30},{5,1000,70000,31,4096,65535,65536,99999},{1,(1ULL<<40)+1,1ULL<<40,(1ULL<<31)+5,1ULL<<62,77,(1ULL<<63)-1,3},{1,~0ULL,1ULL<<63,~0ULL-1,5,(1ULL<<63)+1,77,3}};
static inline uint64_t tsym(uint64_t al,uint64_t j){ return IW==8?TAB[al][j&7]:TAI[al][j&7]; }
static inline uint64_t tbg(uint64_t bg,uint64_t al,uint64_t k,uint64_t n,uint64_t i){ uint64_t h=(i*2654435761ULL)>>13,m=k; switch(bg){
  case 1: return tsym(al,0); case 2: return tsym(al,i&1); case 3: return tsym(al,i%3==2); case 4: return tsym(al,h%2); case 5: return IW==8?1+(h>>3)%255:1+(h>>3)%1000; case 6: { uint64_t p=0,x=i; while(x){ p^=x&1; x>>=1; } return tsym(al,p); } // Thue-Morse
  case 7: { uint64_t a=i+2,f1=1,f2=2; while(f2<=a){ uint64_t s=f1+f2; f1=f2; f2=s; } while(a>2){ if(a>=f1){ a-=f1; } uint64_t t=f2-f1; f2=f1; f1=t; if(f1==1&&f2==2) break; if(f1==0) break; } return tsym(al,a==0||a==2); } // Fibonacci word
  case 8: { uint64_t j=i%(n/2?n/2:1); return tsym(al,((j*2654435761ULL)>>14)%m); } // square ww
  case 9: return tsym(al,(i/17)%m); case 10: return tsym(al,m-1-(i%m)); case 11: return tsym(al,i==n/2?1:0); case 13: return 1+(h>>2)%20; case 14: return 1+(i*101)%255; case 12: return i%5==4?tsym(al,(h>>2)%m):tsym(al,i%5); } return tsym(al,0); }
// the text without the terminating zero
static inline seq gentext(){ uint64_t n=sym_cfg("n",4),k=sym_cfg("k",2),al=sym_cfg("al",0),bg=sym_cfg("bg",0),wo=sym_cfg("wo",0),wl=sym_cfg("wl",n); seq a(n); for(uint64_t i=0;i<n;i++) a[i]=(i>=wo&&i<wo+wl)?tsym(al,sym_conc(sym_rangei("c",i,0,k-1))):tbg(bg,al,k,n,i); return a; }
// naive suffix array of t (t ends with a 0)
struct sufless { const uint64_t* t; uint64_t n; bool operator()(uint64_t a,uint64_t b) const { while(a<n&&b<n){ if(t[a]!=t[b]) return t[a]<t[b]; a++; b++; } return a>b; } };
static inline seq naive_sa(const seq& t){ seq s(t.size()); for(uint64_t i=0;i<s.size();i++) s[i]=i; sufless l{t.data(),t.size()}; std::sort(s.begin(),s.end(),l); return s; }
static inline bool tlook(uint64_t i,uint64_t n){ uint64_t wo=sym_cfg("wo",0),wl=sym_cfg("wl",n),st=sym_cfg("step",1); return n<=60||i<=1||i+2>n||i%st==0||(i+2>wo&&i<wo+wl+2); }
