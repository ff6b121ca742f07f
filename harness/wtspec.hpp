// Texts and reference answers for the wavelet checks (P12-P14).
#pragma once
#include "sym.h"
#include <vector>
#include <string>
#include <algorithm>
#include <sdsl/wavelet_trees.hpp>
using namespace sdsl;
#ifndef WTT
#define WTT sdsl::wt_huff<>
#define IW 8
#endif
typedef WTT wt_t;
typedef std::vector<uint64_t> seq;
static const uint64_t ALB[][8]={{97,98,99,100,101,102,103,104},{0,1,2,255,254,3,4,5},{255,128,127,64,32,16,8,0},{10,200,11,201,12,202,13,203}};
static const uint64_t ALI[][8]={{0,1,2,3,4,5,6,7},{1,3,4,9,2,8,17,30},{5,1000,70000,31,4096,65535,65536,99999},{1,0,1ULL<<40,(1ULL<<31)+5,1ULL<<63,77,~0ULL,3},{7,7+8,7+16,7+32,0,63,62,61},{0,5,10,15,20,25,30,35},{130,2,300,129,128,127,511,0}};
static inline uint64_t alsym(uint64_t al,uint64_t j){ return IW==8?ALB[al][j]:ALI[al][j]; }
// background sequences: symbols drawn from the alphabet index range 0..k-1 (or beyond it)
static inline uint64_t bgsym(uint64_t bg,uint64_t al,uint64_t k,uint64_t i){ uint64_t h=(i*2654435761ULL)>>13; switch(bg){
  case 1: return alsym(al,i%k); case 2: return alsym(al,(i/23)%k); case 3: return IW==8?(h%7==0?(h>>4)&255:65+(h>>4)%5):(h%7==0?(h>>4)%300:(h>>4)%5);
  case 4: return IW==8?(i*37+(i>>8))&255:(i*37)%211; case 5: return alsym(al,0); case 6: { uint64_t t=i%233,f1=1,f2=1,j=0; while(t>=f1){ t-=f1; uint64_t s=f1+f2; f1=f2; f2=s; j++; } return IW==8?40+5*j:j*3; } // Fibonacci frequencies: deep codes
  case 7: return alsym(al,(i/70)%k); case 8: return (h>>3)%k<k/2?alsym(al,0):alsym(al,h%k); } return alsym(al,0); }
static inline seq gen(uint64_t& alo){ uint64_t n=sym_cfg("n",4),k=sym_cfg("k",3),al=sym_cfg("al",0),bg=sym_cfg("bg",0),wo=sym_cfg("wo",0),wl=sym_cfg("wl",n); alo=al; seq a(n); for(uint64_t i=0;i<n;i++) a[i]=(i>=wo&&i<wo+wl)?alsym(al,sym_conc(sym_rangei("c",i,0,k-1))):bgsym(bg,al,k,i); return a; }
static inline wt_t build(const seq& a,uint64_t extra=0){ uint64_t n=a.size(); uint64_t mx=1; for(auto x:a) mx=std::max(mx,x); sdsl::int_vector<IW> t(n+extra,1,IW==8?8:sdsl::bits::hi(mx)+1); for(uint64_t i=0;i<n;i++) t[i]=a[i]; sdsl::store_to_file(t,"@t"); sdsl::int_vector_buffer<IW> b("@t",std::ios::in,64,IW==8?8:64,false); wt_t w(b,n); return w; }
static inline std::vector<uint64_t> distinct(const seq& a){ std::vector<uint64_t> d(a); std::sort(d.begin(),d.end()); d.erase(std::unique(d.begin(),d.end()),d.end()); return d; }
// positions of interest
static inline bool look(uint64_t i,uint64_t n){ uint64_t wo=sym_cfg("wo",0),wl=sym_cfg("wl",n),st=sym_cfg("step",1); return n<=40||i<=1||i+2>n||i%st==0||(i+2>wo&&i<wo+wl+2); }
