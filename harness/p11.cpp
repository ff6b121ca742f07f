// P11: compressed integer vectors and the permutation-inverse support.
#include "sym.h"
#include <vector>
#include <sdsl/vectors.hpp>
#include <sdsl/coder.hpp>
#include <sdsl/coder_comma.hpp>
#include <sdsl/inv_perm_support.hpp>
using namespace sdsl;
#ifndef VEC
#define VEC enc_vector<>
#define KIND 0
#endif
// a value of class k: 0, or 2^(k-1) plus any lower bits
static uint64_t cls(const char* nm,uint64_t i,const uint8_t* ks,unsigned nk){ uint64_t k=ks[sym_conc(sym_rangei("k",i,0,nk-1))]; if(k==0) return 0; uint64_t x=1ULL<<(k-1); if(k>1){ if(sym_cfg("sy",0)) x|=sym_ui(nm,i,63)&((1ULL<<(k-1))-1); else { uint64_t d=sym_conc(sym_ui(nm,i,1)); x|=(d?~(1ULL<<(k/2)):(1ULL<<(k/3)))&((1ULL<<(k-1))-1); } } return x; }
static const uint8_t K[]={0,1,2,5,9,17,33,63,64};
static const uint8_t KS[]={0,1,3,8,16};
static uint64_t bgval(uint64_t bg,uint64_t i){ uint64_t h=i*2654435761ULL; switch(bg){ case 0: return 1; case 1: return 0; case 2: return (h>>9)&7; case 3: return i%11==5?(h<<13)>>(i%40):(h>>7)&3; case 4: return 1+(h>>20&255); case 5: return i%64==63?1ULL<<40:1; case 6: return ~0ULL>>(i%64); } return 1; }
template<class V> static void rd(const V& v,const std::vector<uint64_t>& a){ uint64_t n=a.size(); sym_assert(v.size()==n,"size"); sym_assert(v.empty()==(n==0),"empty"); for(uint64_t i=0;i<n;i++) sym_assert((uint64_t)v[i]==a[i],"element");
  uint64_t i=0; auto it=v.begin(); for(;i<n&&i<6;++it,++i) sym_assert((uint64_t)*it==a[i],"iterator"); sym_assert((uint64_t)(v.end()-v.begin())==n,"iterator range"); if(n) { auto e=v.end(); --e; sym_assert((uint64_t)*e==a[n-1],"iterator from the end"); } sym_cover("vec"); }
#if KIND==0
static void extra(const VEC& v,const std::vector<uint64_t>& a){ uint64_t d=v.get_sample_dens(); std::vector<uint64_t> t(d+1); for(uint64_t s=0;s*d<a.size();s++){ sym_assert(v.sample(s)==a[s*d],"sample"); v.get_inter_sampled_values(s,t.data()); for(uint64_t j=0;j<d&&s*d+j<a.size();j++) sym_assert(a[s*d]+t[j]==a[s*d+j],"inter sampled values"); } }
#else
template<class V> static void extra(const V&,const std::vector<uint64_t>&){}
#endif
extern "C" void __sym_main(){
  uint64_t n=sym_cfg("n",3),wo=sym_cfg("wo",0),wl=sym_cfg("wl",n),bg=sym_cfg("bg",0),small=sym_cfg("small",0),cont=sym_cfg("cont",0); sym_merge(0);
#if KIND==4
  if(sym_cfg("op",0)==0){ // every permutation of n, or every permutation of wl positions inside a cyclic background
    int_vector<> p(n,0,bits::hi(n|1)+1); std::vector<uint64_t> c; for(uint64_t i=0;i<n;i++) p[i]=bg==0?i:bg==1?(i+1)%n:bg==2?(i*7+3)%n:n-1-i; // 7 must not divide n
    std::vector<uint64_t> q; for(uint64_t i=wo;i<wo+wl;i++) q.push_back(p[i]); for(uint64_t i=0;i<wl;i++){ uint64_t j=i+sym_conc(sym_rangei("s",i,0,wl-1-i)); std::swap(q[i],q[j]); } for(uint64_t i=0;i<wl;i++) p[wo+i]=q[i];
    VEC s(&p); sym_assert(s.size()==n,"size"); for(uint64_t i=0;i<n;i++){ uint64_t j=s[i]; sym_assert(j<n&&p[j]==i,"inverse"); } uint64_t k=0; for(auto it=s.begin();k<n&&k<8;++it,++k) sym_assert(p[*it]==k,"iterator"); sym_cover("vec"); }
#else
  std::vector<uint64_t> a(n); uint64_t lim=sym_cfg("w",64); 
  for(uint64_t i=0;i<n;i++){ uint64_t x=(i>=wo&&i<wo+wl)?cls("x",i,small?KS:K,small?5:(lim>=64?9:6)):bgval(bg,i); if(lim<64) x&=(1ULL<<lim)-1; a[i]=KIND==0&&i&&!sym_cfg("free",0)?a[i-1]+x:x;
#if KIND==1
    if(a[i]==~0ULL) { sym_assume(0); }
#endif
  }
  if(cont==0){ VEC v(a); rd(v,a); extra(v,a); }
  else { int_vector<> b(n,0,lim); for(uint64_t i=0;i<n;i++){ b[i]=a[i]; a[i]=b[i]; } VEC v(b); rd(v,a); extra(v,a); }
#endif
}
