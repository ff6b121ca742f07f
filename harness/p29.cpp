// P29: 128/256-bit integers against arithmetic on 32-bit digits.
#include "sym.h"
#include <sdsl/int_vector.hpp>
#include <sdsl/uint128_t.hpp>
#include <sdsl/uint256_t.hpp>
#include <sdsl/rrr_helper.hpp>
using namespace sdsl;
#ifndef BW
#define BW 128
#endif
struct dg { uint32_t d[BW/32]; };
enum { N=BW/32 };
#if BW==128
typedef uint128_t T; typedef binomial_coefficients_trait<7> TR;
static T mk(const uint64_t* l){ return (((T)l[1])<<64)|(T)l[0]; }
static uint64_t limb(const T& x,int i){ return i?(uint64_t)(x>>64):(uint64_t)x; }
#else
typedef uint256_t T; typedef binomial_coefficients_trait<8> TR;
static T mk(const uint64_t* l){ return T(l[0],l[1],(((uint128_t)l[3])<<64)|(uint128_t)l[2]); }
static uint64_t limb(T x,int i){ T y=x; if(i==0) return (uint64_t)y; y=x>>(64*i); return (uint64_t)y; }
#endif
static dg D(const uint64_t* l){ dg r; for(int i=0;i<N;i++) r.d[i]=(uint32_t)(l[i/2]>>(32*(i&1))); return r; }
static uint64_t L(const dg& a,int i){ return (uint64_t)a.d[2*i]|((uint64_t)a.d[2*i+1]<<32); }
static void eq(const T& x,const dg& r,const char* w){ for(int i=0;i<BW/64;i++) sym_assert(limb(x,i)==L(r,i),w); }
static dg add(const dg& a,const dg& b){ dg r; uint64_t c=0; for(int i=0;i<N;i++){ c+=(uint64_t)a.d[i]+b.d[i]; r.d[i]=(uint32_t)c; c>>=32; } return r; }
static dg neg(const dg& a){ dg r,one; for(int i=0;i<N;i++){ r.d[i]=~a.d[i]; one.d[i]=i==0; } return add(r,one); }
static dg shl(const dg& a,unsigned s){ dg r; for(int i=0;i<N;i++){ int q=i-(int)(s/32); uint64_t lo=q>=0?a.d[q]:0,lo2=q-1>=0?a.d[q-1]:0; uint64_t v=(lo<<32)|lo2; r.d[i]=(uint32_t)((v<<(s%32))>>32); } return r; }
static dg shr(const dg& a,unsigned s){ dg r; for(int i=0;i<N;i++){ unsigned q=i+s/32; uint64_t lo=q<N?a.d[q]:0,hi=q+1<N?a.d[q+1]:0; r.d[i]=(uint32_t)(((hi<<32)|lo)>>(s%32)); } return r; }
static int cmp(const dg& a,const dg& b){ for(int i=N-1;i>=0;i--){ if(a.d[i]<b.d[i]) return -1; if(a.d[i]>b.d[i]) return 1; } return 0; }
static bool bit(const dg& a,unsigned i){ return (a.d[i/32]>>(i%32))&1; }
extern "C" void __sym_main(){ uint64_t op=sym_cfg("op",0); uint64_t a[4],b[4]; for(int i=0;i<BW/64;i++){ a[i]=sym_ui("a",i,64); b[i]=sym_ui("b",i,64); } for(int i=BW/64;i<4;i++) a[i]=b[i]=0; uint64_t m=sym_cfg("mask",0); if(m){ for(int i=0;i<BW/64;i++) if(!((m>>i)&1)){ a[i]=0; } }
  T x=mk(a),y=mk(b); dg p=D(a),q=D(b); eq(x,p,"value");
  switch(op){
  case 0: { eq(x+y,add(p,q),"+"); T z=x; z+=y; eq(z,add(p,q),"+="); z=x; z-=y; eq(z,add(p,neg(q)),"-="); eq(x-y,add(p,neg(q)),"-"); z=x; z+=x; eq(z,add(p,p),"+= itself"); z=x; z-=z; eq(z,add(p,neg(p)),"-= itself");
#if BW==128
    uint64_t c0[4]={b[0],0,0,0}; dg k=D(c0); eq(x+b[0],add(p,k),"+ 64 bit"); z=x; z+=b[0]; eq(z,add(p,k),"+= 64 bit"); uint64_t c1[4]={a[0]|b[0],a[1],0,0},c2[4]={~a[0],~a[1],0,0}; eq(x|b[0],D(c1),"| 64 bit"); eq(~x,D(c2),"~");
#endif
    uint64_t o[4],n[4]; for(int i=0;i<4;i++){ o[i]=a[i]|b[i]; n[i]=a[i]&b[i]; } eq(x|y,D(o),"|"); eq(x&y,D(n),"&"); z=x; z|=y; eq(z,D(o),"|="); z=y; T u(std::move(z)); eq(u,q,"move"); z=a[0]; uint64_t s[4]={a[0],0,0,0}; eq(z,D(s),"assign 64 bit"); sym_assert((uint64_t)x==a[0],"to 64 bit"); T d0; d0=x; eq(d0,p,"assign"); T one(a[0]); eq(one,D(s),"from 64 bit"); break; }
  case 1: { int c=cmp(p,q); sym_assert((x==y)==(c==0),"=="); sym_assert((x!=y)==(c!=0),"!="); sym_assert((x<y)==(c<0),"<"); sym_assert((x>y)==(c>0),">"); sym_assert((x<=y)==(c<=0),"<="); sym_assert((x>=y)==(c>=0),">="); sym_assert((x==x)&&!(x!=x)&&!(x<x)&&!(x>x)&&(x<=x)&&(x>=x),"compare with itself");
    uint64_t s[4]={b[0],0,0,0}; int e=cmp(p,D(s)); sym_assert((x>b[0])==(e>0),"> 64 bit");
#if BW==128
    sym_assert((x==b[0])==(e==0),"== 64 bit");
#endif
    break; }
  case 2: { sym_merge(0); uint64_t s=sym_conc(sym_range("s",sym_cfg("s0",0),sym_cfg("s1",BW))); 
#ifdef MODE_TI
    if(BW==128&&s==128) break; // shifting the built-in type by its width is undefined
#endif
    eq(x<<(int)s,s>=BW?shl(p,BW):shl(p,s),"<<"); eq(x>>(int)s,s>=BW?shr(p,BW):shr(p,s),">>"); break; }
  case 3: { unsigned c=0; for(int i=0;i<BW/64;i++){ c+=__builtin_popcountll(a[i]); } sym_assert(TR::popcount(x)==c,"popcount (trait)");
#if !defined(MODE_TI)||BW==256
    sym_assert((uint64_t)x.popcount()==c,"popcount");
#endif
    break; }
  case 4: { sym_merge(0); unsigned h=sym_conc(sym_range("h",sym_cfg("s0",0),sym_cfg("s1",BW-1))); sym_assume(bit(p,h)); dg t=shr(p,h); bool z=t.d[0]==1; for(int i=1;i<N;i++) z&=t.d[i]==0; sym_assume(z); sym_assert(TR::hi(x)==h,"hi (trait)");
#if !defined(MODE_TI)||BW==256
    sym_assert(x.hi()==h,"hi");
#endif
    break; }
  case 5: { // select: the i-th one is at position h iff bit h is set and i-1 ones precede it
#if !defined(MODE_TI)||BW==256
    sym_merge(0); uint64_t k=sym_cfg("k",3); dg z; for(int i=0;i<N;i++) z.d[i]=0; unsigned pos[8]; uint64_t l[4]={0,0,0,0}; for(uint64_t i=0;i<k;i++){ uint64_t r=sym_rangei("p",i,0,BW-1); if(i) sym_assume(r>pos[i-1]); pos[i]=sym_conc(r); l[pos[i]/64]|=1ULL<<(pos[i]%64); } T v=mk(l); for(uint64_t i=0;i<k;i++) sym_assert(v.select(i+1)==pos[i],"select"); sym_assert(v.hi()==pos[k-1],"hi"); sym_assert(v.popcount()==k,"popcount");
#endif
    break; }
  case 6: { sym_merge(0); uint64_t len=sym_conc(sym_range("len",sym_cfg("s0",1),sym_cfg("s1",BW))),off=sym_cfg("off",0); bit_vector bv(BW+140,0); for(unsigned i=0;i<(bv.size()+63)/64;i++) bv.set_int(64*i,sym_ui("bg",i,64),i*64+64<=bv.size()?64:bv.size()-64*i); bit_vector o(bv); TR::set_int(bv,off,x,len); T g=TR::get_int(bv,off,len); dg mk1=len>=BW?p:shr(shl(p,BW-len),BW-len); eq(g,mk1,"get_int of set_int");
    for(unsigned i=0;i<(bv.size()+63)/64;i++) for(unsigned j=0;j<64&&64*i+j<bv.size();j++){ unsigned z=64*i+j; if(z==off-1||z==off+len) sym_assert(bv[z]==o[z],"set_int wrote beyond"); else if(z==off||z==off+len-1||z==off+len/2) sym_assert(bv[z]==bit(p,z-off),"set_int"); } break; }
  case 8: { // binomial coefficients follow the recurrence and symmetric sums of the digit arithmetic
    typedef binomial_coefficients<BW-1> BC; int n=sym_cfg("n",BW-1); dg row[2][BW+1]; for(int k=0;k<=n;k++) for(int i=0;i<N;i++) row[0][k].d[i]=0; row[0][0].d[0]=1; int c=0; for(int m=1;m<=n;m++,c^=1) for(int k=0;k<=n;k++){ row[c^1][k]=row[c][k]; if(k) row[c^1][k]=add(row[c][k],row[c][k-1]); } for(int k=0;k<=n;k++) eq(BC::data.table[n][k],row[c][k],"binomial coefficient"); break; }
  }
  sym_cover("wide"); }
