// P02: packed integer cells.  Words, values: symbolic. Offsets, lengths, widths, indices: all, one by one.
#include "sym.h"
#include <sdsl/int_vector.hpp>
using namespace sdsl;
static inline uint64_t msk(unsigned l){ return l>=64?~0ULL:(1ULL<<l)-1; }
// specification on an array of words, one bit at a time
static uint64_t getb(const uint64_t* w,uint64_t p){ return (w[p>>6]>>(p&63))&1; }
static uint64_t rd(const uint64_t* w,uint64_t p,unsigned l){ uint64_t r=0; for(unsigned k=0;k<l;k++) r|=getb(w,p+k)<<k; return r; }
static void wr(uint64_t* w,uint64_t p,unsigned l,uint64_t x){ for(unsigned k=0;k<l;k++){ w[(p+k)>>6]&=~(1ULL<<((p+k)&63)); w[(p+k)>>6]|=((x>>k)&1)<<((p+k)&63); } }
template<unsigned W> static uint64_t same(const uint64_t* a,const uint64_t* b){ uint64_t d=0; for(unsigned i=0;i<W;i++) d|=a[i]^b[i]; return d==0; }
static void raw(unsigned lo,unsigned hi){
  uint64_t x=sym_u("x",64), in[3]; for(int i=0;i<3;i++) in[i]=sym_ui("w",i,64);
  for(unsigned l=lo;l<=hi;l++) for(unsigned o=0;o<64;o++){
    uint64_t a[3],s[3]; for(int i=0;i<3;i++) a[i]=s[i]=in[i];
    wr(s,o,l,x);
    bits::write_int(a,x,o,l); sym_assert(same<3>(a,s),"write_int");
    if(l) sym_assert(bits::read_int(a,o,l)==(x&msk(l)),"read_int after write_int");
    if(l) sym_assert(bits::read_int(in,o,l)==rd(in,o,l),"read_int");
    for(int i=0;i<3;i++) a[i]=in[i];
    uint64_t* p=a; uint8_t off=o; bits::write_int_and_move(p,x,off,l); sym_assert(same<3>(a,s),"write_int_and_move"); sym_assert((uint64_t)(p-a)*64+off==o+l&&off<64,"write_int_and_move position");
    const uint64_t* q=a; off=o; if(l){ sym_assert(bits::read_int_and_move(q,off,l)==(x&msk(l)),"read_int_and_move"); sym_assert((uint64_t)(q-a)*64+off==o+l&&off<64,"read_int_and_move position"); }
    q=a; off=o; bits::move_right(q,off,l); sym_assert((uint64_t)(q-a)*64+off==o+l&&off<64,"move_right");
    bits::move_left(q,off,l); sym_assert(q==a&&off==o,"move_left");
  }
}
static void unary(unsigned nw){
  uint64_t a[4]; for(unsigned i=0;i<nw;i++) a[i]=sym_ui("w",i,64);
  sym_assume(a[nw-1]!=0); a[nw-1]|=0; 
  for(unsigned o=0;o<64;o++){
    if(nw==1&&o){ if((a[0]>>o)==0) continue; }
    uint64_t e=0; for(unsigned p=64*nw;p-->o;) e=getb(a,p)?p-o:e;
    sym_assert(bits::read_unary(a,o)==e,"read_unary");
    const uint64_t* q=a; uint8_t off=o; uint64_t v=bits::read_unary_and_move(q,off); sym_assert(v==e,"read_unary_and_move"); sym_assert((uint64_t)(q-a)*64+off==o+e+1,"read_unary_and_move position");
    sym_cover("unary");
  }
}
// vector of n elements of width w: every element access path
template<class V> static void vec(V& v,unsigned w,unsigned n){
  uint64_t W=(n*w+63)/64; uint64_t s[12]; for(unsigned i=0;i<W;i++){ s[i]=sym_ui("d",i,64); }
  if((n*w)&63) s[W-1]&=msk((n*w)&63);
  auto reset=[&]{ for(unsigned i=0;i<W;i++) v.data()[i]=s[i]; };
  auto eq=[&](const uint64_t* t){ uint64_t d=0; for(unsigned i=0;i<W;i++) d|=v.data()[i]^t[i]; return d==0; };
  uint64_t x=sym_u("x",64); const V& c=v; reset();
  for(unsigned i=0;i<n;i++){
    uint64_t e=rd(s,i*w,w); 
    sym_assert((uint64_t)c[i]==e,"const operator[]"); sym_assert((uint64_t)v[i]==e,"reference read"); sym_assert(v.get_int(i*w,w)==e,"get_int");
    sym_assert((uint64_t)*(c.begin()+i)==e,"const_iterator"); sym_assert((uint64_t)*(v.begin()+i)==e,"iterator"); sym_assert((uint64_t)v.begin()[i]==e,"iterator[]"); sym_assert((uint64_t)c.begin()[i]==e,"const_iterator[]");
    sym_assert((uint64_t)*(c.end()-(n-i))==e,"const_iterator -"); sym_assert((uint64_t)*(v.end()-(n-i))==e,"iterator -");
    sym_assert((c.begin()+i)-c.begin()==(long)i,"iterator difference"); sym_assert(c.end()-(c.begin()+i)==(long)(n-i),"iterator difference"); 
    uint64_t t[12]; for(unsigned k=0;k<W;k++) t[k]=s[k];
    wr(t,i*w,w,x); 
    v[i]=x&msk(w); sym_assert(eq(t),"reference write"); reset();
    v.set_int(i*w,x,w); sym_assert(eq(t),"set_int"); reset();
    *(v.begin()+i)=x&msk(w); sym_assert(eq(t),"iterator write"); reset();
    unsigned j=(i*7+3)%n; // swap of two cells
    for(unsigned k=0;k<W;k++) t[k]=s[k]; wr(t,i*w,w,rd(s,j*w,w)); wr(t,j*w,w,e);
    { using std::swap; swap(v[i],v[j]); } sym_assert(eq(t),"swap of elements"); reset();
    for(unsigned k=0;k<W;k++) t[k]=s[k]; wr(t,i*w,w,rd(s,j*w,w)); { if(i!=j) v[i]=v[j]; else v[i]=(uint64_t)v[j]; } sym_assert(eq(t),"reference from reference"); reset();
  }
  // walking iterators
  auto it=v.begin(); auto ci=c.begin(); auto jt=v.end(); auto cj=c.end();
  for(unsigned i=0;i<n;i++){
    sym_assert((uint64_t)*it==rd(s,i*w,w),"iterator ++"); sym_assert((uint64_t)*ci==rd(s,i*w,w),"const_iterator ++"); sym_assert(it!=v.end()&&it<v.end()&&it>=v.begin()&&ci!=c.end()&&ci<c.end()&&ci<=c.begin()+i,"iterator order");
    if(i&1){ ++it; ++ci; } else { auto o=it++; auto q=ci++; sym_assert((uint64_t)*o==rd(s,i*w,w)&&(uint64_t)*q==rd(s,i*w,w),"iterator post++"); }
    if(i&1){ --jt; --cj; } else { jt--; cj--; } sym_assert((uint64_t)*jt==rd(s,(n-1-i)*w,w),"iterator --"); sym_assert((uint64_t)*cj==rd(s,(n-1-i)*w,w),"const_iterator --");
  }
  sym_assert(it==v.end()&&ci==c.end()&&jt==v.begin()&&cj==c.begin(),"iterator end");
}
// arithmetic through the reference proxy (not available for 1-bit and native-width vectors in the same form)
template<class V> static void arith(V& v,unsigned w,unsigned n){
  uint64_t W=(n*w+63)/64; uint64_t s[12]; for(unsigned i=0;i<W;i++) s[i]=sym_ui("d",i,64); if((n*w)&63) s[W-1]&=msk((n*w)&63);
  auto reset=[&]{ for(unsigned i=0;i<W;i++) v.data()[i]=s[i]; };
  uint64_t x=sym_u("x",64);
  for(unsigned i=0;i<n;i++) for(int op=0;op<6;op++){
    reset(); uint64_t e=rd(s,i*w,w), r=0, f=e; 
    switch(op){ case 0: r=(uint64_t)++v[i]; f=(e+1)&msk(w); break; case 1: r=v[i]++; f=(e+1)&msk(w); break; case 2: r=(uint64_t)--v[i]; f=(e-1)&msk(w); break; case 3: r=v[i]--; f=(e-1)&msk(w); break; case 4: v[i]+=x; f=(e+x)&msk(w); break; case 5: v[i]-=x; f=(e-x)&msk(w); break; }
    if(op==0||op==2) sym_assert(r==f,"pre inc/dec value"); if(op==1||op==3) sym_assert(r==e,"post inc/dec value");
    for(unsigned j=0;j<n;j++) sym_assert(v.get_int(j*w,w)==(j==i?f:rd(s,j*w,w)),"reference arithmetic");
    if(n>1){ unsigned j=(i+1)%n; reset(); sym_assert((v[i]==v[j])==(e==rd(s,j*w,w)),"reference =="); sym_assert((v[i]<v[j])==(e<rd(s,j*w,w)),"reference <"); }
  }
}
template<unsigned w> static void fixed(unsigned n){ int_vector<w> v(n); vec(v,w,n); }
extern "C" void __sym_main(){
  uint64_t op=sym_cfg("op",0), lo=sym_cfg("lo",1), hi=sym_cfg("hi",64);
  if(op==0) raw(lo,hi);
  if(op==1) unary(sym_cfg("nw",1));
  if(op==2) for(unsigned w=lo;w<=hi;w++){ int_vector<> v(5,0,w); vec(v,w,5); }
  if(op==3){ fixed<1>(70); fixed<2>(33); fixed<7>(10); fixed<8>(9); fixed<13>(6); fixed<16>(5); fixed<31>(5); fixed<32>(5); fixed<33>(5); fixed<63>(4); fixed<64>(3); }
  if(op==4) for(unsigned w=lo;w<=hi;w++){ int_vector<> v(4,0,w); arith(v,w,4); }
  if(op==5){ // bit ranges of any length anywhere in a bit_vector / int_vector<0>
    uint64_t in[4]; for(int i=0;i<4;i++) in[i]=sym_ui("w",i,64); uint64_t x=sym_u("x",64); bit_vector b(256);
    for(unsigned l=lo;l<=hi;l++) for(unsigned o=0;o+l<=256;o+=1){ if(o>70&&o<120) continue; for(int i=0;i<4;i++) b.data()[i]=in[i]; sym_assert(b.get_int(o,l)==rd(in,o,l),"get_int"); uint64_t t[4]; for(int i=0;i<4;i++) t[i]=in[i]; wr(t,o,l,x); b.set_int(o,x,l); sym_assert(same<4>(b.data(),t),"set_int"); }
  }
}
