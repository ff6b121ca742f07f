// P27: histories of operations on an int_vector_buffer over a RAM file against an array.
#include "sym.h"
#include <sdsl/int_vector.hpp>
#include <sdsl/int_vector_buffer.hpp>
#include <sdsl/io.hpp>
#include <sdsl/util.hpp>
using namespace sdsl;
#ifndef TW
#define TW 0
#endif
typedef int_vector_buffer<TW> B;
enum { MAXN=200 };
struct model { uint64_t v[MAXN]; uint64_t n; model():n(0){ for(int i=0;i<MAXN;i++) v[i]=0; }
  void wr(uint64_t i,uint64_t x){ for(uint64_t j=n;j<=i;j++) v[j]=0; if(i>=n) n=i+1; v[i]=x; } };
static uint64_t w,plain,mask; static const char *FB,*FO; static uint64_t fit(uint64_t x){ return TW==1?(x!=0):(x&mask); } // the 1-bit vector holds bool
static void check(B& b,const model& m,const char* what){ sym_assert(b.size()==m.n,"size"); for(uint64_t i=0;i<m.n;i++) sym_assert((uint64_t)b[i]==m.v[i],what); }
static void file(const char* f,const model& m){
  if(!plain){ int_vector<TW> x; sym_assert(load_from_file(x,f),"file loads"); sym_assert(x.size()==m.n,"file size"); sym_assert(x.width()==w,"file width"); for(uint64_t i=0;i<m.n;i++) sym_assert(x[i]==m.v[i],"file value");
    uint64_t by=(TW?8:9)+((m.n*w+63)/64)*8; sym_assert(util::file_size(f)==by,"file length"); }
  else { sym_assert(util::file_size(f)==m.n*w/8,"plain file length"); std::vector<char> c(m.n*w/8+1); isfstream is(f,std::ios::in|std::ios::binary); is.read(c.data(),m.n*w/8); sym_assert(is.gcount()==(long)(m.n*w/8),"plain file readable"); for(uint64_t i=0;i<m.n;i++){ uint64_t x=0; for(uint64_t j=0;j<w/8;j++) x|=((uint64_t)(uint8_t)c[i*(w/8)+j])<<(8*j); sym_assert(x==m.v[i],"plain file value"); } } }
static const uint64_t BS[6]={1,8,0,3,16,40};
extern "C" void __sym_main(){ w=TW?TW:sym_cfg("w",7); plain=sym_cfg("plain",0); if(sym_cfg("disk",0)){ FB="p27_b"; FO="p27_o"; } else { FB="@b"; FO="@o"; } mask=w==64?~0ULL:((1ULL<<w)-1); uint64_t L=sym_cfg("L",2),n0=sym_cfg("n0",5),bs=sym_cfg("bs",1),ops=sym_cfg("ops",0xffff),gap=sym_cfg("gap",9),n1=sym_cfg("n1",3);
  sdsl::remove(FB); sdsl::remove(FO); model A,O; uint64_t dirty=sym_cfg("dirty",0); if(dirty){ int_vector<TW> z(n0,mask,w); for(uint64_t i=0;i<n0;i++){ uint64_t x=sym_ui("v",i,(int)w); z[i]=x; A.wr(i,x); } sym_assert(store_to_file(z,FB),"stored"); } // unused bits of the file are 1
  { B b(FB,dirty?std::ios::in:std::ios::out,bs,w,plain); B o(FO,std::ios::out,bs==1?8:1,w,plain); sym_assert(b.is_open()&&b.good()&&b.width()==w&&b.filename()==FB,"opened");
    for(uint64_t i=0;i<(dirty?0:n0);i++){ uint64_t x=sym_ui("v",i,(int)w); b.push_back(x); A.wr(i,x); } for(uint64_t i=0;i<n1;i++){ uint64_t x=(0x9e3779b97f4a7c15ULL*(i+1))&mask; o[i]=x; O.wr(i,x); }
    bool sw=false; // b is on FO if swapped
    for(uint64_t s=0;s<L;s++){ uint64_t op=sym_conc(sym_rangei("op",s,0,15)); sym_assume((ops>>op)&1); uint64_t x=sym_ui("x",s,(int)w); uint64_t q=sym_rangei("q",s,0,5);
      auto idx=[&](uint64_t lim)->uint64_t{ uint64_t k=sym_conc(q); uint64_t i=0; switch(k){ case 0: i=0; break; case 1: i=A.n?A.n-1:0; break; case 2: i=A.n/2; break; case 3: i=A.n; break; case 4: i=A.n+1; break; default: i=A.n+gap; } sym_assume(i<lim); if(k==1) sym_assume(A.n>1); if(k==2) sym_assume(A.n>2); return i; };
      auto none=[&](){ sym_assume(q==0); };
      switch(op){
      case 0: { uint64_t i=idx(MAXN); b[i]=x; A.wr(i,x); break; }
      case 1: none(); b.push_back(x); A.wr(A.n,x); break;
      case 2: { uint64_t i=idx(A.n); sym_assert((uint64_t)b[i]==A.v[i],"read"); break; }
      case 3: { uint64_t k=BS[sym_conc(q)]; b.buffersize(k); sym_assert(b.buffersize()>=(k?k:8),"buffersize at least as asked"); break; }
      case 4: none(); b.reset(); A.n=0; sym_assert(b.size()==0,"size after reset"); break;
      case 5: { uint64_t k=BS[sym_conc(q)]; const char* f=sw?FO:FB; b.close(); sym_assert(!b.is_open(),"closed"); file(f,A); b=B(f,std::ios::in,k,w,plain); break; }
      case 6: { none(); B c(std::move(b)); sym_assert(!b.is_open()&&b.size()==0,"moved from"); check(c,A,"moved"); c.push_back(x); A.wr(A.n,x); b=std::move(c); break; }
      case 7: { none(); b.swap(o); model t=A; A=O; O=t; sw=!sw; break; }
      case 8: { uint64_t i=idx(A.n); ++b[i]; A.v[i]=fit(A.v[i]+1); break; }
      case 9: { uint64_t i=idx(A.n); --b[i]; A.v[i]=fit(A.v[i]-1); break; }
      case 10:{ uint64_t i=idx(A.n); b[i]+=x; A.v[i]=fit(A.v[i]+x); uint64_t j=A.n-1-i; b[j]-=x; A.v[j]=fit(A.v[j]-x); break; }
      case 11:{ uint64_t i=idx(A.n); uint64_t j=A.n-1-i; auto r=b[j]; b[i]=r; A.v[i]=A.v[j]; uint64_t y=b[i]++; sym_assert(y==A.v[i],"post increment"); A.v[i]=fit(y+1); y=b[j]--; sym_assert(y==A.v[j],"post decrement"); A.v[j]=fit(y-1); sym_assert((b[i]==b[j])==(A.v[i]==A.v[j])&&(b[i]<b[j])==(A.v[i]<A.v[j]),"compare"); break; }
      case 12:{ none(); uint64_t i=0; for(auto it=b.begin();it!=b.end();++it){ sym_assert(i<A.n,"iterations"); sym_assert((uint64_t)*it==A.v[i],"iterator value"); if(i&1){ *it=x; A.v[i]=x; } i++; } sym_assert(i==A.n,"iterated all"); sym_assert((uint64_t)(b.end()-b.begin())==A.n,"distance");
        if(A.n>2){ auto e=b.end(); --e; sym_assert((uint64_t)*e==A.v[A.n-1],"last"); auto f=e--; sym_assert((uint64_t)*f==A.v[A.n-1]&&(uint64_t)*e==A.v[A.n-2],"post decrement of an iterator"); auto g=e++; sym_assert((uint64_t)*g==A.v[A.n-2]&&e==f,"post increment of an iterator"); auto h=b.begin()+2; sym_assert((uint64_t)*h==A.v[2],"+"); h-=1; sym_assert((uint64_t)*h==A.v[1],"-="); h+=-1; sym_assert((uint64_t)*h==A.v[0],"+= negative"); h-=-2; sym_assert((uint64_t)*h==A.v[2],"-= negative"); auto k=h-1; sym_assert((uint64_t)*k==A.v[1]&&h-k==1,"-"); } break; }
      case 13:{ none(); B c; sym_assert(!c.is_open()&&c.size()==0,"default constructed"); c=std::move(b); b=std::move(c); break; }
      case 14:{ none(); const char* f=sw?FO:FB; b.close(true); { isfstream z(f); sym_assert(!z.is_open(),"removed"); }; b=B(f,std::ios::out,3,w,plain); A.n=0; break; }
      default:{ none(); B c; c.swap(b); sym_assert(!b.is_open()&&c.size()==A.n,"swap with a closed buffer"); check(c,A,"swapped with a closed buffer"); b.swap(c); break; }
      } sym_assert(b.size()==A.n&&b.width()==w,"size after an operation"); }
    sym_assert(b.is_open()&&b.good(),"open at the end"); sym_assert(b.filename()==(sw?FO:FB),"name"); check(b,A,"value at the end"); check(o,O,"other buffer"); if(L&&sym_cfg("fin",1)) o.push_back(1&mask),O.wr(O.n,1&mask);
    if(sw){ model t=A; A=O; O=t; } }
  file(FB,A); file(FO,O); sdsl::remove(FB); sdsl::remove(FO); sym_cover("buffer"); }
