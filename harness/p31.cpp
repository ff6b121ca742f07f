// P31: a memory-mapped vector against an array and against the file it leaves.
#include "sym.h"
#include <sdsl/int_vector.hpp>
#include <sdsl/int_vector_mapper.hpp>
#include <sdsl/io.hpp>
#include <vector>
using namespace sdsl;
#ifndef TW
#define TW 0
#endif
extern "C" int sym_disk_open(void) __attribute__((weak));
static int opened(){ return sym_disk_open?sym_disk_open():0; }
typedef int_vector_mapper<TW> M; typedef int_vector_mapper<TW,std::ios_base::in> R;
enum { MAXN=300 };
struct arr { uint64_t v[MAXN]; bool any[MAXN]; uint64_t n,w; arr():n(0),w(TW){ for(int i=0;i<MAXN;i++) v[i]=0,any[i]=false; } };
static uint64_t plain; static const char* F="p31_f"; static const char* G="p31_g";
static uint64_t msk(uint64_t w){ return w==64?~0ULL:((1ULL<<w)-1); }
template<class X> static void check(X& m,const arr& a,const char* what){ sym_assert(m.size()==a.n&&m.width()==a.w&&m.bit_size()==a.n*a.w&&m.empty()==(a.n==0),"size and width"); for(uint64_t i=0;i<a.n;i++) if(!a.any[i]) sym_assert((uint64_t)m[i]==a.v[i],what); }
static void ro(const arr& a,const char* f){ const R r(f,plain); check(r,a,"read-only value"); uint64_t i=0; for(auto it=r.begin();it!=r.end();++it){ if(!a.any[i]) sym_assert((uint64_t)*it==a.v[i],"read-only iterator"); i++; } sym_assert(i==a.n,"read-only iteration"); for(auto it=r.cbegin();it!=r.cend();++it) i--; sym_assert(i==0,"cbegin"); if(a.n){ sym_assert(a.any[a.n-1]||r.get_int((a.n-1)*a.w,(uint8_t)a.w)==a.v[a.n-1],"get_int"); } }
static void file(const arr& a,const char* f){ uint64_t off=plain?0:TW?8:9; sym_assert(util::file_size(f)==(plain?a.n*a.w/8:off+(a.n*a.w+63)/64*8),"file length"); if(!plain){ int_vector<TW> x; sym_assert(load_from_file(x,f),"file loads"); sym_assert(x.size()==a.n&&x.width()==a.w,"size and width in the file"); for(uint64_t i=0;i<a.n;i++) if(!a.any[i]) sym_assert((uint64_t)x[i]==a.v[i],"value in the file"); }
  else { std::vector<char> c(a.n*a.w/8+1); isfstream is(f,std::ios::in|std::ios::binary); is.read(c.data(),a.n*a.w/8); for(uint64_t i=0;i<a.n;i++) if(!a.any[i]){ uint64_t x=0; for(uint64_t j=0;j<a.w/8;j++) x|=((uint64_t)(uint8_t)c[i*(a.w/8)+j])<<(8*j); sym_assert(x==a.v[i],"value in the plain file"); } } }
static void resz(arr& a,uint64_t n){ for(uint64_t i=a.n;i<n;i++) a.any[i]=true; a.n=n; }
extern "C" void __sym_main(){ uint64_t w=TW?TW:sym_cfg("w",7),n=sym_cfg("n",5),L=sym_cfg("L",2),ops=sym_cfg("ops",0xffff),big=sym_cfg("big",0); plain=sym_cfg("plain",0); sdsl::remove(F); sdsl::remove(G); arr A,B; A.w=w; B.w=w;
  { int_vector<TW> x(n,0,(uint8_t)w); for(uint64_t i=0;i<n;i++){ A.v[i]=sym_ui("v",i,(int)w); x[i]=A.v[i]; } A.n=n; int_vector<TW> y(3,1,(uint8_t)w); for(int i=0;i<3;i++) B.v[i]=1; B.n=3;
    if(plain){ osfstream o(F,std::ios::out|std::ios::binary),q(G,std::ios::out|std::ios::binary); o.write((char*)x.data(),n*w/8); q.write((char*)y.data(),3*w/8); } else { store_to_file(x,F); store_to_file(y,G); } }
  if(!sym_cfg("nofile",0)){ ro(A,F); file(A,F);
  sym_assert(opened()==0,"no file stays open");
  { M* m=new M(F,plain); bool touched=true; for(uint64_t s=0;s<L;s++){ uint64_t op=sym_conc(sym_rangei("op",s,0,12)); sym_assume((ops>>op)&1); uint64_t q=sym_rangei("q",s,0,5); uint64_t x=sym_ui("x",s,64)&msk(A.w);
      switch(op){
      case 0: { sym_assume(A.n); uint64_t k=sym_conc(q); sym_assume(k<3); uint64_t i= k==0?0: k==1?A.n-1:A.n/2; (*m)[i]=x; A.v[i]=x; A.any[i]=false; break; }
      case 1: { sym_assume(q==0); if(big){ m->push_back(x); A.v[A.n]=x; A.any[A.n]=false; A.n++; } else { uint64_t c=m->capacity(); if(c>A.n){ m->push_back(x); A.v[A.n]=x; A.any[A.n]=false; A.n++; } } break; }
      case 2: { uint64_t k=sym_conc(q); uint64_t t= k==0?0: k==1?A.n+1: k==2?(A.n?A.n-1:0): k==3?A.n+64: k==4?A.n/2:A.n; sym_assume(t<MAXN-66&&(t||!plain)); m->resize(t); resz(A,t); sym_assert(m->capacity()>=t,"capacity"); for(uint64_t i=0;i<A.n;i++) if(A.any[i]){ (*m)[i]=x; A.v[i]=x; A.any[i]=false; break; } break; }
      case 3: { uint64_t k=sym_conc(q); sym_assume(k<2); if(k==0){ M t(std::move(*m)); check(t,A,"moved"); delete m; m=new M(std::move(t)); } else { M t(G,plain); check(t,B,"other vector"); t=std::move(*m); delete m; m=new M(std::move(t)); M u(G,plain); check(u,B,"other vector"); } break; }
      case 4: { sym_assume(q==0); delete m; file(A,F); ro(A,F); m=new M(F,plain); break; }
      case 5: { sym_assume(q==0); uint64_t i=0; for(auto it=m->begin();it!=m->end();++it){ sym_assert(i<A.n,"iterations"); if(!A.any[i]) sym_assert((uint64_t)*it==A.v[i],"iterator"); if(i&1){ *it=x; A.v[i]=x; A.any[i]=false; } i++; } sym_assert(i==A.n,"iterated all"); break; }
#if TW==1
      case 6: { sym_assume(q==0); for(uint64_t i=0;i<A.n;i++) sym_assume(!A.any[i]); m->flip(); for(uint64_t i=0;i<A.n;i++) A.v[i]=~A.v[i]&msk(A.w); break; }
#else
      case 6: sym_assume(0); break;
#endif
      case 7: { sym_assume(q==0&&A.n); uint64_t l=A.w,i=A.n/2; m->set_int(i*A.w,x,(uint8_t)l); A.v[i]=x; A.any[i]=false; sym_assert(m->get_int(i*A.w,(uint8_t)l)==x,"get_int"); break; }
      case 8: { sym_assume(q==0); for(uint64_t i=0;i<A.n;i++) sym_assume(!A.any[i]); int_vector<TW> y(A.n,0,(uint8_t)A.w); std::vector<uint64_t> z; for(uint64_t i=0;i<A.n;i++){ y[i]=A.v[i]; z.push_back(A.v[i]); } sym_assert(*m==y,"equal int_vector"); sym_assert(*m==z&&!(*m!=z),"equal std::vector"); z.push_back(0); sym_assert(!(*m==z)&&*m!=z,"longer std::vector"); z.pop_back(); if(A.n){ z[A.n-1]^=1; sym_assert(!(*m==z),"different std::vector"); z.pop_back(); sym_assert(!(*m==z),"shorter std::vector"); y[0]=A.v[0]^1; sym_assert(!(*m==y),"different int_vector"); } break; }
      case 9: { sym_assume(q==0&&A.n==0&&TW==0); m->width(11); A.w=11; x&=msk(11); m->resize(1); A.n=1; (*m)[0]=x; A.v[0]=x; A.any[0]=false; break; }
      case 10:{ sym_assume(q==0); const M& cm=*m; check(cm,A,"const access"); sym_assert(cm.file_name()==F&&cm.data()==m->data(),"name and data"); break; }
      case 11:{ sym_assume(q==0&&A.n>=2); uint64_t t=(*m)[0]; (*m)[0]=(uint64_t)(*m)[A.n-1]; (*m)[A.n-1]=t; std::swap(A.v[0],A.v[A.n-1]); std::swap(A.any[0],A.any[A.n-1]); break; }
      default:{ sym_assume(q==0); delete m; { int_vector<TW> y; if(!plain){ load_from_file(y,F); y.resize(A.n+1); y[A.n]=x; store_to_file(y,F); A.v[A.n]=x; A.any[A.n]=false; A.n++; } } m=new M(F,plain); }
      } check(*m,A,"value after an operation"); (void)touched; }
    delete m; }
  file(A,F); ro(A,F); file(B,G); }
  sym_assert(opened()==0,"all closed");
  if(sym_cfg("tmp",0)&&!plain){ { auto t=temp_file_buffer<TW>::create(std::string(G)); sym_assert(t.size()==0,"empty buffer"); if(TW==0) t.width((uint8_t)w); t.resize(2); t[0]=1; t[1]=A.n?A.v[0]&msk(w):1; sym_assert((uint64_t)t[1]==(A.n?A.v[0]&msk(w):1)&&(uint64_t)t[0]==1,"buffer"); isfstream z(G); sym_assert(z.is_open(),"exists"); } { isfstream z(G); sym_assert(!z.is_open(),"temporary file deleted"); }
    { auto t=write_out_buffer<TW>::create(std::string(G)); if(TW==0) t.width((uint8_t)w); t.resize(1); t[0]=1; } arr C; C.w=w; C.n=1; C.v[0]=1; file(C,G);
    cache_config c(false,".","p31"); { auto t=write_out_buffer<TW>::create("k",c); if(TW==0) t.width((uint8_t)w); t.resize(1); t[0]=1; } sym_assert(c.file_map.count("k")==1,"registered"); file(C,cache_file_name("k",c).c_str()); { M t("k",c); check(t,C,"by key"); } sdsl::remove(cache_file_name("k",c));
    bool th=false; try { M t(std::string("p31_none")); } catch(const std::runtime_error&){ th=true; } sym_assert(th,"missing file"); if(TW==0||TW==1){ th=false; try { M t(F,true); } catch(const std::runtime_error&){ th=true; } sym_assert(th,"plain needs a byte width"); } }
  sym_assert(opened()==0,"all closed at the end");
  sdsl::remove(F); sdsl::remove(G); sym_cover("mapper"); }
