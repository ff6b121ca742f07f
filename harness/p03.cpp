// P03: int_vector as a sequence: histories of operations against an array model.
#include "sym.h"
#include <sdsl/int_vector.hpp>
#include <algorithm>
using namespace sdsl;
static inline uint64_t msk(unsigned l){ return l>=64?~0ULL:(1ULL<<l)-1; }
enum { MAXN=140 };
struct Model { uint64_t v[MAXN]; uint64_t n; unsigned w; };
template<class V> static void check(const V& v,const Model& m){
  REQUIRE(v.size()==m.n); REQUIRE(v.width()==m.w); REQUIRE(v.bit_size()==m.n*m.w); REQUIRE(v.empty()==(m.n==0)); REQUIRE(v.capacity()>=v.bit_size()&&v.capacity()%64==0&&v.capacity()<v.bit_size()+64);
  for(uint64_t i=0;i<m.n;i++) sym_assert((uint64_t)v[i]==m.v[i],"element"); 
  auto it=v.begin(); uint64_t k=0; for(;it!=v.end();++it,++k) sym_assert((uint64_t)*it==m.v[k],"iterated element"); REQUIRE(k==m.n);
}
static bool less(const Model&a,const Model&b){ uint64_t r=0,dec=0; uint64_t n=a.n<b.n?a.n:b.n; for(uint64_t i=0;i<n;i++){ r|=(1-dec)&(a.v[i]<b.v[i]); dec|=a.v[i]!=b.v[i]; } r|=(1-dec)&(a.n<b.n); return r; }
static bool equal(const Model&a,const Model&b){ if(a.n!=b.n) return false; uint64_t d=0; for(uint64_t i=0;i<a.n;i++) d|=a.v[i]^b.v[i]; return d==0; }
template<class V> static void relations(const V& a,const V& b,const Model& ma,const Model& mb){
  if(ma.w==mb.w){ sym_assert((a==b)==equal(ma,mb),"=="); sym_assert((a!=b)==!equal(ma,mb),"!="); }
  else { sym_assert(!(a==b),"== of different widths"); sym_assert(a!=b,"!= of different widths"); }
  if(ma.w==mb.w){ int o=sym_merge(1); bool l=less(ma,mb),g=less(mb,ma); sym_merge(o); sym_assert((a<b)==l,"<"); sym_assert((a>b)==g,">"); sym_assert((a<=b)==!g,"<="); sym_assert((a>=b)==!l,">="); }
}
static void setm(Model& m,unsigned w,uint64_t n,const char* nm){ m.w=w; m.n=n; for(uint64_t i=0;i<n;i++) m.v[i]=sym_ui(nm,i,64)&msk(w); }
template<class V> static void fill(V& v,const Model& m){ for(uint64_t i=0;i<m.n;i++) v[i]=m.v[i]; }
template<class V> static void resize_check(V& v,Model& m,uint64_t n,const char* nm){ v.resize(n); uint64_t o=m.n; m.n=n; REQUIRE(v.size()==n); for(uint64_t i=0;i<(o<n?o:n);i++) sym_assert((uint64_t)v[i]==m.v[i],"common prefix after resize"); for(uint64_t i=o;i<n;i++){ m.v[i]=sym_ui(nm,i,64)&msk(m.w); v[i]=m.v[i]; } }
// a history of symbolic operations on two vectors
template<class V> static void history(unsigned steps,unsigned wa,unsigned wb,uint64_t n){
  V a(n,0,wa),b(n>1?n-1:n,0,wb); Model ma,mb; setm(ma,wa,n,"a"); setm(mb,wb,n>1?n-1:n,"b"); fill(a,ma); fill(b,mb); check(a,ma); check(b,mb); relations(a,b,ma,mb);
  uint64_t sizes[5]={0,1,n,n+3,64/wa}; if(sizes[4]>30) sizes[4]=5;
  for(unsigned s=0;s<steps;s++){
    sym_merge(0); uint64_t op=sym_conc(sym_rangei("op",s,0,11)); const char* nn= s==0?"r0":s==1?"r1":"r2";
    switch(op){
      case 0: a=b; ma=mb; break;
      case 1: b=a; mb=ma; break;
      case 2: a.swap(b); { Model t=ma; ma=mb; mb=t; } break;
      case 3: { V c(a); Model t=ma; if(ma.n){ a[0]=~(uint64_t)a[0]&msk(ma.w); ma.v[0]=~ma.v[0]&msk(ma.w); } check(c,t); b=c; mb=t; break; }
      case 4: { V c(std::move(a)); check(c,ma); a=std::move(c); check(a,ma); break; }
      case 5: { uint64_t k=sym_conc(sym_rangei("size",s,0,4)); resize_check(a,ma,sizes[k],nn); break; }
      case 6: { if(ma.n){ uint64_t i=sym_conc(sym_rangei("idx",s,0,200)); if(i>=ma.n) return; uint64_t x=sym_ui("val",s,64); a[i]=x&msk(ma.w); ma.v[i]=x&msk(ma.w); } break; }
      case 7: { V c(2,sym_ui("dv",s,64)&msk(ma.w),ma.w); Model t; t.w=ma.w; t.n=2; t.v[0]=t.v[1]=sym_ui("dv",s,64)&msk(ma.w); check(c,t); b=std::move(c); mb=t; break; }
      case 8: { V c(std::move(b)); REQUIRE(b.size()==0); b=V(3,0,ma.w); mb.n=3; mb.w=ma.w; for(int i=0;i<3;i++) mb.v[i]=0; a=std::move(c); break; } // result checked below through b only
      case 9: a=a; break;
      case 10: { V c(0,0,mb.w); c=b; check(c,mb); break; }
      case 11: { if(ma.w==mb.w&&ma.n==mb.n){ uint64_t k=sym_conc(sym_rangei("bop",s,0,2)); if(k==0) a&=b; if(k==1) a|=b; if(k==2) a^=b; for(uint64_t i=0;i<ma.n;i++) ma.v[i]=k==0?ma.v[i]&mb.v[i]:k==1?ma.v[i]|mb.v[i]:ma.v[i]^mb.v[i]; } break; }
    }
    if(op==8){ check(b,mb); return; }
    sym_cover("step"); check(a,ma); check(b,mb); relations(a,b,ma,mb);
  }
}
static void bvops(uint64_t n){
  bit_vector a(n,0),b(n,0); Model ma,mb; setm(ma,1,n,"a"); setm(mb,1,n,"b"); fill(a,ma); fill(b,mb);
  bit_vector c(a); c&=b; for(uint64_t i=0;i<n;i++) sym_assert(c[i]==(ma.v[i]&mb.v[i]),"&="); c=a; c|=b; for(uint64_t i=0;i<n;i++) sym_assert(c[i]==(ma.v[i]|mb.v[i]),"|="); c=a; c^=b; for(uint64_t i=0;i<n;i++) sym_assert(c[i]==(ma.v[i]^mb.v[i]),"^=");
  c=a; c.flip(); for(uint64_t i=0;i<n;i++) sym_assert(c[i]==(1^ma.v[i]),"flip"); sym_assert(!(c==a)||n==0,"flip =="); bit_vector d(c); d.flip(); sym_assert(d==a,"flip twice =="); c.flip(); sym_assert(c==a,"flip =="); sym_assert(!(c<a)&&!(c>a)&&c<=a&&c>=a,"order after flip");
  check(a,ma); check(b,mb);
  if(n){ relations(a,b,ma,mb); }
  bit_vector e(n,1); for(uint64_t i=0;i<n;i++) sym_assert(e[i]==1,"default 1");
  // resize over word boundaries keeps the prefix and never touches foreign memory
  for(uint64_t m:{n+1,n+63,n+64,n/2,n}){ bit_vector r(a); r.resize(m); REQUIRE(r.size()==m); for(uint64_t i=0;i<(m<n?m:n);i++) sym_assert(r[i]==ma.v[i],"prefix"); bit_vector q(r); REQUIRE(q.size()==m); for(uint64_t i=0;i<(m<n?m:n);i++) sym_assert(q[i]==ma.v[i],"copied prefix"); }
}
static void widths(unsigned lo,unsigned hi){ // changing the width re-interprets the same bits; initializer lists; default values
  for(unsigned w=lo;w<=hi;w++){
    uint64_t dv=sym_u("dv",64)&msk(w); int_vector<> v(7,dv,w); Model m; m.w=w; m.n=7; for(int i=0;i<7;i++) m.v[i]=dv; check(v,m);
    int_vector<> z(7,0,w); for(int i=0;i<7;i++) sym_assert(z[i]==0,"default 0"); int_vector<> o(7,msk(w),w); for(int i=0;i<7;i++) sym_assert(o[i]==msk(w),"default all ones");
    int_vector<> u(v); u.width(1); REQUIRE(u.size()==7*w); for(unsigned i=0;i<7*w;i++) sym_assert(u[i]==((dv>>(i%w))&1),"width 1 view"); u.width(w); sym_assert(u==v,"width back");
  }
  uint64_t x=sym_u("x",64),y=sym_u("y",64); int_vector<> il{x,y,x}; REQUIRE(il.size()==3&&il[0]==x&&il[1]==y&&il[2]==x&&il.width()==64);
  int_vector<8> i8{(uint8_t)x,(uint8_t)y}; REQUIRE(i8.size()==2&&i8[0]==(uint8_t)x&&i8[1]==(uint8_t)y); bit_vector ib{(int)(x&1),(int)(y&1),1}; REQUIRE(ib.size()==3&&ib[0]==(x&1)&&ib[1]==(y&1)&&ib[2]);
}
// iterators and const_iterators as random access positions
template<class V,class I> static void itops(V& v,I b,I e,const uint64_t* m,uint64_t n,const uint64_t* ps,unsigned np){ typedef long D;
  sym_assert((uint64_t)(e-b)==n,"end-begin"); if(n){ I t=e; --t; sym_assert((uint64_t)*t==m[n-1],"last"); sym_assert((uint64_t)*(b+(D)(n-1))==m[n-1],"begin+n-1"); sym_assert(b+(D)n==e,"begin+n==end"); sym_assert(e-(D)n==b,"end-n==begin"); }
  { I t=e; uint64_t k=n; while(t!=b){ --t; k--; sym_assert((uint64_t)*t==m[k],"backward iteration"); } sym_assert(k==0,"backward length"); }
  for(unsigned a=0;a<np;a++) for(unsigned c=0;c<np;c++){ D i=ps[a],j=ps[c]; if(i>=(D)n||j>=(D)n) continue; I x=b+i, y=b+j; sym_assert((uint64_t)*x==m[i],"it+i"); sym_assert((D)(y-x)==j-i,"distance");
    sym_assert((x<y)==(i<j)&&(x>y)==(i>j)&&(x<=y)==(i<=j)&&(x>=y)==(i>=j)&&(x==y)==(i==j)&&(x!=y)==(i!=j),"iterator order"); sym_assert((uint64_t)x[j-i]==m[j],"it[k]");
    I z=x; z+=j-i; sym_assert(z==y&&(uint64_t)*z==m[j],"+="); z-=j-i; sym_assert(z==x&&(uint64_t)*z==m[i],"-="); z=x-(i-j); sym_assert(z==y&&(uint64_t)*z==m[j],"it-k"); z=(j-i)+x; sym_assert(z==y,"k+it"); 
    z=y; I q=z++; sym_assert(q==y&&z-y==1,"it++"); q=z--; sym_assert(q-y==1&&z==y,"it--"); sym_assert(&++z==&z&&(uint64_t)(z-b)==(uint64_t)j+1,"++it"); } }
template<class V> static void iters(unsigned w,uint64_t n){ sym_merge(0); uint64_t m[MAXN]; V v(n,0,w); for(uint64_t i=0;i<n;i++){ m[i]=(i==0||i==1||i==n/2||i==n-1)?sym_ui("e",i,64)&msk(w):(0x9e3779b97f4a7c15ULL*(i+3)>>11)&msk(w); v[i]=m[i]; }
  uint64_t ps[7]={0,1,n/3,n/2,64/w,n-2,n-1}; if(n<3) ps[5]=0; const V& cv=v;
  itops(v,v.begin(),v.end(),m,n,ps,7); itops(cv,cv.begin(),cv.end(),m,n,ps,7);
  { uint64_t k=n; for(auto it=v.end();it!=v.begin();){ --it; k--; uint64_t x=(m[k]+k)&msk(w); *it=x; m[k]=x; } for(uint64_t i=0;i<n;i++) sym_assert((uint64_t)v[i]==m[i],"written through an iterator"); }
  if(n>3){ std::reverse(v.begin(),v.end()); for(uint64_t i=0;i<n;i++) sym_assert((uint64_t)v[i]==m[n-1-i],"std::reverse"); std::reverse(v.begin(),v.end()); std::rotate(v.begin(),v.begin()+2,v.end()); for(uint64_t i=0;i<n;i++) sym_assert((uint64_t)v[i]==m[(i+2)%n],"std::rotate"); } sym_cover("iter"); }
extern "C" void __sym_main(){
  uint64_t op=sym_cfg("op",0); unsigned st=sym_cfg("steps",2),wa=sym_cfg("wa",7),wb=sym_cfg("wb",7); uint64_t n=sym_cfg("n",4);
  if(op==0) history<int_vector<0>>(st,wa,wb,n);
  if(op==1) history<int_vector<8>>(st,8,8,n);
  if(op==2) history<int_vector<64>>(st,64,64,n);
  if(op==3) bvops(n);
  if(op==4) widths(sym_cfg("lo",1),sym_cfg("hi",64));
  if(op==5) history<int_vector<1>>(st,1,1,n);
  if(op==6){ for(unsigned w=sym_cfg("lo",1);w<=sym_cfg("hi",64);w++) iters<int_vector<0>>(w,n); }
  if(op==7) iters<int_vector<1>>(1,n);
  if(op==8) iters<int_vector<5>>(5,n);
  if(op==9) iters<int_vector<16>>(16,n);
  if(op==10) iters<int_vector<64>>(64,n);
}
