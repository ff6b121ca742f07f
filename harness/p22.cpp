// P22: k2-treap and k2-tree against scans of the points / edges.
#include "sym.h"
#include <vector>
#include <algorithm>
#include <sdsl/k2_treap.hpp>
#include <sdsl/k2_tree.hpp>
#include <sdsl/bit_vectors.hpp>
using namespace sdsl;
typedef std::vector<uint64_t> U;
static uint64_t crd(uint64_t m,uint64_t i){ switch(m){ case 0: return i; case 1: { static const uint64_t t[]={0,1,3,4,7,8,15,16}; return t[i]; } case 2: { static const uint64_t t[]={0,2,9,26,27,80,81,100}; return t[i]; } case 3: { static const uint64_t t[]={5,1ULL<<20,(1ULL<<31)-1,1ULL<<31,(1ULL<<32)-1,1ULL<<32,(1ULL<<40)+3,(1ULL<<62)}; return t[i]; } case 4: return i+11; } return i; }
#ifdef TREAP
typedef TREAP T;
struct P{ uint64_t x,y,w; };
extern "C" void __sym_main(){ sym_merge(0);
  uint64_t g=sym_cfg("g",3),cm=sym_cfg("cm",0),wm=sym_cfg("wm",0),np=sym_cfg("np",0),ctor=sym_cfg("ctor",0),bg=sym_cfg("bg",0); std::vector<P> pt; U cs;
  for(uint64_t i=0;i<g;i++) cs.push_back(crd(cm,i));
  auto W=[&](uint64_t i)->uint64_t{ switch(wm){ case 0: return 1+i%3; case 1: return 7; case 2: return i*5; case 3: return 100-i; case 4: return sym_conc(sym_rangei("w",i,0,2)); case 5: return (1ULL<<33)+i*i%5; } return 0; };
  if(!np){ for(uint64_t i=0;i<g;i++) for(uint64_t j=0;j<g;j++) if(sym_conc(sym_rangei("p",i*g+j,0,1))) pt.push_back({cs[i],cs[j],W(i*g+j)}); }
  else { uint64_t last=0; for(uint64_t t=0;t<np;t++){ uint64_t q=sym_conc(sym_rangei("q",t,0,g*g-1)); sym_assume(t==0||q>last); last=q; pt.push_back({cs[q/g],cs[q%g],W(t)}); } }
  for(uint64_t i=0;i<bg;i++){ uint64_t h=(i*2654435761ULL)>>12,x=20+h%37,y=(h>>8)%41; bool dup=false; for(auto&p:pt) if(p.x==x&&p.y==y) dup=true; if(!dup) pt.push_back({x,y,(h>>5)%9}); } if(bg) for(uint64_t c:{20,33,40,56}) cs.push_back(c);
  uint64_t n=pt.size(); if(ctor==0&&n==0) { sym_cover("k2"); return; } T t; 
  if(ctor==0){ uint64_t mx=1; int_vector<> x(n),y(n),w(n); for(uint64_t i=0;i<n;i++){ x[i]=pt[i].x; y[i]=pt[i].y; w[i]=pt[i].w; } store_to_file(x,"@k.x"); store_to_file(y,"@k.y"); store_to_file(w,"@k.w"); (void)mx; construct(t,"@k"); }
  else if(ctor==1){ std::vector<std::array<uint64_t,3>> d; for(auto&p:pt) d.push_back({{p.x,p.y,p.w}}); construct_im(t,d); }
  else { std::vector<std::tuple<uint32_t,uint32_t,uint32_t>> d; for(auto&p:pt) d.push_back(std::make_tuple((uint32_t)p.x,(uint32_t)p.y,(uint32_t)p.w)); T u(d,"@tp"); t.swap(u); }
  sym_assert(t.size()==n,"size");
  U qs; for(uint64_t c:cs){ qs.push_back(c); if(c) qs.push_back(c-1); if(cm!=3) qs.push_back(c+1); } if(sym_cfg("fewq",0)) qs=cs; qs.push_back(0); if(sym_cfg("far",1)) qs.push_back(crd(cm,g-1)*3+40); std::sort(qs.begin(),qs.end()); qs.erase(std::unique(qs.begin(),qs.end()),qs.end());
  uint64_t sk=0,mod=sym_cfg("mod",1);
  for(uint64_t x1:qs) for(uint64_t x2:qs) if(x1<=x2) for(uint64_t y1:qs) for(uint64_t y2:qs) if(y1<=y2){ if(sk++%mod) continue; std::vector<P> in; for(auto&p:pt) if(p.x>=x1&&p.x<=x2&&p.y>=y1&&p.y<=y2) in.push_back(p);
    k2_treap_ns::point_type a(x1,y1),b(x2,y2); sym_assert(count(t,a,b)==in.size(),"count");
    typedef std::tuple<uint64_t,uint64_t,uint64_t> Q; std::vector<Q> e,r; for(auto&p:in) e.emplace_back(p.x,p.y,p.w); std::sort(e.begin(),e.end());
    { auto it=top_k(t,a,b); uint64_t lw=~0ULL; uint64_t c=0; while(it&&c++<=n){ auto v=*it; sym_assert(v.second<=lw,"top_k order"); lw=v.second; r.emplace_back(std::real(v.first),std::imag(v.first),v.second); ++it; } std::sort(r.begin(),r.end()); sym_assert(r==e,"top_k points"); }
    if(sk%3==1){ for(uint64_t lo:{0,2,7}) for(uint64_t hi:{0,3,7,99}) if(lo<=hi){ std::vector<Q> e2,r2; for(auto&q:e) if(std::get<2>(q)>=lo&&std::get<2>(q)<=hi) e2.push_back(q); auto it=range_3d(t,a,b,k2_treap_ns::range_type(lo,hi)); uint64_t c=0; while(it&&c++<=n){ auto v=*it; r2.emplace_back(std::real(v.first),std::imag(v.first),v.second); ++it; } std::sort(r2.begin(),r2.end()); sym_assert(r2==e2,"range_3d points"); } } }
  sym_cover("k2"); }
#else
#ifndef TREE
#define TREE k2_tree<2>
#endif
typedef TREE T;
extern "C" void __sym_main(){ sym_merge(0);
  uint64_t n=sym_cfg("n",3),ctor=sym_cfg("ctor",0),np=sym_cfg("np",0),bg=sym_cfg("bg",0); std::vector<std::vector<int>> m(n,std::vector<int>(n,0)); std::vector<std::tuple<uint64_t,uint64_t>> es;
  for(uint64_t i=0;i<bg;i++){ uint64_t h=(i*2654435761ULL)>>12; m[h%n][(h>>9)%n]=1; }
  if(!np){ uint64_t w=sym_cfg("w",n),o=sym_cfg("o",0); for(uint64_t i=0;i<w;i++) for(uint64_t j=0;j<w;j++) m[i+o][j+o]=sym_conc(sym_rangei("e",i*w+j,0,1)); }
  else for(uint64_t t=0;t<np;t++){ uint64_t q=sym_conc(sym_rangei("q",t,0,n*n-1)); m[q/n][q%n]=1; es.emplace_back(q/n,q%n); }
  if(es.empty()||bg){ es.clear(); for(uint64_t s=0;s<n*n;s++){ uint64_t q=(s*(sym_cfg("ord",1)))%(n*n); if(m[q/n][q%n]) es.emplace_back(q/n,q%n); } }
  T t; if(ctor==0) t=T(m); else { if(es.empty()){ sym_cover("k2"); return; } if(ctor==1) t=T(es,n); else { int_vector<> x(es.size()),y(es.size()); for(uint64_t i=0;i<es.size();i++){ x[i]=std::get<0>(es[i]); y[i]=std::get<1>(es[i]); } store_to_file(x,"@g.x"); store_to_file(y,"@g.y"); t=T("@g",ctor==2?n:0); } }
  uint64_t N=n; if(ctor==3){ N=0; for(uint64_t i=0;i<n;i++) for(uint64_t j=0;j<n;j++) if(m[i][j]) N=std::max(N,std::max(i,j)+1); }
  for(uint64_t i=0;i<N;i++){ U o,in; for(uint64_t j=0;j<N;j++){ if(n<=12||(i*7+j)%5==0||m[i][j]) sym_assert(t.adj(i,j)==(m[i][j]==1),"adj"); if(m[i][j]) o.push_back(j); if(m[j][i]) in.push_back(j); } U a=t.neigh(i),b=t.reverse_neigh(i); std::sort(a.begin(),a.end()); std::sort(b.begin(),b.end()); sym_assert(a==o,"neigh"); sym_assert(b==in,"reverse_neigh"); }
  U qs; for(uint64_t i=0;i<N;i++) if(n<=5||i%(n/4)==0||i+1==N) qs.push_back(i);
  for(uint64_t r1:qs) for(uint64_t r2:qs) if(r1<=r2) for(uint64_t c1:qs) for(uint64_t c2:qs) if(c1<=c2){ std::vector<std::pair<uint64_t,uint64_t>> e; for(uint64_t i=r1;i<=r2;i++) for(uint64_t j=c1;j<=c2;j++) if(m[i][j]) e.emplace_back(i,j); auto g=t.range(r1,r2,c1,c2); std::sort(g.begin(),g.end()); sym_assert(g==e,"range"); }
  sym_cover("k2"); }
#endif
