// P14: range operations of wavelet structures against a scan of the sequence.
#include "wtspec.hpp"
using namespace sdsl;
#ifndef LEXC
#define LEXC 0
#endif
#ifndef R2D
#define R2D 0
#endif
#ifndef SYMS
#define SYMS 0
#endif
typedef std::vector<uint64_t> U;
static uint64_t cntr(const seq& a,uint64_t i,uint64_t j,uint64_t c){ uint64_t r=0; for(uint64_t t=i;t<j;t++) r+=a[t]==c; return r; }
static void isyms(const wt_t& w,const seq& a,uint64_t i,uint64_t j){ uint64_t n=a.size(); std::vector<wt_t::value_type> cs(w.sigma+1); std::vector<wt_t::size_type> ri(w.sigma+1),rj(w.sigma+1); wt_t::size_type k=99; interval_symbols(w,i,j,k,cs,ri,rj); seq sub(a.begin()+i,a.begin()+j); U d=distinct(sub);
  sym_assert(k==d.size(),"interval_symbols: number of symbols"); U got; for(uint64_t t=0;t<k&&t<d.size();t++){ got.push_back(cs[t]); sym_assert(ri[t]==cntr(a,0,i,cs[t]),"interval_symbols: rank i"); sym_assert(rj[t]==cntr(a,0,j,cs[t]),"interval_symbols: rank j"); }
  if(!wt_t::lex_ordered) std::sort(got.begin(),got.end()); sym_assert(got==d,"interval_symbols: symbols"); }
#if LEXC
static void lexc(const wt_t& w,const seq& a,const U& q){ uint64_t n=a.size(); for(uint64_t c:q){ for(uint64_t i=0;i<=n;i++){ if(n>40&&!look(i,n)) continue; uint64_t s=0; for(uint64_t t=0;t<i;t++) s+=a[t]<c; auto r=w.lex_smaller_count(i,c); sym_assert(std::get<0>(r)==cntr(a,0,i,c),"lex_smaller_count rank"); sym_assert(std::get<1>(r)==s,"lex_smaller_count smaller");
    for(uint64_t j=i;j<=n;j++){ if(n>40&&j%29!=1&&j!=n&&j!=i) continue; uint64_t sm=0,g=0; for(uint64_t t=i;t<j;t++){ sm+=a[t]<c; g+=a[t]>c; } auto l=w.lex_count(i,j,c); sym_assert(std::get<1>(l)==sm,"lex_count smaller"); sym_assert(std::get<2>(l)==g,"lex_count greater"); sym_assert(std::get<0>(l)==cntr(a,0,i,c),"lex_count rank"); } } } }
#else
static void lexc(const wt_t&,const seq&,const U&){}
#endif
#if R2D
static void r2d(const wt_t& w,const seq& a,const U& q,uint64_t lb,uint64_t rb){ for(uint64_t x:q) for(uint64_t y:q){ std::vector<std::pair<uint64_t,uint64_t>> e,g; for(uint64_t t=lb;t<=rb;t++) if(a[t]>=x&&a[t]<=y) e.emplace_back(t,a[t]); auto r=w.range_search_2d(lb,rb,x,y); sym_assert(r.first==e.size(),"range_search_2d count"); for(auto p:r.second) g.emplace_back(p.first,p.second); std::sort(g.begin(),g.end()); sym_assert(g==e,"range_search_2d points"); auto r0=w.range_search_2d(lb,rb,x,y,false); sym_assert(r0.first==e.size()&&r0.second.empty(),"range_search_2d without report"); } }
#else
static void r2d(const wt_t&,const seq&,const U&,uint64_t,uint64_t){}
#endif
#if SYMS
template<class W> static void quant(const W& w,const seq& a,uint64_t lb,uint64_t rb){ seq s(a.begin()+lb,a.begin()+rb+1); std::sort(s.begin(),s.end()); for(uint64_t q=0;q<s.size();q+=(s.size()>40?7:1)){ auto r=quantile_freq(w,lb,rb,q); sym_assert(r.first==s[q],"quantile symbol"); sym_assert(r.second==cntr(s,0,s.size(),s[q]),"quantile frequency"); } }
template<class W> static void syms(const W& w,const seq& a,const U& q,const U& d){ for(uint64_t c:q){ auto l=symbol_lte(w,c); auto g=symbol_gte(w,c); bool fl=false,fg=false; uint64_t vl=0,vg=0; for(uint64_t x:d){ if(x<=c){ fl=true; vl=x; } if(x>=c&&!fg){ fg=true; vg=x; } } sym_assert(l.first==fl&&(!fl||l.second==vl),"symbol_lte"); sym_assert(g.first==fg&&(!fg||g.second==vg),"symbol_gte"); } }
template<class W> static void rurv(const W& w,const seq& a,const U& q,uint64_t lb,uint64_t rb){ for(uint64_t x:q) for(uint64_t y:q){ U e; for(uint64_t t=lb;t<=rb&&t<a.size();t++) if(a[t]>=x&&a[t]<=y) e.push_back(a[t]); e=distinct(e); auto r=restricted_unique_range_values(w,lb,rb,x,y); U g(r.begin(),r.end()); sym_assert(g==e,"restricted_unique_range_values"); } }
#else
template<class W> static void quant(const W&,const seq&,uint64_t,uint64_t){}
template<class W> static void syms(const W&,const seq&,const U&,const U&){}
template<class W> static void rurv(const W&,const seq&,const U&,uint64_t,uint64_t){}
#endif
static void inter(const wt_t& w,const seq& a,const range_vec_type& rs,uint64_t t){ std::vector<std::pair<uint64_t,uint64_t>> e,g; uint64_t tt=t?t:rs.size(); U d=distinct(a); for(uint64_t c:d){ uint64_t in=0,f=0; for(auto& r:rs){ uint64_t x=cntr(a,r[0],r[1]+1,c); in+=x>0; f+=x; } if(in>=tt) e.emplace_back(c,f); }
  auto r=intersect(w,rs,t); for(auto& p:r) g.emplace_back(p.first,p.second); if(!wt_t::lex_ordered) std::sort(g.begin(),g.end()); sym_assert(g==e,"intersect"); }
static U leaves; static uint64_t nodes;
template<class N> static void walk(const wt_t& w,const N& v,const seq& s){ nodes++; sym_assert((uint64_t)w.size(v)==s.size(),"node size"); sym_assert(w.empty(v)==s.empty(),"node empty"); if(s.empty()) return; bool lk=s.size()>40;
  if(w.is_leaf(v)){ for(uint64_t x:s) sym_assert((uint64_t)w.sym(v)==x,"leaf symbol"); leaves.push_back(s[0]); return; }
  auto b=w.bit_vec(v); auto sq=w.seq(v); sym_assert(b.size()==s.size()&&sq.size()==s.size(),"node containers"); seq c[2]; U pre(1,0); for(uint64_t i=0;i<s.size();i++){ bool x=b[i]; c[x].push_back(s[i]); pre.push_back(pre.back()+x); if(!lk||i%13==0) sym_assert((uint64_t)sq[i]==s[i],"node sequence"); }
  if(wt_t::lex_ordered) for(uint64_t x:c[0]) for(uint64_t y:c[1]) { sym_assert(x<y,"node order"); if(lk) break; }
  range_vec_type all; for(uint64_t i=0;i<s.size();i+=lk?17:1) for(uint64_t j=i;j<s.size();j+=lk?31:1){ range_type r{{i,j}}; auto e=w.expand(v,r); for(int x=0;x<2;x++){ uint64_t lo=x?pre[i]:i-pre[i],hi=x?pre[j+1]:j+1-pre[j+1]; sym_assert(std::get<0>(e[x])==lo,"expanded range begin"); sym_assert(std::get<1>(e[x])+1==hi,"expanded range end"); } all.push_back(r); }
  auto ev=w.expand(v,all); for(uint64_t t=0;t<all.size();t++) for(int x=0;x<2;x++){ uint64_t i=all[t][0],j=all[t][1]; sym_assert(ev[x][t][0]==(x?pre[i]:i-pre[i])&&ev[x][t][1]+1==(x?pre[j+1]:j+1-pre[j+1]),"expanded range vector"); }
  auto ch=w.expand(v); walk(w,std::get<0>(ch),c[0]); walk(w,std::get<1>(ch),c[1]); }
extern "C" void __sym_main(){ sym_merge(0);
  uint64_t al; seq a=gen(al); uint64_t n=a.size(); wt_t w=build(a); U d=distinct(a); U q(d); for(uint64_t j=0;j<4;j++) q.push_back(alsym(al,j)); q.push_back(0); q.push_back(d[0]+1); q.push_back(d[0]?d[0]-1:2); if(IW==8){ q.push_back(255); q.push_back(254); } else { q.push_back(d.back()+1); q.push_back(1ULL<<20); q.push_back(~0ULL); } q=distinct(q); if(IW==8) while(q.back()>255) q.pop_back(); if(q.size()>16){ U t; for(uint64_t i=0;i<q.size();i+=q.size()/12) t.push_back(q[i]); q=t; }
  uint64_t ops=sym_cfg("ops",31); bool lk=n>40;
  if(ops&1) for(uint64_t i=0;i<=n;i++) for(uint64_t j=i;j<=n;j++) if(!lk||(look(i,n)&&(j%29==1||j==i||j==n||j==i+1||j==i+2))) isyms(w,a,i,j);
  if(ops&2){ lexc(w,a,q); syms(w,a,q,d); }
  if(ops&4) for(uint64_t i=0;i<n;i++) for(uint64_t j=i;j<n;j++) if(!lk||(look(i,n)&&(j%41==1||j==i||j==n-1))) { quant(w,a,i,j); if(i%2==0||j==n-1){ r2d(w,a,q,i,j); rurv(w,a,q,i,j); } }
  if(ops&8){ if(!lk) for(uint64_t i=0;i<n;i++) for(uint64_t j=i;j<n;j++) for(uint64_t k=0;k<n;k+=2){ inter(w,a,{range_type{{i,j}},range_type{{k,n-1}}},(i+j+k)%3); inter(w,a,{range_type{{i,j}},range_type{{k,k}},range_type{{0,k}}},(i+j+k)%4); } else for(uint64_t i=0;i<n;i++) if(look(i,n)){ inter(w,a,{range_type{{0,i}},range_type{{i,n-1}}},0); inter(w,a,{range_type{{i/2,i}},range_type{{i,n-1}},range_type{{3,5}}},2); } inter(w,a,{range_type{{0,n-1}}},0); }
  if(ops&16){ leaves.clear(); nodes=0; walk(w,w.root(),a); U l(leaves); std::sort(l.begin(),l.end()); sym_assert(l==d,"leaves are the alphabet"); }
  sym_cover("range"); }
