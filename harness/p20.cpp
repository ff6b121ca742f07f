// P20: pattern search on compressed suffix arrays against naive matching.
#include "csa.hpp"
typedef csa_t::string_type pat_t; typedef csa_t::char_type ch_t;
// suffixes (positions in the suffix array) of r.a starting with p
static bool pre(const ref& r,uint64_t s,const seq& p){ for(uint64_t j=0;j<p.size();j++) if(s+j>=r.n||r.a[s+j]!=p[j]) return false; return true; }
struct iv { uint64_t l,r,c; };
static iv naive(const ref& r,const seq& p){ iv v{0,0,0}; for(uint64_t i=0;i<r.n;i++) if(pre(r,r.e[i],p)){ if(!v.c) v.l=i; v.r=i; v.c++; } return v; }
static pat_t str(const seq& p){ pat_t s(p.size(),0); for(uint64_t i=0;i<p.size();i++) s[i]=(ch_t)p[i]; return s; }
static seq pattern(){ uint64_t m=sym_cfg("m",2),k=sym_cfg("pk",3),al=sym_cfg("al",0),z=sym_cfg("z",0); seq p(m); for(uint64_t i=0;i<m;i++) p[i]=tsym(al,sym_conc(sym_rangei("p",i,0,k-1))); if(z) p.push_back(0); return p; }
static void search(const csa_t& x,const ref& r,const seq& p){ uint64_t n=r.n; pat_t s=str(p); iv v=naive(r,p); csa_t::size_type l=7,rr=7;
  sym_assert(count(x,s)==v.c,"count"); sym_assert(count(x,s.begin(),s.end())==v.c,"count of a range"); if(v.c) sym_cover("match");
  uint64_t k=backward_search(x,0,n-1,s.begin(),s.end(),l,rr); sym_assert(k==v.c,"backward_search size"); if(v.c) sym_assert(l==v.l&&rr==v.r,"backward_search interval"); else sym_assert(rr+1-l==0,"backward_search empty interval");
  auto li=lex_interval(x,s.begin(),s.end()); if(v.c) sym_assert(li[0]==v.l&&li[1]==v.r,"lex_interval"); else sym_assert(li[1]+1-li[0]==0,"lex_interval empty");
  l=rr=7; k=forward_search(x,0,n-1,s.begin(),s.end(),l,rr); sym_assert(k==v.c,"forward_search size"); if(v.c) sym_assert(l==v.l&&rr==v.r,"forward_search interval");
  { auto o=locate(x,s); sym_assert(o.size()==v.c,"locate size"); for(uint64_t i=0;i<o.size()&&i<v.c;i++) sym_assert(o[i]==r.e[v.l+i],"locate"); std::vector<uint64_t> q=locate<csa_t,pat_t::iterator,std::vector<uint64_t> >(x,s.begin(),s.end()); sym_assert(q.size()==v.c,"locate range size"); for(uint64_t i=0;i<q.size()&&i<v.c;i++) sym_assert(q[i]==r.e[v.l+i],"locate range"); }
  if(p.size()==1&&p[0]&&n<=20){ ch_t c=(ch_t)p[0]; for(uint64_t a=0;a<n;a++) for(uint64_t b=a;b<n;b++){ uint64_t C=0,ra=0,m=0; for(uint64_t i=0;i<n;i++){ C+=r.a[i]<c; uint64_t w=r.a[(r.e[i]+n-1)%n]; if(w==c){ if(i<a) ra++; else if(i<=b) m++; } }
      l=rr=7; k=backward_search(x,a,b,c,l,rr); sym_assert(k==m,"backward_search by a symbol"); if(m) sym_assert(l==C+ra&&rr==C+ra+m-1,"backward_search interval by a symbol"); else sym_assert(rr+1-l==0,"empty interval by a symbol");
      uint64_t fl=n,fc=0; for(uint64_t i=a;i<=b;i++) if(r.a[r.e[i]]==c){ if(!fc) fl=i; fc++; } l=rr=7; k=forward_search(x,a,b,c,l,rr); sym_assert(k==fc,"forward_search by a symbol"); if(fc) sym_assert(l==fl&&rr==fl+fc-1,"forward_search interval by a symbol"); } }
  else if(n<=20&&p.size()&&p.back()) for(uint64_t a=0;a<n;a++) for(uint64_t b=a;b<n;b+=1+b/3){ l=rr=7; k=forward_search(x,a,b,s.begin(),s.end(),l,rr); uint64_t fl=n,fc=0; for(uint64_t i=a;i<=b;i++) if(pre(r,r.e[i],p)){ if(!fc) fl=i; fc++; } sym_assert(k==fc,"forward_search in an interval"); if(fc) sym_assert(l==fl&&rr==fl+fc-1,"forward_search borders in an interval"); } }
static void extr(const csa_t& x,const ref& r){ uint64_t n=r.n; for(uint64_t b=0;b<n;b++) if(tlook(b,n)) for(uint64_t e=b;e<n;e++) if(n<=12||e==b||e==n-1||e==b+7||(tlook(e,n)&&(e+b)%5==0)){ pat_t t=extract(x,b,e); sym_assert(t.size()==e-b+1,"extract size"); for(uint64_t i=b;i<=e&&i-b<t.size();i++) sym_assert((ch_t)t[i-b]==r.a[i],"extract"); std::vector<uint64_t> v(e-b+3,~0ULL); sym_assert(extract(x,b,e,v.begin()+1)==e-b+1,"extract length"); sym_assert(v[0]==~0ULL&&v[e-b+2]==~0ULL,"extract outside"); for(uint64_t i=b;i<=e;i++) sym_assert((ch_t)v[1+i-b]==r.a[i],"extract to iterator"); } }
#ifdef BIDI
static void same(uint64_t l,uint64_t r,uint64_t k,const iv& v,const char* w){ sym_assert(k==v.c,w); if(v.c) sym_assert(l==v.l&&r==v.r,w); else sym_assert(r+1-l==0,w); }
static void bidi(const csa_t& f,const csa_t& b,const ref& rf,const ref& rb,const seq& p){ uint64_t n=rf.n; for(uint64_t st=0;st<=p.size();st++) for(uint64_t order=0;order<3;order++){ // p[st..) forward and p[..st) backward in three orders
    uint64_t lf=0,qf=n-1,lb=0,qb=n-1,lo=st,hi=st; bool ok=true; for(uint64_t step=0;ok&&(lo>0||hi<p.size());step++){ bool fw= hi<p.size()&&(lo==0||(order==0)||(order==1&&step%2==0)); uint64_t take=1; seq part; uint64_t k;
      if(fw){ if(order==2) take=p.size()-hi; part.assign(p.begin()+hi,p.begin()+hi+take); hi+=take; std::string s=str(part); k=bidirectional_search_forward(f,b,lf,qf,lb,qb,s.begin(),s.end(),lf,qf,lb,qb); }
      else { if(order==2) take=lo; part.assign(p.begin()+lo-take,p.begin()+lo); lo-=take; std::string s=str(part); k=bidirectional_search_backward(f,b,lf,qf,lb,qb,s.begin(),s.end(),lf,qf,lb,qb); }
      seq w(p.begin()+lo,p.begin()+hi),wr(w.rbegin(),w.rend()); same(lf,qf,k,naive(rf,w),"bidirectional search: forward index"); iv vb=naive(rb,wr); same(lb,qb,k,vb,"bidirectional search: backward index"); if(!k) ok=false; } } }
#endif
extern "C" void __sym_main(){ sym_merge(0); seq t=gentext(); ref r=mkref(t); csa_t x; if(sym_cfg("m",2)<3){ csa_t z; pat_t s(1,97); sym_assert(count(z,s)==0,"count in an empty index"); sym_assert(locate(z,s).size()==0,"locate in an empty index"); } mk(x,t,0);
#ifdef BIDI
  { seq tr(t.rbegin(),t.rend()); ref rr=mkref(tr); csa_t y; mk(y,tr,0,"@rev"); bidi(x,y,r,rr,pattern()); }
#else
  if(sym_cfg("ex",0)) extr(x,r); else if(sym_cfg("sub",0)){ uint64_t m=sym_cfg("m",2); for(uint64_t o=0;o+m<=t.size();o++) if(tlook(o,t.size())){ seq p(t.begin()+o,t.begin()+o+m); search(x,r,p); p.push_back(0); search(x,r,p); p.back()=p[0]; search(x,r,p); } } else search(x,r,pattern());
#endif
  sym_cover("search"); }
