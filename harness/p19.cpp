// P19: compressed suffix arrays against the naively sorted suffixes.
#include "csa.hpp"
template<class A,class F> static void iter(const A& v,uint64_t n,F f,const char* w){ uint64_t i=0; for(auto it=v.begin();it!=v.end();++it,++i){ if(i>=n){ i++; break; } if(tlook(i,n)) sym_assert((uint64_t)*it==f(i),w); } sym_assert(i==n,w); }
static void chk(const csa_t& x,const ref& r,int lvl){ uint64_t n=r.n; const seq&a=r.a,&e=r.e,&s=r.isa;
  sym_assert(x.size()==n,"size"); sym_assert(!x.empty(),"empty"); if(x.size()!=n) return;
  for(uint64_t i=0;i<n;i++) if(tlook(i,n)){ sym_assert(x[i]==e[i],"SA"); sym_assert(x.isa[i]==s[i],"ISA"); sym_assert(x.psi[i]==s[(e[i]+1)%n],"psi"); sym_assert(x.bwt[i]==a[(e[i]+n-1)%n],"bwt"); sym_assert(x.text[i]==a[i],"text");
    if(lvl){ sym_assert(x.lf[i]==s[(e[i]+n-1)%n],"lf"); sym_assert(x.L[i]==a[(e[i]+n-1)%n],"L"); sym_assert(x.F[i]==a[e[i]],"F"); } }
  sym_assert(x.sigma==r.cnt.size(),"sigma"); uint64_t j=0,C=0; for(auto&p:r.cnt){ sym_assert(x.comp2char[j]==p.first,"comp2char"); sym_assert(x.char2comp[p.first]==j,"char2comp"); sym_assert(x.C[j]==C,"C"); C+=p.second; j++; } sym_assert(x.C[j]==n,"C total");
  std::vector<uint64_t> cs; for(auto&p:r.cnt) if(cs.size()<8||p.first>=250) cs.push_back(p.first); uint64_t ab[]={1,96,100,255,77,9,400,(1ULL<<40)+3}; for(uint64_t c:ab){ if(IW==8) c&=255; if(!r.cnt.count(c)){ sym_assert(x.char2comp[c]==0,"char2comp absent"); if(lvl) cs.push_back(c); } }
  for(uint64_t c:cs){ uint64_t k=0; for(uint64_t i=0;i<=n;i++){ if(tlook(i,n)) sym_assert(x.bwt.rank(i,c)==k,"bwt.rank"); if(i<n&&a[(e[i]+n-1)%n]==c){ k++; if(tlook(i,n)) sym_assert(x.bwt.select(k,c)==i,"bwt.select"); } } sym_assert(x.bwt.select(k+1,c)==n,"bwt.select beyond"); sym_assert(x.bwt.select(k+7,c)==n,"bwt.select beyond"); }
  if(lvl){ iter(x,n,[&](uint64_t i){ return e[i]; },"begin..end"); iter(x.psi,n,[&](uint64_t i){ return s[(e[i]+1)%n]; },"psi iterator"); iter(x.lf,n,[&](uint64_t i){ return s[(e[i]+n-1)%n]; },"lf iterator"); iter(x.bwt,n,[&](uint64_t i){ return a[(e[i]+n-1)%n]; },"bwt iterator"); iter(x.isa,n,[&](uint64_t i){ return s[i]; },"isa iterator"); iter(x.text,n,[&](uint64_t i){ return a[i]; },"text iterator"); iter(x.F,n,[&](uint64_t i){ return a[e[i]]; },"F iterator");
    sym_assert(x.psi.size()==n&&x.lf.size()==n&&x.bwt.size()==n&&x.text.size()==n&&x.F.size()==n&&x.L.size()==n,"size of the views"); sym_assert(!x.psi.empty()&&!x.lf.empty()&&!x.bwt.empty()&&!x.text.empty()&&!x.F.empty()&&!x.isa.empty(),"empty of the views"); }
}
extern "C" void __sym_main(){ sym_merge(0); seq t=gentext(); ref r=mkref(t); uint64_t vs=sym_cfg("vs",0);
  { csa_t z; sym_assert(z.size()==0&&z.empty(),"default constructed"); }
  csa_t* x=new csa_t; mk(*x,t,sym_cfg("nb",0)); chk(*x,r,1);
  if(vs){ seq t2={tsym(0,0),tsym(0,2),tsym(0,0)}; ref r2=mkref(t2); csa_t* y=new csa_t; mk(*y,t2,0,"@txt2");
    csa_t* c=new csa_t(*x); csa_t* as=new csa_t; *as=*y; *as=*x; store_to_file(*x,"@csa"); csa_t* l=new csa_t; load_from_file(*l,"@csa"); csa_t* l2=new csa_t(*y); load_from_file(*l2,"@csa");
    csa_t* m=new csa_t(std::move(*x)); delete x; chk(*m,r,0); chk(*c,r,0); chk(*as,r,0); chk(*l,r,0); chk(*l2,r,0);
    m->swap(*y); chk(*y,r,0); chk(*m,r2,0); csa_t* q=new csa_t; *q=std::move(*y); delete y; chk(*q,r,0); q->swap(*m); delete q; chk(*m,r,0); csa_t* em=new csa_t; em->swap(*m); sym_assert(m->empty(),"swap with an empty index"); delete m; chk(*em,r,1); *l=csa_t(); sym_assert(l->empty(),"assigned an empty index"); }
  sym_cover("csa"); }
