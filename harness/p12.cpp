// P12/P13: access, rank, select and inverse_select of a wavelet structure against a scan of the sequence.
#include "wtspec.hpp"
using namespace sdsl;
extern "C" void __sym_main(){ sym_merge(0);
  uint64_t al; seq a=gen(al); uint64_t n=a.size(); wt_t w=build(a,sym_cfg("extra",0)); std::vector<uint64_t> d=distinct(a);
  sym_assert(w.size()==n,"size"); sym_assert(w.empty()==(n==0),"empty"); sym_assert(w.sigma==d.size(),"sigma");
  std::vector<uint64_t> q(d); for(uint64_t j=0;j<8;j++) q.push_back(alsym(al,j)); if(IW==8){ q.push_back(0); q.push_back(1); q.push_back(255); q.push_back(98); } else { q.push_back(0); q.push_back(d.empty()?0:d.back()+1); q.push_back(1ULL<<20); q.push_back(~0ULL); if(!d.empty()&&d[0]) q.push_back(d[0]-1); } q=distinct(q);
  for(uint64_t i=0;i<n;i++) if(look(i,n)){ sym_assert((uint64_t)w[i]==a[i],"access"); uint64_t r=0; for(uint64_t j=0;j<i;j++) r+=a[j]==a[i]; auto p=w.inverse_select(i); sym_assert(p.second==a[i],"inverse_select symbol"); sym_assert(p.first==r,"inverse_select rank"); }
  for(uint64_t c:q){ uint64_t cnt=0; bool big=d.size()>20&&c%16!=1; if(n==0){ sym_assert(w.rank(0,c)==0,"rank of the empty sequence"); continue; }
    for(uint64_t i=0;i<=n;i++){ if(i==n||(look(i,n)&&(!big||i%16==0))) sym_assert(w.rank(i,c)==cnt,"rank"); if(i<n&&a[i]==c){ cnt++; if(look(i,n)||cnt%64<2) sym_assert(w.select(cnt,c)==i,"select"); } } }
#ifndef NOITER
  { uint64_t i=0; for(auto it=w.begin();it!=w.end();++it,++i) if(i<8) sym_assert((uint64_t)*it==a[i],"iterator"); sym_assert(i==n,"iterator range"); }
#endif
  sym_cover("wt"); }
