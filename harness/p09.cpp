// P09: sd_vector built from a bit vector, from sorted positions, and through the builder.
#include "cbv.hpp"
#include <vector>
typedef sd_vector<> SD;
static void chk(const bit_vector& v,const SD& b,uint64_t wo,uint64_t wl,uint64_t step){ { select_0_support_sd<> s0(&b); uint64_t c=0; for(uint64_t i=0;i<v.size();i++) if(!v[i]){ c++; if(i%step==0||i+step>v.size()||(i+20>=wo&&i<=wo+wl+20)) sym_assert(s0(c)==i,"select_0_support_sd"); } } cbv_check<SD,rank_support_sd<1>,rank_support_sd<0>,select_support_sd<1>,select_support_sd<0>,true>(v,b,wo,wl,step); }
extern "C" void __sym_main(){
  uint64_t op=sym_cfg("op",0),n=sym_cfg("n",64),bg=sym_cfg("bg",0),wo=sym_cfg("wo",0),wl=sym_cfg("wl",n),step=sym_cfg("step",1);
  sym_merge(0); 
  if(op<=3||op==5){ bit_vector v; mkbv(v,n,bg,wo,wl,sym_cfg("tail",0),"w",sym_cfg("conc",0)?2:1);
    if(op==5){ typedef sd_vector<rrr_vector<63>> S2; S2 b(v); cbv_check<S2,S2::rank_1_type,S2::rank_0_type,S2::select_1_type,S2::select_0_type,true>(v,b,wo,wl,step); }
    else if(op==0){ SD b(v); chk(v,b,wo,wl,step); }
    else { std::vector<uint64_t> pos; for(uint64_t i=0;i<n;i++) if(v[i]) pos.push_back(i);
      if(op==1){ SD b(pos.begin(),pos.end()); uint64_t m=pos.empty()?0:pos.back()+1; bit_vector u(m,0); for(auto p:pos) u[p]=1; chk(u,b,wo,wl,step); }
      else { sd_vector_builder bl(n,pos.size()); for(auto p:pos) bl.set(p); sym_assert(bl.items()==pos.size()&&bl.size()==n&&bl.capacity()==pos.size(),"builder counters"); SD b(bl); chk(v,b,wo,wl,step);
        if(op==3){ bool thr=false; try { sd_vector_builder b2(2,3); } catch(const std::runtime_error&){ thr=true; } sym_assert(thr,"builder capacity");
          if(!pos.empty()&&pos.size()<n){ sd_vector_builder b3(n,pos.size()+1); for(auto p:pos) b3.set(p); thr=false; try { SD x(b3); } catch(const std::runtime_error&){ thr=true; } sym_assert(thr,"builder not full"); } } } } }
  else { // sparse sets of m positions with large symbolic gaps
    uint64_t m=sym_cfg("m",3),g=sym_cfg("g",20); std::vector<uint64_t> pos; uint64_t p=0; for(uint64_t i=0;i<m;i++){ uint64_t d=sym_rangei("d",i,0,g); d=sym_conc(d); p+=d*sym_cfg("scale",97)+(i>0); pos.push_back(p); }
    uint64_t sz=p+1; SD b(pos.begin(),pos.end()); sym_assert(b.size()==sz,"size"); rank_support_sd<1> r1(&b); rank_support_sd<0> r0(&b); select_support_sd<1> s1(&b); select_support_sd<0> s0(&b);
    for(uint64_t i=0;i<m;i++){ uint64_t x=pos[i]; sym_assert(b[x]==1,"access"); sym_assert(s1(i+1)==x,"select1"); sym_assert(r1(x)==i&&r1(x+1)==i+1,"rank1"); sym_assert(r0(x)==x-i,"rank0"); uint64_t pr=i?pos[i-1]+1:0;
      if(x>pr){ for(uint64_t q:{pr,(pr+x)/2,x-1}){ sym_assert(b[q]==0,"access"); sym_assert(r1(q)==i,"rank1"); sym_assert(s0(q-i+1)==q,"select0"); } } }
    sym_assert(r1(sz)==m,"rank1(size)"); sym_cover("done"); }
}
