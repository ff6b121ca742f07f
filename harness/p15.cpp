// P15: balanced parentheses supports against scans of the sequence.
#include "sym.h"
#include <vector>
#include <sdsl/bit_vectors.hpp>
#include <sdsl/bp_support.hpp>
using namespace sdsl;
#ifndef BPT
#define BPT bp_support_sada<>
#endif
#ifndef KIND
#define KIND 0
#endif
typedef std::vector<int> V;
// prefix (structured, balanced or with open parentheses left), symbolic window, optional structured middle, second window, suffix closing everything
static void pat(V& b,uint64_t kind,uint64_t m,uint64_t salt){ for(uint64_t i=0;i<m;i++){ uint64_t h=((i+salt)*2654435761ULL)>>15; switch(kind){ case 1: b.push_back(1); break; case 2: b.push_back(1); b.push_back(0); break; case 3: b.push_back(1); if(i%3) b.push_back(0); break; case 4: { int d=0; for(int x:b) d+=x?1:-1; if(h%5<2&&d>1) b.push_back(0); else b.push_back(1); break; } case 5: { b.push_back(1); b.push_back(1); b.push_back(0); b.push_back(i%4!=0?0:1); break; } case 6: for(uint64_t k=0;k<i%9;k++) b.push_back(1); for(uint64_t k=0;k<i%9;k++) b.push_back(0); break; case 7: { int d=0; for(int x:b) d+=x?1:-1; if(d>1) b.push_back(0); else b.push_back(1); break; } } } }
static void win(V& b,uint64_t w,uint64_t lo,uint64_t from){ int d=0; for(int x:b) d+=x?1:-1; for(uint64_t i=0;i<w;i++){ uint64_t bit=(d<=(int)lo)?1:sym_conc(sym_rangei("b",from+i,0,1)); b.push_back(bit); d+=bit?1:-1; } }
extern "C" void __sym_main(){ sym_merge(0);
  uint64_t w=sym_cfg("w",6),pk=sym_cfg("pk",0),pm=sym_cfg("pm",0),mk=sym_cfg("mk",0),mm=sym_cfg("mm",0),w2=sym_cfg("w2",0),sk=sym_cfg("sk",0),sm=sym_cfg("sm",0),root=sym_cfg("root",1); V b; if(root) b.push_back(1); pat(b,pk,pm,0); uint64_t p0=b.size(); win(b,w,root,0); uint64_t p1=b.size(); pat(b,mk,mm,77); uint64_t p2=b.size(); win(b,w2,root,w); uint64_t p3=b.size(); pat(b,sk,sm,5); int d=0; for(int x:b) d+=x?1:-1; for(int i=0;i<d;i++) b.push_back(0);
  uint64_t n=b.size(); bit_vector bv(n,0); for(uint64_t i=0;i<n;i++) bv[i]=b[i];
  std::vector<uint64_t> mt(n),en(n,n),opn; std::vector<int64_t> ex(n); { std::vector<uint64_t> st; int64_t e=0; for(uint64_t i=0;i<n;i++){ if(b[i]){ if(!st.empty()) en[i]=st.back(); st.push_back(i); opn.push_back(i); e++; } else { mt[i]=st.back(); mt[st.back()]=i; st.pop_back(); e--; } ex[i]=e; } }
  const BPT bp(&bv); bool lk=n>30; uint64_t step=sym_cfg("step",1);
  auto near=[&](uint64_t i){ return !lk||i<2||i+2>=n||(i+1>=p0&&i<=p1+1)||(i+1>=p2&&i<=p3+1&&w2); };
  // positions: all near the windows, their partners, and a sample
  std::vector<uint64_t> ps; for(uint64_t i=0;i<n;i++) if(near(i)||near(mt[i])||i%step==0) ps.push_back(i);
  sym_assert(bp.size()==n,"size");
  uint64_t r=0,pc=0; { uint64_t k=0; for(uint64_t i=0;i<n;i++){ bool in=k<ps.size()&&ps[k]==i; if(in) k++; if(in){
      sym_assert((int64_t)bp.excess(i)==ex[i],"excess"); sym_assert((uint64_t)bp.preceding_closing_parentheses(i)==pc,"preceding_closing_parentheses"); }
    r+=b[i]; pc=b[i]?0:pc+1; if(in){ sym_assert((uint64_t)bp.rank(i)==r,"rank"); if(b[i]){ sym_assert((uint64_t)bp.select(r)==i,"select"); sym_assert((uint64_t)bp.find_close(i)==mt[i],"find_close"); sym_assert((uint64_t)bp.enclose(i)==en[i],"enclose"); sym_assert((uint64_t)bp.find_open(i)==i,"find_open of opening");
#if KIND==0
      { uint64_t x=i,dd=0; for(;;dd++){ sym_assert((uint64_t)bp.level_anc(i,dd)==x,"level_anc"); if(x==n) break; x=en[x]; if(lk&&dd>12) break; } }
#endif
    } else { sym_assert((uint64_t)bp.find_open(i)==mt[i],"find_open"); sym_assert((uint64_t)bp.find_close(i)==i,"find_close of closing"); sym_assert((uint64_t)bp.enclose(i)==mt[i],"enclose of closing"); } } } }
  uint64_t ops=sym_cfg("ops",3); std::vector<uint64_t> qs; uint64_t s2=sym_cfg("step2",step); for(uint64_t i=0;i<n;i++) if(near(i)||near(mt[i])||i%s2==0) qs.push_back(i);
  if(ops&1) for(uint64_t i:qs) if(b[i]) for(uint64_t j:qs) if(j>mt[i]&&b[j]){ // smallest opening k between mt[i] and j whose closing is behind mt[j]
    uint64_t k=n; for(uint64_t t=en[j];t!=n&&t>mt[i];t=en[t]) k=t; uint64_t de=en[k==n?j:k]; sym_assert((uint64_t)bp.rr_enclose(i,j)==k,"rr_enclose"); sym_assert((uint64_t)bp.double_enclose(i,j)==de,"double_enclose"); if(!lk) sym_assert((uint64_t)bp.rr_enclose_naive(i,j)==k,"rr_enclose_naive"); }
  if(ops&2) for(uint64_t l:qs) for(uint64_t h:qs) if(l<=h){ int64_t m=ex[l]; uint64_t ro=n; for(uint64_t t=l;t<=h;t++) m=ex[t]<m?ex[t]:m; for(uint64_t t=l;t<h;t++) if(b[t]&&mt[t]>=h){ ro=t; break; } uint64_t g=bp.rmq(l,h); sym_assert(g>=l&&g<=h,"rmq position"); if(g<=h) sym_assert(ex[g]==m,"rmq minimum"); if(h+1<n) sym_assert((uint64_t)bp.rmq_open(l,h)==ro,"rmq_open"); }
  sym_cover("bp"); }
