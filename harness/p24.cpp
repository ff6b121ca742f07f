// P24: nearest-neighbour dictionaries and LOUDS trees.
#include "sym.h"
#include <vector>
#include <deque>
#include <algorithm>
#include <sdsl/bit_vectors.hpp>
#include <sdsl/nn_dict_dynamic.hpp>
#include <sdsl/nearest_neighbour_dictionary.hpp>
#include <sdsl/louds_tree.hpp>
using namespace sdsl;
typedef std::vector<uint64_t> U;
static uint64_t bgbit(uint64_t k,uint64_t i,uint64_t n){ uint64_t h=(i*2654435761ULL)>>14; switch(k){ case 1: return 1; case 2: return i%64==0; case 3: return h%3==0; case 4: return h%41==0; case 5: return i<n/2; case 6: return i>=n/2; case 7: return i%4096==5; case 8: return i+1==n; case 9: return i==0; case 10: return i%200<2; } return 0; }
#if KIND==0
static void look(const nn_dict_dynamic& d,const std::vector<int>& b,const U& ps){ uint64_t n=b.size(); uint64_t p=n; uint64_t t=0; U nx(ps.size(),n); for(uint64_t i=0;i<ps.size();i++){ for(;t<=ps[i];t++) if(b[t]) p=t; sym_assert((uint64_t)d[ps[i]]==(uint64_t)b[ps[i]],"access"); sym_assert(d.prev(ps[i])==p,"prev"); }
  uint64_t q=n; t=n; for(uint64_t i=ps.size();i-->0;){ while(t>ps[i]){ t--; if(b[t]) q=t; } sym_assert(d.next(ps[i])==q,"next"); } }
extern "C" void __sym_main(){ sym_merge(0);
  uint64_t n=sym_cfg("n",100),L=sym_cfg("L",3),bg=sym_cfg("bg",0),k=sym_cfg("k",6),full=sym_cfg("full",0),off=sym_cfg("off",0); nn_dict_dynamic d(n); std::vector<int> b(n,0); sym_assert(d.size()==n,"size");
  for(uint64_t i=0;i<n;i++) b[i]=full?sym_conc(sym_rangei("b",i,0,1)):bgbit(bg,i,n); for(uint64_t i=0;i<n;i++) if(b[i]||i%97==0) d[i]=b[i];
  static const uint64_t cand[]={0,63,64,65,127,4095,4096,4097,128,1,4160,8191,8192,100,31}; U up; if(off) for(uint64_t i=0;i<k;i++) up.push_back(std::min(n-1,off+cand[i%4]*(i/4+1))); else { for(uint64_t c:cand) if(c<n&&up.size()+1<k) up.push_back(c); up.push_back(n-1); }
  U ps(up); for(uint64_t c:up){ if(c) ps.push_back(c-1); if(c+1<n) ps.push_back(c+1); } uint64_t st=n<=40?1:n/sym_cfg("smp",13)+1; for(uint64_t i=0;i<n;i+=st) ps.push_back(i); std::sort(ps.begin(),ps.end()); ps.erase(std::unique(ps.begin(),ps.end()),ps.end());
  look(d,b,ps); const nn_dict_dynamic& cd=d; for(uint64_t i=0;i<L;i++){ uint64_t o=sym_conc(sym_rangei("o",i,0,2*up.size()-1)); uint64_t p=up[o/2]; d[p]=o&1; b[p]=o&1; sym_assert((bool)d[p]==(o&1),"written bit"); look(cd,b,ps); }
  nn_dict_dynamic e(d); nn_dict_dynamic f; f=e; look(f,b,ps); nn_dict_dynamic g(3); g[1]=1; g.swap(f); look(g,b,ps); sym_assert(f.size()==3&&f.next(0)==1,"swapped"); nn_dict_dynamic h(std::move(g)); look(h,b,ps); util::set_zero_bits(h); std::fill(b.begin(),b.end(),0); look(h,b,ps);
  sym_cover("nn"); }
#elif KIND==1
#ifndef DENS
#define DENS 4
#endif
extern "C" void __sym_main(){ sym_merge(0);
  uint64_t n=sym_cfg("n",8),bg=sym_cfg("bg",0),wo=sym_cfg("wo",0),wl=sym_cfg("wl",n),step=sym_cfg("step",1); bit_vector v(n,0); U one; for(uint64_t i=0;i<n;i++){ uint64_t x=(i>=wo&&i<wo+wl)?sym_conc(sym_rangei("b",i,0,1)):bgbit(bg,i,n); v[i]=x; if(x) one.push_back(i); }
  nearest_neighbour_dictionary<DENS> d(v); sym_assert(d.size()==n&&d.ones()==one.size(),"size/ones"); auto near=[&](uint64_t i){ return n<=40||i<3||i+3>n||(i+3>wo&&i<wo+wl+3)||i%step==0; };
  uint64_t r=0; for(uint64_t i=0;i<=n;i++){ if(near(i)){ sym_assert(d.rank(i)==r,"rank"); if(i<n){ if(r||v[i]) sym_assert(d.prev(i)==(v[i]?i:one[r-1]),"prev"); if(r<one.size()) sym_assert(d.next(i)==one[r],"next"); } } if(i<n) r+=v[i]; }
  for(uint64_t j=1;j<=one.size();j++) if(n<=40||j%7==0||j<3||j+2>one.size()||near(one[j-1])) sym_assert(d.select(j)==one[j-1],"select");
  sym_cover("nn"); }
#else
// ordinal trees without unary inner nodes, given through the breadth-first interface a suffix tree offers
struct tree{ std::vector<U> ch; U par; uint64_t leaves; };
struct fake{ const tree* t; uint64_t size(uint64_t) const { return t->leaves; } };
struct bfs{ const tree* t; std::deque<uint64_t> q; bool valid; uint64_t size() const { return q.size(); } uint64_t operator*() const { return q.front(); } bfs& operator++(){ uint64_t v=q.front(); q.pop_front(); for(uint64_t c:t->ch[v]) q.push_back(c); return *this; } bool operator!=(const bfs& o) const { return q.size()!=o.q.size(); } };
#ifndef LBV
#define LBV bit_vector
#endif
typedef louds_tree<LBV> LT;
static void check(const LT& lt,const tree& t){ uint64_t m=t.ch.size(); sym_assert(lt.nodes()==m,"nodes"); std::vector<louds_node> nd(m); nd[0]=lt.root(); sym_assert(lt.parent(lt.root())==lt.root(),"parent of root"); for(uint64_t v=0;v<m;v++){ sym_assert(lt.id(nd[v])==v,"id"); sym_assert(lt.is_leaf(nd[v])==t.ch[v].empty(),"is_leaf"); sym_assert(lt.degree(nd[v])==t.ch[v].size(),"degree"); if(v) sym_assert(lt.parent(nd[v])==nd[t.par[v]],"parent"); for(uint64_t i=0;i<t.ch[v].size();i++) nd[t.ch[v][i]]=lt.child(nd[v],i+1); } }
extern "C" void __sym_main(){ sym_merge(0);
  uint64_t maxn=sym_cfg("n",7),k=sym_cfg("k",3),L=sym_cfg("L",4),rep=sym_cfg("rep",0); tree t; t.ch.push_back(U()); t.par.push_back(0);
  // nodes get their degree in breadth-first order
  for(uint64_t v=0;v<t.ch.size();v++){ uint64_t d=0; if(v<L) d=sym_conc(sym_rangei("d",v,0,k)); else if(rep&&v<rep) d=(v*7)%5==0?2+(v%4):0; if(d==1) d=0; if(t.ch.size()+d>maxn) d=0; for(uint64_t i=0;i<d;i++){ t.ch[v].push_back(t.ch.size()); t.ch.push_back(U()); t.par.push_back(v); } }
  t.leaves=0; for(auto&c:t.ch) t.leaves+=c.empty(); fake f{&t}; bfs b{&t,{0},true},e{&t,{},false}; LT lt(f,b,e); check(lt,t); LT l2(lt); check(l2,t); LT l3(std::move(l2)); check(l3,t); lt=l3; check(lt,t);
  sym_cover("nn"); }
#endif
