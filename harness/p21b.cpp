// P21: balanced parentheses of the Super-Cartesian tree; the three constructions against a stack-free definition.
#include "sym.h"
#include <sdsl/int_vector.hpp>
#include <sdsl/int_vector_buffer.hpp>
#include <sdsl/suffix_tree_helper.hpp>
#include <sdsl/ram_fs.hpp>
#include <vector>
#include <stack>
using namespace sdsl;
// opening parenthesis i is closed right before the first j>i with v[j]<v[i] (minimum) resp. v[j]>v[i] opens
static std::vector<int> def(const std::vector<uint64_t>& v,bool mn){ std::vector<int> b; uint64_t n=v.size(); for(uint64_t j=0;j<=n;j++){ for(uint64_t i=0;i<j;i++){ uint64_t e=i+1; while(e<n&&!(mn?v[e]<v[i]:v[e]>v[i])) e++; if(e==j) b.push_back(0); } if(j<n) b.push_back(1); } return b; }
extern "C" void __sym_main(){ sym_merge(0); uint64_t n=sym_cfg("n",4),k=sym_cfg("k",3),wo=sym_cfg("wo",0),wl=sym_cfg("wl",n); std::vector<uint64_t> v(n); for(uint64_t i=0;i<n;i++) v[i]=i>=wo&&i<wo+wl?sym_conc(sym_rangei("v",i,0,k-1)):(i*2654435761ULL>>12)%n;
  int_vector<> iv(n,0,sym_cfg("w",8)); for(uint64_t i=0;i<n;i++) iv[i]=v[i]; store_to_file(iv,"@lcp");
  for(int mn=sym_cfg("mn",0);mn<2;mn++){ std::vector<int> d=def(v,mn); bit_vector b[4]; construct_supercartesian_tree_bp(iv,b[0],(bool)mn); b[1]=construct_supercartesian_tree_bp_succinct(iv,(bool)mn); int_vector_buffer<> buf("@lcp"); b[2]=construct_supercartesian_tree_bp_succinct(buf,(bool)mn); bit_vector fc; uint64_t cnt=construct_supercartesian_tree_bp_succinct_and_first_child(buf,b[3],fc,(bool)mn);
    for(int x=0;x<4;x++){ sym_assert(b[x].size()==2*n,"size"); if(b[x].size()==2*n) for(uint64_t i=0;i<2*n;i++) sym_assert(b[x][i]==d[i],"super-cartesian tree parentheses"); }
    sym_assert(fc.size()==n,"first child size"); uint64_t c2=0; for(uint64_t i=0;i<fc.size();i++) c2+=fc[i]; sym_assert(c2==cnt,"first child count");
    // the c-th closing parenthesis is marked iff the element below it on the stack differs (or the stack is empty)
    std::vector<uint64_t> st; uint64_t c=0,o=0; for(uint64_t i=0;i<2*n;i++){ if(d[i]) st.push_back(v[o++]); else { uint64_t t=st.back(); st.pop_back(); if(c<fc.size()) sym_assert(fc[c]==(st.empty()||st.back()!=t),"first child bit"); c++; } } }
  sym_cover("cst"); }
