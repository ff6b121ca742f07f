#include "sym.h"
#include <sdsl/wavelet_trees.hpp>
using namespace sdsl;
extern "C" void __sym_main(){
  int_vector<8> t(5,0); for(int i=0;i<5;i++) t[i]=97+sym_conc(sym_ui("c",i,1));
  store_to_file(t,"@t"); int_vector_buffer<8> b("@t",std::ios::in,16,8,false); wt_huff<> w(b,5); for(int i=0;i<5;i++) sym_assert(w[i]==t[i],"access");
}
