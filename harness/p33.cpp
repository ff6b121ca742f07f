// P33: one object read by several threads, several objects each used by its own thread.
#include "kinds.hpp"
#include <sdsl/structure_tree.hpp>
static uint64_t df(const D& a,const D& b){ if(a.size()!=b.size()) return 1; uint64_t r=0; for(uint64_t i=0;i<a.size();i++) r|=a[i]!=b[i]; return r; }
// the front end for texts in memory
static int_vector<IW> iv_(const seq& a){ uint64_t mx=1; for(auto v:a) mx=std::max(mx,v); int_vector<IW> t(a.size(),0,IW==8?8:bits::hi(mx)+1); for(uint64_t i=0;i<a.size();i++) t[i]=a[i]; return t; }
template<class T> static bool im_(T& x,wt_tag){ construct_im(x,iv_(wseq(1)),0); return true; }
template<class T> static bool im_(T& x,csa_tag){ construct_im(x,iv_(text(1)),0); return true; }
template<class T> static bool im_(T& x,cst_tag){ construct_im(x,iv_(text(1)),0); return true; }
template<class T> static bool im_(T&,...){ return false; }
template<class T> static auto im(T& x,int) -> decltype(typename T::index_category(),bool()) { return im_(x,typename T::index_category()); }
template<class T> static bool im(T&,long){ return false; }
template<class T> static void run(void(*mk)(T&,int),D(*dump)(const T&)){ uint64_t op=sym_conc(sym_range("op",0,2)); sym_assume((sym_cfg("ops",7)>>op)&1); T* x=new T; mk(*x,0); const D d0=dump(*x); const T& cx=*x;
  if(op==0){ sym_assert(sym_parallel(1,[&]{ return df(dump(cx),d0); })==0,"answers of an object read by two threads"); }
  else if(op==1){ T* u=new T; mk(*u,1); const D d1=dump(*u); const T& cu=*u;
    sym_assert(sym_parallel(2,[&]()->uint64_t{ uint64_t r=0; T* a=new T(cx); r|=df(dump(*a),d0); T* b=new T(cu); r|=df(dump(*b),d1); a->swap(*b); r|=df(dump(*a),d1)|df(dump(*b),d0); *a=cx; delete b; b=new T(std::move(*a)); *a=cu; r|=df(dump(*a),d1)|df(dump(*b),d0); delete a; delete b;
      const std::string f=FN("@s"); { osfstream o(f,std::ios::out|std::ios::binary); cx.serialize(o); } T* y=new T; { isfstream i(f,std::ios::in|std::ios::binary); y->load(i); } r|=df(dump(*y),d0); r|=size_in_bytes(cx)!=size_in_bytes(*y); r|=!store_to_file(cu,FN("@s2")); r|=!load_from_file(*y,FN("@s2")); r|=df(dump(*y),d1); delete y; r|=util::file_size(f)==0; r|=sdsl::rename(f,FN("@s4"))!=0; { isfstream i(f,std::ios::in|std::ios::binary); r|=i.is_open(); } r|=ram_fs::exists(f); r|=!ram_fs::exists(FN("@s4")); { int_vector_buffer<> w(FN("@s5"),std::ios::out,8,17); for(uint64_t k=0;k<9;k++) w.push_back(k*k); } { int_vector_buffer<> w(FN("@s5")); for(uint64_t k=0;k<9;k++) r|=w[k]!=k*k; w.close(true); } sdsl::remove(FN("@s4")); sdsl::remove(FN("@s2")); return r; })==0,"copies, files and loaded objects of two threads"); delete u; }
  else { T* u=new T; mk(*u,1); const D d1=dump(*u); delete u;
    sym_assert(sym_parallel(3,[&]()->uint64_t{ T* a=new T; mk(*a,1); uint64_t r=df(dump(*a),d1); mk(*a,0); r|=df(dump(*a),d0); if(im(*a,0)) r|=df(dump(*a),d1); delete a; return r; })==0,"objects built by two threads"); }
  sym_assert(df(dump(*x),d0)==0,"unchanged"); delete x; sym_cover("parallel"); }
#include "kindlist.hpp"
extern "C" void __sym_main(){ sym_merge(0); dispatch(sym_cfg("which",0)); }
