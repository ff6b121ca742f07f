// P25: every structure written and read back.
#include "kinds.hpp"
#include <sdsl/structure_tree.hpp>
static void same(const D& a,const D& b,const char* w){ sym_assert(a.size()==b.size(),w); for(uint64_t i=0;i<a.size();i++) sym_assert(a[i]==b[i],w); }
static const uint64_t MG=0x1122334455667788ULL;
template<class T> static void run(void(*mk)(T&,int),D(*dump)(const T&)){ uint64_t op=sym_conc(sym_range("op",0,3)); T* x=new T; if(op==3){ T* e=new T; osfstream o("@s",std::ios::out|std::ios::binary); uint64_t w=e->serialize(o); sym_assert((uint64_t)o.tellp()==w,"empty: bytes written"); sym_assert(size_in_bytes(*e)==w,"empty: size_in_bytes"); write_member(MG,o); o.close(); mk(*x,1); isfstream i("@s",std::ios::in|std::ios::binary); T f; f.load(i); uint64_t m=0; read_member(m,i); sym_assert(m==MG,"empty: bytes read"); isfstream j("@s",std::ios::in|std::ios::binary); x->load(j); read_member(m,j); sym_assert(m==MG&&(uint64_t)j.tellg()==w+8,"empty onto used: bytes read"); sym_assert(size_in_bytes(*x)==w,"empty onto used"); mk(*x,0); const D d=dump(*x); store_to_file(*x,"@s2"); load_from_file(f,"@s2"); same(dump(f),d,"filled after loading an empty object"); delete x; delete e; sym_cover("io"); return; }
  mk(*x,0); const D d0=dump(*x); uint64_t w;
  { osfstream o("@s",std::ios::out|std::ios::binary); write_member(MG,o); w=x->serialize(o); sym_assert((uint64_t)o.tellp()==w+8,"returned bytes are the bytes written"); write_member(~MG,o); o.close(); sym_assert(util::file_size("@s")==w+16,"file size"); }
  sym_assert(size_in_bytes(*x)==w,"size_in_bytes"); same(dump(*x),d0,"unchanged by serialize");
  T* y=new T; if(op==1) mk(*y,1); if(op==2) mk(*y,2);
  { isfstream i("@s",std::ios::in|std::ios::binary); uint64_t m=0; read_member(m,i); sym_assert(m==MG,"first member"); y->load(i); sym_assert((uint64_t)i.tellg()==w+8,"bytes read"); read_member(m,i); sym_assert(m==~MG,"member after the structure"); }
  delete x; same(dump(*y),d0,"loaded"); sym_assert(size_in_bytes(*y)==w,"size_in_bytes of the loaded object");
  sym_assert(store_to_file(*y,"@s3"),"store_to_file"); sym_assert(util::file_size("@s3")==w,"file size"); { ram_fs::content_type& a=ram_fs::content("@s3"); ram_fs::content_type& b=ram_fs::content("@s"); for(uint64_t k=0;k<w;k++) sym_assert(a[k]==b[k+8],"the same bytes again"); } T* z=new T(*y); delete y; mk(*z,1); sym_assert(load_from_file(*z,"@s3"),"load_from_file"); same(dump(*z),d0,"loaded from a file");
  if(op==0){ std::unique_ptr<structure_tree_node> st(new structure_tree_node("n","t")); nullstream ns; uint64_t u=z->serialize(ns,st.get(),"x"); sym_assert(u==w,"bytes with a structure tree"); uint64_t s=0,c=0; for(const auto& k:st->children){ s+=k.second->size; c++; } sym_assert(c==1&&s==w,"size in the structure tree"); }
  delete z; sym_cover("io"); }
#include "kindlist.hpp"
extern "C" void __sym_main(){ sym_merge(0); dispatch(sym_cfg("which",0)); }
