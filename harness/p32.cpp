// P32: index construction from every input form, with every part of the cache already there, against the text.
#include <string>
#include <map>
#include <vector>
#include <mutex>
#define private public
#include <sdsl/ram_fs.hpp>
#undef private
#include "txt.hpp"
#include <sdsl/wavelet_trees.hpp>
#include <sdsl/suffix_arrays.hpp>
#include <sdsl/suffix_trees.hpp>
#include <sdsl/construct.hpp>
#include <stdexcept>
using namespace sdsl;
#ifndef KIND // 0 wavelet tree, 1 CSA, 2 CST, 3 LCP array
#define KIND 0
#endif
typedef IDX idx_t;
struct ref { seq a,e,l; };
static ref mkref(const seq& t){ ref r; r.a=t; r.a.push_back(0); r.e=naive_sa(r.a); r.l.assign(r.a.size(),0); for(uint64_t i=1;i<r.e.size();i++){ uint64_t x=r.e[i-1],y=r.e[i],k=0; while(r.a[x+k]==r.a[y+k]&&r.a[x+k]) k++; r.l[i]=k; } return r; }
static void chk(const idx_t& x,const ref& r,const char* what){ uint64_t n=r.a.size(); (void)n;
#if KIND==0
  sym_assert(x.size()==n-1,what); for(uint64_t i=0;i+1<n;i++) sym_assert((uint64_t)x[i]==r.a[i],what);
#elif KIND==1
  sym_assert(x.size()==n,what); for(uint64_t i=0;i<n;i++){ sym_assert(x[i]==r.e[i],what); sym_assert((uint64_t)x.text[i]==r.a[i],what); sym_assert((uint64_t)x.bwt[i]==r.a[(r.e[i]+n-1)%n],what); }
#elif KIND==2
  sym_assert(x.size()==n,what); for(uint64_t i=0;i<n;i++){ sym_assert(x.csa[i]==r.e[i],what); sym_assert(x.lcp[i]==r.l[i],what); sym_assert((uint64_t)x.csa.text[i]==r.a[i],what); }
#else
  sym_assert(x.size()==n,what); for(uint64_t i=0;i<n;i++) sym_assert(x[i]==r.l[i],what);
#endif
}
static std::string raw(const seq& a,uint64_t nb){ std::string s; if(nb=='d'){ for(uint64_t i=0;i<a.size();i++){ s+=std::to_string(a[i]); s+=(i%3==2?'\n':' '); } } else for(uint64_t i=0;i<a.size();i++) for(uint64_t b=0;b<nb;b++) s+=(char)(a[i]>>(8*b)); return s; }
static int_vector<IW> vec(const seq& a,uint8_t w=IW==8?8:64){ int_vector<IW> t(a.size(),0,w); for(uint64_t i=0;i<a.size();i++) t[i]=a[i]; return t; }
static void input(const seq& a,uint64_t nb,const std::string& f){ if(nb==0) store_to_file(vec(a),f); else { std::string s=raw(a,nb); osfstream o(f,std::ios::binary|std::ios::trunc|std::ios::out); o.write(s.data(),s.size()); o.close(); } }
static std::string bytes(const std::string& f){ isfstream in(f,std::ios::binary|std::ios::in); if(!in) return "?"; std::string s; uint64_t z=util::file_size(f); s.resize(z); if(z) in.read(&s[0],z); return s; }
template<class V> static void same(const char* key,cache_config& c,const seq& e,const char* what){ V v; sym_assert(cache_file_exists(key,c),what); sym_assert(load_from_cache(v,key,c),what); sym_assert(v.size()==e.size(),what); for(uint64_t i=0;i<e.size();i++) sym_assert((uint64_t)v[i]==e[i],what); }
static void cached(cache_config& c,const ref& r){ uint64_t n=r.a.size(); seq b(n); for(uint64_t i=0;i<n;i++) b[i]=r.a[(r.e[i]+n-1)%n]; (void)b;
#if KIND>0
  same<int_vector<IW>>(key_text_trait<IW>::KEY_TEXT,c,r.a,"cached text"); same<int_vector<>>(conf::KEY_SA,c,r.e,"cached SA");
#endif
#if KIND==1||KIND==2
  same<int_vector<IW>>(key_bwt_trait<IW>::KEY_BWT,c,b,"cached BWT");
#endif
#if KIND>1
  same<int_vector<>>(conf::KEY_LCP,c,r.l,"cached LCP");
#endif
}
static void present(const std::string& f,bool e,const char* what){ bool x; if(is_ram_file(f)) x=ram_fs::exists(f); else { isfstream in(f); x=in.is_open(); } sym_assert(x==e,what); }
#if KIND!=3
// an index that is built while another construction of the same process is in progress
static bool on_disk=false; static uint64_t nests=0;
static void other(){ nests++; seq a2={tsym(0,1),tsym(0,0),tsym(0,1),tsym(0,0),tsym(0,0)}; ref r2=mkref(a2); idx_t y; std::string f=on_disk?"p32_u":"@u"; input(a2,IW==8,f); construct(y,f,IW==8); chk(y,r2,"construction inside another one"); sdsl::remove(f);
  idx_t z; construct_im(z,vec(a2),0); chk(z,r2,"construction in memory inside another one"); }
struct nest : idx_t { nest(){}
#if KIND==0
  nest(int_vector_buffer<IW>& b,uint64_t n):idx_t((other(),b),n){}
#else
  nest(cache_config& c):idx_t((other(),c)){}
#endif
};
#endif
extern "C" void __sym_main(){ sym_merge(0); seq a=gentext(); uint64_t nb=sym_cfg("nb",0),del=sym_cfg("del",1),used=sym_cfg("used",0),disk=sym_cfg("disk",0),how=sym_cfg("how",0); ref r=mkref(a);
  idx_t x; seq a2={tsym(0,1),tsym(0,0),tsym(0,1),tsym(0,0),tsym(0,0)}; ref r2=mkref(a2);
  if(used){ input(a2,IW==8,"@u"); construct(x,"@u",IW==8); chk(x,r2,"first construction"); sdsl::remove("@u"); sym_assert(ram_fs::m_map.empty(),"no temporary file is left"); }
  std::string f=disk?"p32_txt":"@dir/txt"; if(how==0){
    input(a,nb,f); std::string in=bytes(f); cache_config c(del,disk?".":"@","k7"); uint64_t n=r.a.size(); (void)n;
    uint64_t pre=sym_conc(sym_range("pre",0,15)); sym_assume(pre<=sym_cfg("pmax",0)); // what is in the cache already
#if KIND>0
    if(pre&1) store_to_cache(vec(r.a),key_text_trait<IW>::KEY_TEXT,c);
    if(pre&2){ sym_assume(pre&1); int_vector<> s(n,0,bits::hi(n)+1); for(uint64_t i=0;i<n;i++) s[i]=r.e[i]; store_to_cache(s,conf::KEY_SA,c); }
    if(pre&4){ sym_assume(KIND!=3&&(pre&2)); int_vector<IW> b(n,0,IW==8?8:64); for(uint64_t i=0;i<n;i++) b[i]=r.a[(r.e[i]+n-1)%n]; store_to_cache(b,key_bwt_trait<IW>::KEY_BWT,c); }
    if(pre&8){ sym_assume(KIND>1); int_vector<> l(n,0,bits::hi(n)+1); for(uint64_t i=0;i<n;i++) l[i]=r.l[i]; store_to_cache(l,conf::KEY_LCP,c); }
    if(sym_cfg("forget",0)) c=cache_config(del,disk?".":"@","k7"); // another run with the same directory and id
#endif
    construct(x,f,c,(uint8_t)nb); chk(x,r,"index"); sym_assert(bytes(f)==in,"the input is unchanged");
    tMSS m=c.file_map;
    if(del){ for(auto& p:m) present(p.second,false,"temporary files are deleted"); if(!disk&&!(KIND==3&&(pre&8)&&sym_cfg("forget",0))) sym_assert(ram_fs::m_map.size()==1,"only the input is left"); }
    else { if(!(KIND==3&&(pre&8))) cached(c,r); for(auto& p:m) present(p.second,true,"registered files exist"); 
      if(!disk) for(auto& p:ram_fs::m_map){ bool k=p.first==f; for(auto& q:m) k|=q.second==p.first; sym_assert(k,"every file left is registered"); }
      sdsl::remove(f); if(KIND>0){ idx_t y; cache_config d(true,disk?".":"@","k7",KIND!=3&&sym_cfg("fresh",0)?tMSS():m); /* or a later run which only finds the files */ construct(y,f,d,(uint8_t)nb); chk(y,r,"index from the cache"); bool fr=KIND!=3&&sym_cfg("fresh",0); const std::string base[]={key_text_trait<IW>::KEY_TEXT,conf::KEY_SA,key_bwt_trait<IW>::KEY_BWT,conf::KEY_LCP}; for(auto& p:m) if(!fr||std::find(base,base+4,p.first)!=base+4) present(p.second,false,"registered files are deleted"); if(!disk&&!fr) sym_assert(ram_fs::m_map.empty(),"nothing is left"); } }
    sdsl::remove(f);
  } else if(how==1){ std::string s=raw(a,1); construct_im(x,s.c_str(),1); chk(x,r,"index of a string in memory"); sym_assert(ram_fs::m_map.empty(),"nothing is left"); }
  else if(how==2){ construct_im(x,vec(a),0); chk(x,r,"index of a vector in memory"); sym_assert(ram_fs::m_map.empty(),"nothing is left"); }
  else if(how==3){ input(a,nb,f); construct(x,f,(uint8_t)nb); chk(x,r,"index without configuration"); if(!disk) sym_assert(ram_fs::m_map.size()==1,"only the input is left"); sdsl::remove(f); }
#if KIND!=3
  else if(how==6){ on_disk=disk; input(a,nb,f); nest y; construct(y,f,(uint8_t)nb); sym_assert(nests==1,"the other construction ran"); chk(y,r,"construction around another one"); sdsl::remove(f); nest z; construct_im(z,vec(a),0); chk(z,r,"construction in memory around another one"); sym_assert(ram_fs::m_map.empty(),"nothing is left");
    input(a,nb,f); cache_config c(false,disk?".":"@","k7"); nest w; construct(w,f,c,(uint8_t)nb); chk(w,r,"construction with a cache around another one"); cached(c,r); sdsl::remove(f); }
#endif
  else { // refused inputs: a zero inside the text, a file that is no multiple of the symbol size
    uint64_t z=sym_conc(sym_range("z",0,7)); sym_assume(z<=a.size()); seq b=a; if(how==4) b.insert(b.begin()+z,0); else sym_assume(z==0); std::string s=raw(b,nb); if(how==5) s+=(char)7; if(nb==0) store_to_file(vec(b),f); else { osfstream o(f,std::ios::binary|std::ios::trunc|std::ios::out); o.write(s.data(),s.size()); o.close(); }
    bool thrown=false; try { construct(x,f,(uint8_t)nb); } catch(const std::logic_error& e){ thrown=true; } sym_assert(thrown,"refused"); if(used) chk(x,r2,"the index is unchanged"); if(!disk) sym_assert(ram_fs::m_map.size()==1,"only the input is left"); sdsl::remove(f); }
  sym_cover("built"); }
