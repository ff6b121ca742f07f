// P34: text output: csXprintf, stream operators, to_string and the structure report, against their documented format.
#include "csa.hpp"
#include <sdsl/suffix_trees.hpp>
#include <sdsl/wavelet_trees.hpp>
#include <sdsl/vectors.hpp>
#include <sdsl/uint256_t.hpp>
#include <sdsl/louds_tree.hpp>
#include <sstream>
typedef std::string S;
static S dec(uint64_t v){ S s; do { s=S(1,(char)('0'+v%10))+s; v/=10; } while(v); return s; }
static S pad(S s,uint64_t w){ while(s.size()<w) s=S(1,' ')+s; return s; }
static S chr(uint64_t v,uint64_t w){ return pad(IW==8?S(1,(char)v):dec(v),w); }
#ifdef VCST
typedef VCST idx_t; static const bool tree=true;
#else
typedef CSA idx_t; static const bool tree=false;
#endif
#if KIND==0
static const char* FMT[]={"%I %S %s %P %p %B|%T","%3I:%4S%2s,%5P%1p%%%2B %2:3T","%L%5L;","no token","","%","%7","%2:","x%%%%y%1T","%0T%0:2T%4:0T","%Q%zab%I%","%12I\t%3%%9T","%10:1T%300:2T"};
// one line of the output, by the documented format
static S line(const S& f,const ref& r,const seq& lcp,const seq& bwt,const seq& lf,const seq& psi,uint64_t i,const S& sent){ S o; uint64_t n=r.n,c=0;
  while(c<f.size()){ if(f[c]!='%'){ o+=f[c++]; continue; } c++; uint64_t w=0,W=0; while(c<f.size()&&f[c]>='0'&&f[c]<='9') w=w*10+(f[c++]-'0'); if(c==f.size()) break;
    if(f[c]==':'){ c++; while(c<f.size()&&f[c]>='0'&&f[c]<='9') W=W*10+(f[c++]-'0'); } if(c==f.size()) break;
    switch(f[c++]){ case 'I': o+=pad(dec(i),w); break; case 'S': o+=pad(dec(r.e[i]),w); break; case 's': o+=pad(dec(r.isa[i]),w); break; case 'P': o+=pad(dec(psi[i]),w); break; case 'p': o+=pad(dec(lf[i]),w); break;
      case 'L': if(tree) o+=pad(dec(lcp[i]),w); break; case 'B': o+=bwt[i]?chr(bwt[i],w):pad(sent,w); break;
      case 'T': for(uint64_t k=0;k<n&&(w==0||k<w);k++){ uint64_t x=r.a[(r.e[i]+k)%n]; o+=x?chr(x,W):pad(sent,W); } break; case '%': o+='%'; break; } }
  return o+"\n"; }
static const csa_t& csa_of(const csa_t& x){ return x; }
template<class T> static const typename T::csa_type& csa_of(const T& x){ return x.csa; }
extern "C" void __sym_main(){ sym_merge(0); seq t=gentext(); ref r=mkref(t); idx_t x; mk(x,t,sym_cfg("nb",0)); uint64_t n=r.n;
  seq lcp(n,0),bwt(n),lf(n),psi(n); for(uint64_t i=0;i<n;i++){ uint64_t p=(r.e[i]+n-1)%n; bwt[i]=r.a[p]; lf[i]=r.isa[p]; psi[i]=r.isa[(r.e[i]+1)%n]; if(i){ uint64_t a=r.e[i-1],b=r.e[i],k=0; while(r.a[a+k]==r.a[b+k]) k++; lcp[i]=k; } }
  uint64_t fi=sym_conc(sym_range("fmt",0,sizeof(FMT)/sizeof(FMT[0])-1)); uint64_t ss=sym_conc(sym_range("sentinel",0,2)); S f=FMT[fi],want,sent=IW==8?"$":"0"; if(ss) sent=ss==1?"#":"0";
  for(uint64_t i=0;i<n;i++) want+=line(f,r,lcp,bwt,lf,psi,i,sent);
  std::stringstream o; if(ss) csXprintf(o,f,x,sent[0]); else csXprintf(o,f,x); sym_assert(o.str()==want,"csXprintf"); sym_cover("print");
  if(fi==0&&ss==0){ auto& c=csa_of(x); S a,b,d,e,g,h; S sp=IW==8?"":" "; for(uint64_t i=0;i<n;i++){ S q=i?" ":"",z=i?sp:S(); a+=q+dec(r.e[i]); b+=q+dec(r.isa[i]); d+=q+dec(psi[i]); e+=q+dec(lf[i]); g+=z+(IW==8?S(1,(char)bwt[i]):dec(bwt[i])); h+=z+(IW==8?S(1,(char)r.a[i]):dec(r.a[i])); }
    std::stringstream q; q<<c<<"|"<<c.isa<<"|"<<c.psi<<"|"<<c.lf<<"|"<<c.bwt<<"|"<<c.text; sym_assert(q.str()==a+"|"+b+"|"+d+"|"+e+"|"+g+"|"+h,"members printed to a stream"); }
  { csa_t z; std::stringstream q; csXprintf(q,f,z); sym_assert(q.str().empty(),"csXprintf of an empty index"); } }
#elif KIND==1
template<class V> static void pr(const V& v,const std::vector<uint64_t>& a,bool sp,const char* w){ S s; for(uint64_t i=0;i<a.size();i++) s+=(sp&&i?" ":"")+dec(a[i]); std::stringstream o; o<<v; sym_assert(o.str()==s,w); sym_cover("print"); }
extern "C" void __sym_main(){ sym_merge(0); uint64_t n=sym_cfg("n",3),b=sym_cfg("b",4),top=sym_cfg("top",0); std::vector<uint64_t> a(n); for(uint64_t i=0;i<n;i++) a[i]=top+sym_conc(sym_ui("v",i,b));
  int_vector<> v(n,0,64); int_vector<8> v8(n); bit_vector bv(n),br(n); std::vector<int> vi(n); std::vector<uint64_t> a8(n),ab(n); for(uint64_t i=0;i<n;i++){ v[i]=a[i]; vi[i]=(int)(a[i]&1023); v8[i]=a[i]; a8[i]=a[i]&255; bv[i]=a[i]&1; ab[i]=a[i]&1; }
  pr(v,a,true,"int_vector printed"); util::bit_compress(v); pr(v,a,true,"compressed int_vector printed"); pr(bv,ab,false,"bit_vector printed"); { std::vector<uint64_t> ai(vi.begin(),vi.end()); S s; for(uint64_t i=0;i<n;i++) s+=(i?" ":"")+dec(ai[i]); std::stringstream o; sdsl::operator<<(o,vi); sym_assert(o.str()==s,"std::vector printed"); }
  { rrr_vector<15> r(bv); sd_vector<> d(bv); bit_vector_il<512> il(bv); pr(r,ab,false,"rrr_vector printed"); pr(d,ab,false,"sd_vector printed"); pr(il,ab,false,"bit_vector_il printed"); }
  { vlc_vector<> x(v); pr(x,a,true,"vlc_vector printed"); dac_vector<> y(v); pr(y,a,true,"dac_vector printed"); enc_vector<> z(v); pr(z,a,true,"enc_vector printed"); }
  { wt_int<> w; construct_im(w,v,0); pr(w,a,true,"wt_int printed"); wm_int<> m; construct_im(m,v,0); pr(m,a,true,"wm_int printed"); S s; int_vector<8> c(n); for(uint64_t i=0;i<n;i++){ c[i]=1+a[i]%200; s+=(char)(uint8_t)c[i]; } wt_huff<> h; construct_im(h,c,0); std::stringstream o; o<<h; sym_assert(o.str()==s,"wt_huff printed"); }
  for(uint64_t i=0;i<n;i++) for(uint64_t w=0;w<23;w+=11) sym_assert(util::to_string(a[i],(int)w)==pad(dec(a[i]),w),"to_string"); }
#elif KIND==2
template<class T> static void hex(const T& x,const S& w,const char* what){ std::stringstream o; o<<x<<"|"<<31; sym_assert(o.str()==w+"|31",what); sym_cover("print"); }
extern "C" void __sym_main(){ sym_merge(0); uint64_t k=sym_cfg("k",0),b=sym_cfg("b",8); uint64_t v=sym_conc(sym_u("v",b)); uint64_t bg=sym_conc(sym_range("bg",0,2)); uint64_t W[4]; for(int i=0;i<4;i++) W[i]=bg==0?0:bg==1?~0ULL:0x0123456789abcdefULL*(i+1); uint64_t pos=sym_cfg("pos",0); W[pos/64]^=v<<(pos%64); if(pos%64) if(pos/64+1<4) W[pos/64+1]^=v>>(64-pos%64);
  S s; for(int i=3;i>=0;i--) for(int j=15;j>=0;j--) s+="0123456789abcdef"[(W[i]>>(4*j))&15];
  if(k==0){ uint128_t x=((uint128_t)W[1]<<64)|(uint128_t)W[0]; hex(x,s.substr(32),"uint128 printed"); } else { uint256_t x(W[0],W[1],(uint128_t)W[2]|((uint128_t)W[3]<<64)); hex(x,s,"uint256 printed"); }
  louds_node q(v,W[0]); std::stringstream o; o<<q; sym_assert(o.str()=="("+dec(v)+","+dec(W[0])+")","louds node printed"); }
#else
// the structure report: well formed, one object per node, the size of the root is the number of bytes serialize writes, the children are never larger than their parent
struct P { const S& s; uint64_t i; bool ok; void ws(){ while(i<s.size()&&(s[i]==' '||s[i]=='\n'||s[i]=='\t')) i++; } bool ch(char c){ ws(); if(i<s.size()&&s[i]==c){ i++; return true; } return false; } void need(char c){ if(!ch(c)) ok=false; }
  S str(){ need('"'); S r; while(i<s.size()&&s[i]!='"') r+=s[i++]; need('"'); return r; }
  uint64_t node(){ if(!ok) return 0; need('{'); S k=str(); if(k!="class_name") ok=false; need(':'); str(); need(','); k=str(); if(k!="name") ok=false; need(':'); str(); need(','); k=str(); if(k!="size") ok=false; need(':'); S z=str(); uint64_t v=0; for(char c:z){ if(c<'0'||c>'9') ok=false; v=v*10+(c-'0'); } if(z.empty()) ok=false;
    if(ch(',')){ k=str(); if(k!="children") ok=false; need(':'); need('['); uint64_t sum=0; do sum+=node(); while(ok&&ch(',')); need(']'); if(sum>v) sumok=false; } need('}'); return v; } bool sumok=true; P(const S& x):s(x),i(0),ok(true){} };
template<class X> static void rep(const X& x,const char* w){ std::stringstream o,j; uint64_t b=x.serialize(o); sym_assert(b==o.str().size(),w); write_structure<JSON_FORMAT>(x,j); S s=j.str(); P p(s); uint64_t v=p.node(); p.ws(); sym_assert(p.ok&&p.i==s.size(),w); sym_assert(v==b,w); sym_assert(p.sumok,w); sym_assert(size_in_bytes(x)==b,w); sym_cover("print"); }
extern "C" void __sym_main(){ sym_merge(0); uint64_t n=sym_cfg("n",3); uint64_t k=sym_cfg("k",0); std::vector<uint64_t> a(n); for(uint64_t i=0;i<n;i++) a[i]=sym_conc(sym_ui("v",i,2)); int_vector<> v(n,0,64); bit_vector bv(n+200); int_vector<8> c(n); for(uint64_t i=0;i<n;i++){ v[i]=a[i]*1000; bv[i*7]=a[i]&1; c[i]=97+a[i]; }
  if(k==0){ rep(v,"int_vector"); rep(bv,"bit_vector"); rep(rrr_vector<63>(bv),"rrr_vector"); rep(rrr_vector<15>(bv),"rrr_vector<15>"); rep(sd_vector<>(bv),"sd_vector"); rep(bit_vector_il<256>(bv),"bit_vector_il"); rep(hyb_vector<>(bv),"hyb_vector"); rep(rank_support_v<>(&bv),"rank_support_v"); rep(rank_support_v5<>(&bv),"rank_support_v5"); rep(select_support_mcl<>(&bv),"select_support_mcl"); }
  if(k==1){ rep(vlc_vector<>(v),"vlc_vector"); rep(dac_vector<>(v),"dac_vector"); rep(enc_vector<>(v),"enc_vector"); rep(rmq_succinct_sct<>(&v),"rmq_succinct_sct"); rep(rmq_support_sparse_table<>(&v),"rmq_support_sparse_table"); }
  if(k==2){ wt_int<> w; construct_im(w,v,0); rep(w,"wt_int"); wm_int<> m; construct_im(m,v,0); rep(m,"wm_int"); wt_huff<> h; construct_im(h,c,0); rep(h,"wt_huff"); wt_rlmn<> r; construct_im(r,c,0); rep(r,"wt_rlmn"); wt_ap<> p; construct_im(p,c,0); rep(p,"wt_ap"); wt_gmr<> g; construct_im(g,v,0); rep(g,"wt_gmr"); wt_gmr_rs<> gr; construct_im(gr,v,0); rep(gr,"wt_gmr_rs"); }
  if(k==3){ csa_wt<wt_huff<>,4,4> x; construct_im(x,c,0); rep(x,"csa_wt"); csa_sada<> y; construct_im(y,c,0); rep(y,"csa_sada"); csa_bitcompressed<> z; construct_im(z,c,0); rep(z,"csa_bitcompressed"); }
  if(k==4){ cst_sct3<> x; construct_im(x,c,0); rep(x,"cst_sct3"); cst_sada<> y; construct_im(y,c,0); rep(y,"cst_sada"); cst_fully<> z; construct_im(z,c,0); rep(z,"cst_fully"); } }
#endif
