// Every structure of the library with a way to fill it (make) and to read everything it answers (dump): P25, P26.
// variant 0: the symbolic content, 1: other content of size n1 (a "used" object), 2: a small one
#pragma once
#include "csa.hpp"
#include <sdsl/bit_vectors.hpp>
#include <sdsl/vectors.hpp>
#include <sdsl/wavelet_trees.hpp>
#include <sdsl/suffix_trees.hpp>
#include <sdsl/rmq_support.hpp>
#include <sdsl/bp_support.hpp>
#include <sdsl/inv_perm_support.hpp>
#include <sdsl/nn_dict_dynamic.hpp>
#include <sdsl/nearest_neighbour_dictionary.hpp>
#include <sdsl/louds_tree.hpp>
#include <sdsl/k2_treap.hpp>
#include <sdsl/k2_tree.hpp>
#include <sdsl/sorted_int_stack.hpp>
#include <sdsl/sorted_stack_support.hpp>
#include <sdsl/sorted_multi_stack_support.hpp>
#include <tuple>
#include <array>
typedef std::vector<uint64_t> D;
static uint64_t hsh(uint64_t i){ return (i*2654435761ULL)>>13; }
static uint64_t vn(int var){ return var==0?sym_cfg("n",6):var==1?sym_cfg("n1",9):sym_cfg("n2",3); }
static bool win(int var,uint64_t i){ uint64_t wo=sym_cfg("wo",0); return var==0&&i>=wo&&i<wo+sym_cfg("wl",6); }
// ---- bits
static bit_vector bitsv(int var){ uint64_t n=vn(var),bg=sym_cfg("bg",3); bit_vector v(n,0); for(uint64_t i=0;i<n;i++){ uint64_t x; if(win(var,i)) x=sym_conc(sym_rangei("b",i,0,1)); else { uint64_t k=var==0?bg:var==1?3:2; x= k==0?0:k==1?1:k==2?i%2:k==3?hsh(i)%3==0:k==4?i%70==0:k==5?(i/64)%2:hsh(i)%50!=0; } v[i]=x; } return v; }
template<class B> struct NoS{ NoS(const B* =nullptr){} uint64_t operator()(uint64_t) const { return 0; } void set_vector(const B*){} void load(std::istream&,const B* =nullptr){} uint64_t serialize(std::ostream&,structure_tree_node* =nullptr,std::string="") const { return 0; } void swap(NoS&){} };
// a vector with its supports, copied the way the library documents it
template<class B,class R1,class R0,class S1,class S0> struct bun{ typedef uint64_t size_type; B b; R1 r1; R0 r0; S1 s1; S0 s0;
  bun(){} void att(){ r1.set_vector(&b); r0.set_vector(&b); s1.set_vector(&b); s0.set_vector(&b); }
  void init(const bit_vector& v){ B x(v); b.swap(x); util::init_support(r1,&b); util::init_support(r0,&b); util::init_support(s1,&b); util::init_support(s0,&b); }
  bun(const bun& o):b(o.b),r1(o.r1),r0(o.r0),s1(o.s1),s0(o.s0){ att(); }
  bun(bun&& o):b(std::move(o.b)),r1(std::move(o.r1)),r0(std::move(o.r0)),s1(std::move(o.s1)),s0(std::move(o.s0)){ att(); }
  bun& operator=(const bun& o){ if(this!=&o){ b=o.b; r1=o.r1; r0=o.r0; s1=o.s1; s0=o.s0; att(); } return *this; }
  bun& operator=(bun&& o){ if(this!=&o){ b=std::move(o.b); r1=std::move(o.r1); r0=std::move(o.r0); s1=std::move(o.s1); s0=std::move(o.s0); att(); } return *this; }
  void swap(bun& o){ b.swap(o.b); util::swap_support(r1,o.r1,&b,&o.b); util::swap_support(r0,o.r0,&b,&o.b); util::swap_support(s1,o.s1,&b,&o.b); util::swap_support(s0,o.s0,&b,&o.b); }
  size_type serialize(std::ostream& o,structure_tree_node* v=nullptr,std::string nm="") const { auto c=structure_tree::add_child(v,nm,util::class_name(*this)); size_type w=b.serialize(o,c,"b"); w+=r1.serialize(o,c,"r1"); w+=r0.serialize(o,c,"r0"); w+=s1.serialize(o,c,"s1"); w+=s0.serialize(o,c,"s0"); structure_tree::add_size(c,w); return w; }
  void load(std::istream& i){ b.load(i); r1.load(i,&b); r0.load(i,&b); s1.load(i,&b); s0.load(i,&b); } };
template<class T> static void mkbun(T& x,int var){ x.init(bitsv(var)); }
static uint64_t PL=1; // length of the pattern the supports look for
template<class T> static D dbun(const T& x){ D d; uint64_t n=x.b.size(),st=sym_cfg("step",1); d.push_back(n); uint64_t c1=0,c0=0; for(uint64_t i=0;i<n;i++){ bool v=x.b[i]; if(PL==1){ c1+=v; c0+=!v; } if(i%st==0||i+2>n||i<2) { d.push_back(v); d.push_back(x.r1(i)); d.push_back(x.r0(i)); if(i+5<n) d.push_back(x.b.get_int(i,5)); } } if(PL==1){ d.push_back(x.r1(n)); d.push_back(x.r0(n)); for(uint64_t i=1;i<=c1;i+=1+(st-1)/2) d.push_back(x.s1(i)); for(uint64_t i=1;i<=c0;i+=1+(st-1)/2) d.push_back(x.s0(i)); } else if(n){ c1=x.r1(n); c0=x.r0(n); d.push_back(c1); d.push_back(c0); for(uint64_t i=1;i<=c1;i+=st) d.push_back(x.s1(i)); for(uint64_t i=1;i<=c0;i+=st) d.push_back(x.s0(i)); } return d; }
// ---- integers
static D ints(int var,uint64_t mod){ static const uint64_t t[]={0,1,255,256,65535,1ULL<<20,(1ULL<<40)+5,~0ULL>>2}; uint64_t n=vn(var),k=sym_cfg("k",3); D a(n); for(uint64_t i=0;i<n;i++) a[i]= win(var,i)?t[sym_conc(sym_rangei("v",i,0,k-1))]:(var==2?1:hsh(i)%(var==0?300:70000)); if(mod) for(auto&x:a) x%=mod; return a; }
template<class T> static auto itsum(const T& x,int) -> decltype(x.begin()!=x.end(),uint64_t()) { uint64_t s=0,c=0; for(auto it=x.begin();it!=x.end()&&c<20;++it,++c) s=s*3+*it; return s; }
template<class T> static uint64_t itsum(const T&,long){ return 0; }
template<class T> static D dvec(const T& x){ D d; d.push_back(x.size()); for(uint64_t i=0;i<x.size();i++) d.push_back(x[i]); d.push_back(itsum(x,0)); return d; }
template<class T> static void mkvec(T& x,int var){ D a=ints(var,0); T y(a); x.swap(y); }
template<uint8_t w> static void mkiv(int_vector<w>& x,int var){ D a=ints(var,0); int_vector<w> y(a.size(),0,w?w:41-var*10); for(uint64_t i=0;i<a.size();i++) y[i]=a[i]; x.swap(y); }
template<class T> static void mklcp(T& x,int var){ D a=ints(var,1ULL<<33); uint64_t mx=0; for(auto v:a) mx=std::max(mx,v); int_vector<> s(a.size(),0,bits::hi(mx)+1); for(uint64_t i=0;i<a.size();i++) s[i]=a[i]; cache_config c(true,"@",FU("l")); store_to_cache(s,conf::KEY_LCP,c); T y(c); x.swap(y); }
// ---- wavelet structures, IW 8 or 0
static seq wseq(int var){ uint64_t n=vn(var),k=sym_cfg("k",3),al=sym_cfg("al",0); seq a(n); for(uint64_t i=0;i<n;i++) a[i]= win(var,i)?tsym(al,sym_conc(sym_rangei("c",i,0,k-1))):var==2?5:var==1?1+hsh(i)%(IW==8?200:5):tsym(al,hsh(i)%(k+1)); return a; }
template<class T> static void mkwt(T& x,int var){ seq a=wseq(var); uint64_t mx=1; for(auto v:a) mx=std::max(mx,v); int_vector<IW> t(a.size(),0,IW==8?8:bits::hi(mx)+1); for(uint64_t i=0;i<a.size();i++) t[i]=a[i]; store_to_file(t,FN("@t")); int_vector_buffer<IW> b(FN("@t"),std::ios::in,64,IW==8?8:64,false); T y(b,a.size()); x.swap(y); }
template<class T> static D dwt(const T& x){ D d,sy; uint64_t n=x.size(),st=sym_cfg("step",1); d.push_back(n); d.push_back(x.sigma); for(uint64_t i=0;i<n;i++) if(i%st==0||i+2>n){ uint64_t v=x[i]; d.push_back(v); if(sy.size()<12&&std::find(sy.begin(),sy.end(),v)==sy.end()) sy.push_back(v); auto p=x.inverse_select(i); d.push_back(p.first); d.push_back(p.second); } for(auto c:sy){ uint64_t t=x.rank(n,c); d.push_back(t); for(uint64_t i=0;i<n;i+=2*st) d.push_back(x.rank(i,c)); for(uint64_t j=1;j<=t;j+=st) d.push_back(x.select(j,c)); } d.push_back(itsum(x,0)); return d; }
// ---- suffix arrays and trees
static seq text(int var){ return var==0?gentext():var==1?seq{2,1,2,3,3,2,1,2,1,1,2}:seq{4}; }
template<class T> static void mkcsa(T& x,int var){ T y; mk(y,text(var),0); x.swap(y); }
template<class T> static D dcsa(const T& x){ D d; uint64_t n=x.size(),st=sym_cfg("step",1); d.push_back(n); d.push_back(x.sigma); for(uint64_t i=0;i<n;i++) if(i%st==0||i+2>n){ d.push_back(x[i]); d.push_back(x.isa[i]); d.push_back(x.psi[i]); d.push_back(x.lf[i]); d.push_back(x.bwt[i]); d.push_back(x.text[i]); d.push_back(x.F[i]); } for(uint64_t i=0;i<=x.sigma;i++) d.push_back(x.C[i]); for(uint64_t i=0;i<x.sigma;i++){ d.push_back(x.comp2char[i]); d.push_back(x.char2comp[x.comp2char[i]]); d.push_back(x.bwt.rank(n,x.comp2char[i])); if(n) d.push_back(x.bwt.select(1,x.comp2char[i])); } d.push_back(x.char2comp[99]); if(n>3){ auto s=extract(x,1,n-2>8?8:n-2); for(auto c:s) d.push_back(c); typename T::size_type l=0,r=0; typename T::string_type p(s.begin(),s.begin()+(s.size()>1?2:1)); d.push_back(backward_search(x,0,n-1,p.begin(),p.end(),l,r)); d.push_back(l); } return d; }
template<class T> static uint64_t nid(const T& x,const typename T::node_type& v){ return x.lb(v)*100000+x.rb(v); }
template<class T> static auto nid2(const T& x,const typename T::node_type& v,int) -> decltype(x.id(v)+0) { return x.id(v); }
template<class T> static uint64_t nid2(const T&,const typename T::node_type&,long){ return 0; }
template<class T> static D dcst(const T& x){ D d; uint64_t n=x.size(),st=sym_cfg("step",1); d.push_back(n); if(!n) return d; d.push_back(x.nodes()); for(uint64_t i=0;i<n;i++) if(i%st==0||i+2>n){ d.push_back(x.csa[i]); d.push_back(x.lcp[i]); }
  uint64_t c=0; for(auto it=x.begin();it!=x.end();++it){ auto v=*it; if(it.visit()==1&&c++%st==0){ d.push_back(x.lb(v)); d.push_back(x.rb(v)); d.push_back(nid2(x,v,0)); d.push_back(x.depth(v)); d.push_back(x.is_leaf(v)); if(v!=x.root()){ d.push_back(nid(x,x.parent(v))); d.push_back(nid(x,x.sl(v))); d.push_back(x.lb(x.sibling(v))); d.push_back(x.edge(v,x.depth(x.parent(v))+1)); d.push_back(nid(x,x.lca(v,x.leftmost_leaf(x.root())))); } d.push_back(x.degree(v)); if(!x.is_leaf(v)) d.push_back(nid(x,x.select_child(v,2))); } } for(uint64_t i=1;i<=n;i++) if(i%st==0) d.push_back(nid(x,x.select_leaf(i))); return d; }
// ---- balanced parentheses, range minima, permutations
static bit_vector parens(int var){ uint64_t n=vn(var)/2*2; bit_vector v(n,0); int64_t e=0; for(uint64_t i=0;i<n;i++){ uint64_t x; int64_t left=n-i; if(e==0) x=1; else if(e>=left) x=0; else x= win(var,i)?sym_conc(sym_rangei("p",i,0,1)):hsh(i)%2; if(i+1<n&&!x&&e==1) x=1; if(e+1>left-1&&x) x=0; v[i]=x; e+=x?1:-1; } return v; }
template<class P> struct bpb{ typedef uint64_t size_type; bit_vector b; P p; bpb(){} bpb(const bpb& o):b(o.b),p(o.p){ p.set_vector(&b); } bpb(bpb&& o):b(std::move(o.b)),p(std::move(o.p)){ p.set_vector(&b); } bpb& operator=(const bpb& o){ if(this!=&o){ b=o.b; p=o.p; p.set_vector(&b); } return *this; } bpb& operator=(bpb&& o){ if(this!=&o){ b=std::move(o.b); p=std::move(o.p); p.set_vector(&b); } return *this; } void swap(bpb& o){ b.swap(o.b); util::swap_support(p,o.p,&b,&o.b); }
  size_type serialize(std::ostream& o,structure_tree_node* v=nullptr,std::string nm="") const { auto c=structure_tree::add_child(v,nm,util::class_name(*this)); size_type w=b.serialize(o,c,"b")+p.serialize(o,c,"p"); structure_tree::add_size(c,w); return w; } void load(std::istream& i){ b.load(i); p.load(i,&b); } };
template<class P> static void mkbp(bpb<P>& x,int var){ x.b=parens(var); util::assign(x.p,P(&x.b)); }
template<class P> static D dbp(const bpb<P>& x){ D d; uint64_t n=x.b.size(),st=sym_cfg("step",1); d.push_back(n); if(n) d.push_back(x.p.size()); uint64_t o=0; for(uint64_t i=0;i<n;i++){ bool v=x.b[i]; o+=v; if(i%st==0||i+2>n){ d.push_back(v); d.push_back(x.p.excess(i)); d.push_back(x.p.rank(i)); if(v){ uint64_t c=x.p.find_close(i); d.push_back(c); d.push_back(x.p.enclose(i)); d.push_back(x.p.select(o)); if(c+1<n&&x.b[c+1]) d.push_back(x.p.double_enclose(i,c+1)); d.push_back(x.p.rr_enclose(0,n-2)); } else d.push_back(x.p.find_open(i)); } } return d; }
template<class R,bool sv> struct rmb{ typedef uint64_t size_type; int_vector<> v; R r; void att(std::true_type){ r.set_vector(&v); } void att(std::false_type){} typedef std::integral_constant<bool,sv> S; rmb(){} rmb(const rmb& o):v(o.v),r(o.r){ att(S()); } rmb(rmb&& o):v(std::move(o.v)),r(std::move(o.r)){ att(S()); } rmb& operator=(const rmb& o){ if(this!=&o){ v=o.v; r=o.r; att(S()); } return *this; } rmb& operator=(rmb&& o){ if(this!=&o){ v=std::move(o.v); r=std::move(o.r); att(S()); } return *this; } void swap(rmb& o){ v.swap(o.v); r.swap(o.r); att(S()); o.att(S()); }
  size_type serialize(std::ostream& o,structure_tree_node* c0=nullptr,std::string nm="") const { auto c=structure_tree::add_child(c0,nm,util::class_name(*this)); size_type w=v.serialize(o,c,"v")+r.serialize(o,c,"r"); structure_tree::add_size(c,w); return w; } void ld(std::istream& i,std::true_type){ r.load(i,&v); } void ld(std::istream& i,std::false_type){ r.load(i); } void load(std::istream& i){ v.load(i); ld(i,S()); } };
template<class R,bool sv> static void mkrm(rmb<R,sv>& x,int var){ D a=ints(var,0); x.v=int_vector<>(a.size(),0,64); for(uint64_t i=0;i<a.size();i++) x.v[i]=a[i]; util::assign(x.r,R(&x.v)); if(!sv) { /* the structure does not need the vector any more */ } }
template<class R,bool sv> static D drm(const rmb<R,sv>& x){ D d; uint64_t n=x.v.size(),st=sym_cfg("step",1); d.push_back(n); if(n) d.push_back(x.r.size()); for(uint64_t i=0;i<n;i+=st) for(uint64_t j=i;j<n;j+=st) d.push_back(x.r(i,j)); return d; }
struct ipb{ typedef uint64_t size_type; int_vector<> v; inv_perm_support<> r; ipb(){} void att(){ r.set_vector(&v); } ipb(const ipb& o):v(o.v),r(o.r){ att(); } ipb(ipb&& o):v(std::move(o.v)),r(std::move(o.r)){ att(); } ipb& operator=(const ipb& o){ if(this!=&o){ v=o.v; r=o.r; att(); } return *this; } ipb& operator=(ipb&& o){ if(this!=&o){ v=std::move(o.v); r=std::move(o.r); att(); } return *this; } void swap(ipb& o){ v.swap(o.v); util::swap_support(r,o.r,&v,&o.v); }
  size_type serialize(std::ostream& o,structure_tree_node* c0=nullptr,std::string nm="") const { auto c=structure_tree::add_child(c0,nm,util::class_name(*this)); size_type w=v.serialize(o,c,"v")+r.serialize(o,c,"r"); structure_tree::add_size(c,w); return w; } void load(std::istream& i){ v.load(i); r.load(i); att(); } };
static void mkip(ipb& x,int var){ uint64_t n=vn(var); std::vector<uint64_t> a(n); for(uint64_t i=0;i<n;i++) a[i]=i; for(uint64_t i=n;i>1;i--){ uint64_t j= win(var,i-1)?sym_conc(sym_rangei("s",i,0,2)):hsh(i); std::swap(a[i-1],a[j%i]); } x.v=int_vector<>(n,0,bits::hi(n)+1); for(uint64_t i=0;i<n;i++) x.v[i]=a[i]; util::assign(x.r,inv_perm_support<>(&x.v)); }
static D dip(const ipb& x){ D d; uint64_t n=x.v.size(); d.push_back(n); if(n) d.push_back(x.r.size()); for(uint64_t i=0;i<n;i++) d.push_back(x.r[i]); return d; }
// ---- points, dictionaries, trees, stacks
template<class T> static void mkk2(T& x,int var){ std::vector<std::array<uint64_t,3>> p; uint64_t n=vn(var); for(uint64_t i=0;i<n;i++){ if(win(var,i)&&!sym_conc(sym_rangei("e",i,0,1))) continue; p.push_back({{i*3%7+(i/7)*7,(hsh(i)+i)%9,hsh(i)%5}}); } if(p.empty()) p.push_back({{1,1,1}}); T y; construct_im(y,p); x.swap(y); }
template<class T> static D dk2(const T& x){ D d; d.push_back(x.size()); typedef k2_treap_ns::point_type P; for(uint64_t a:{0,2,5}) for(uint64_t b:{3,30}){ if(!x.size()) continue; d.push_back(count(x,P(a,0),P(a+b,b))); auto it=top_k(x,P(a,0),P(a+b,b)); uint64_t c=0; while(it&&c++<50){ auto v=*it; d.push_back(std::real(v.first)); d.push_back(std::imag(v.first)); d.push_back(v.second); ++it; } auto jt=range_3d(x,P(a,0),P(a+b,b),k2_treap_ns::range_type(1,3)); c=0; while(jt&&c++<50){ auto v=*jt; d.push_back(std::real(v.first)*1000+std::imag(v.first)); ++jt; } } return d; }
template<class T> static void mkkt(T& x,int var){ uint64_t n= vn(var),m=n<5?n+1:5; std::vector<std::vector<int>> a(m,std::vector<int>(m,0)); for(uint64_t i=0;i<m*m;i++) a[i/m][i%m]= win(var,i)?sym_conc(sym_rangei("e",i,0,1)):hsh(i)%3==0; a[0][1]=1; T y(a); x=std::move(y); }
template<class T> static D dkt(const T& x){ D d; T& y=const_cast<T&>(x); uint64_t n=sym_cfg("kn",3); (void)n; for(uint64_t i=0;i<2;i++){ for(uint64_t j=0;j<2;j++) d.push_back(y.adj(i,j)); for(auto v:y.neigh(i)) d.push_back(v); d.push_back(777); for(auto v:y.reverse_neigh(i)) d.push_back(v); d.push_back(778); } return d; }
static void mknnd(nn_dict_dynamic& x,int var){ bit_vector b=bitsv(var); nn_dict_dynamic y(b.size()); for(uint64_t i=0;i<b.size();i++) if(b[i]) y[i]=1; x.swap(y); }
static D dnnd(const nn_dict_dynamic& x){ D d; uint64_t n=x.size(),st=sym_cfg("step",1); d.push_back(n); for(uint64_t i=0;i<n;i+=st){ d.push_back(x[i]); d.push_back(x.prev(i)); d.push_back(x.next(i)); } return d; }
typedef nearest_neighbour_dictionary<4> nnd_t;
static void mknn(nnd_t& x,int var){ bit_vector b=bitsv(var); if(b.size()) b[0]=1,b[b.size()-1]=1; nnd_t y(b); x.swap(y); }
static D dnn(const nnd_t& x){ D d; uint64_t n=x.size(),st=sym_cfg("step",1); d.push_back(n); d.push_back(x.ones()); for(uint64_t i=0;i<n;i+=st){ d.push_back(x.rank(i)); d.push_back(x.prev(i)); d.push_back(x.next(i)); } for(uint64_t i=1;i<=x.ones();i++) d.push_back(x.select(i)); return d; }
struct bft{ uint64_t n; bit_vector dg; uint64_t size(uint64_t) const { return (n+1)/2; } };
struct bfq{ const bit_vector* dg; std::vector<uint64_t> q; uint64_t h,nx; uint64_t size() const { return q.size()-h; } uint64_t operator*() const { return q[h]; } bfq& operator++(){ uint64_t v=q[h++]; if(v<dg->size()&&(*dg)[v]){ q.push_back(nx++); q.push_back(nx++); } return *this; } bool operator!=(const bfq& o) const { return size()!=o.size(); } };
template<class T> static T* newlo(const bit_vector& b){ bft t{0,b}; bfq a{&b,{0},0,1},e{&b,{},0,1}; { bfq c=a; uint64_t m=0; while(c.size()){ ++c; m++; } t.n=m; } return new T(t,a,e); }
template<class T> struct lo{ typedef uint64_t size_type; T* p; lo(){ p=newlo<T>(bit_vector()); } lo(const lo& o):p(new T(*o.p)){} lo(lo&& o):p(new T(std::move(*o.p))){} lo& operator=(const lo& o){ *p=*o.p; return *this; } lo& operator=(lo&& o){ *p=std::move(*o.p); return *this; } void swap(lo& o){ p->swap(*o.p); } ~lo(){ delete p; } size_type serialize(std::ostream& o,structure_tree_node* v=nullptr,std::string n="") const { return p->serialize(o,v,n); } void load(std::istream& i){ p->load(i); } };
template<class T> static void mklo(lo<T>& x,int var){ delete x.p; x.p=newlo<T>(bitsv(var)); }
#if 0
template<class T> static void mklo_(T& x,int var){ bit_vector b=bitsv(var); bft t{0,b}; bfq a{&b,{0},0,1},e{&b,{},0,1}; { bfq c=a; uint64_t m=0; while(c.size()){ ++c; m++; } t.n=m; } T y(t,a,e); x.swap(y); }
#endif
template<class T> static D dlo(const lo<T>& w){ const T& x=*w.p; D d; uint64_t m=x.nodes(); d.push_back(m); if(!m) return d; std::vector<louds_node> q(1,x.root()); for(uint64_t h=0;h<q.size();h++){ louds_node v=q[h]; d.push_back(x.id(v)); d.push_back(x.is_leaf(v)); uint64_t g=x.degree(v); d.push_back(g); d.push_back(x.id(x.parent(v))); for(uint64_t i=1;i<=g;i++) q.push_back(x.child(v,i)); } return d; }
template<class T> struct stk{ typedef uint64_t size_type; T s; stk():s(300){} void swap(stk& o){ T t(s); s=o.s; o.s=t; } size_type serialize(std::ostream& o,structure_tree_node* v=nullptr,std::string n="") const { return s.serialize(o,v,n); } void load(std::istream& i){ s.load(i); } };
template<class T> static void mkst(stk<T>& x,int var){ T y(var==2?100:300); uint64_t n=vn(var),at=0; for(uint64_t i=0;i<n;i++){ at+= win(var,i)?(const uint64_t[]){1,62,2}[sym_conc(sym_rangei("d",i,0,sym_cfg("k",3)-1))]:1+hsh(i)%3; if(at<(var==2?100u:300u)) y.push(at); } x.s=y; }
template<class T> static D dst(const stk<T>& x){ D d; T y(x.s); uint64_t n=y.size(); d.push_back(n); for(uint64_t i=0;i<n;i++){ d.push_back(y.empty()); d.push_back(y.top()); d.push_back(y.size()); y.pop(); } return d; }
template<class A> static void mkal(A& x,int var){ seq a=text(var); a.push_back(0); int_vector<IW> t(a.size(),0,IW==8?8:64); for(uint64_t i=0;i<a.size();i++) t[i]=a[i]; store_to_file(t,FN("@a")); int_vector_buffer<IW> b(FN("@a"),std::ios::in,64,IW==8?8:64,false); A y(b,a.size()); x.swap(y); }
template<class A> static D dal(const A& x){ D d; d.push_back(x.sigma); for(uint64_t i=0;i<=x.sigma;i++) d.push_back(x.C[i]); for(uint64_t i=0;i<x.sigma;i++){ d.push_back(x.comp2char[i]); d.push_back(x.char2comp[x.comp2char[i]]); } d.push_back(x.char2comp[99]); return d; }
