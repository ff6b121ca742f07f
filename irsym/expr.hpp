// Hash-consed bit-vector expressions with aggressive local simplification.
// Widths 1..128.  Concrete values never become nodes unless an operand is symbolic.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <unordered_map>
#include <unordered_set>
#include <algorithm>
#include <functional>
#include <map>
typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef uint8_t u8; typedef uint16_t u16;
typedef unsigned __int128 u128; typedef __int128 i128;

enum Op : u8 { CONST, VAR, SUM, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR, EQ, ULT, SLT, ITE, CONCAT, EXTRACT, ZEXT, SEXT };
inline const char* opname(Op o){ static const char* n[]={"const","var","sum","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","eq","ult","slt","ite","concat","extract","zext","sext"}; return n[o]; }

struct VarSet { std::vector<u32> v; };
struct Expr;
struct Term { Expr* e; u64 c; };   // SUM only for width<=64
struct Expr {
  Op op; u16 w; u16 nleaf;         // nleaf: number of constant leaves if this is an ite-tree over constants (0 = not)
  u32 id; u64 hash;
  Expr *a=nullptr,*b=nullptr,*c=nullptr;
  u64 k=0,k2=0;                    // CONST lo/hi ; VAR index ; EXTRACT low bit ; SUM constant
  u64 kz=0,ko=0,lo=0,hi=0;         // known zero/one bits and unsigned range (width<=64)
  VarSet* vs=nullptr;
  Term* t=nullptr; Expr** p=nullptr; u32 n=0; // SUM terms / CONCAT parts (p[0] = least significant)
  struct Cut* cut=nullptr; Expr* repl=nullptr; // 1-bit boolean operators: truth table over at most 6 leaves, canonical equal expression
};
struct Cut { u32 n; Expr* l[6]; u64 tt; };
inline u64 maskw(unsigned w){ return w>=64?~0ULL:((1ULL<<w)-1); }
inline u128 mask128(unsigned w){ return w>=128?~(u128)0:(((u128)1<<w)-1); }
inline i64 sx(u64 v,unsigned w){ return w>=64?(i64)v:((i64)(v<<(64-w))>>(64-w)); }
inline i128 sx128(u128 v,unsigned w){ return w>=128?(i128)v:((i128)(v<<(128-w))>>(128-w)); }

struct VarInfo { std::string name; u16 w; u64 lo,hi; };

struct ExprCtx {
  std::vector<Expr*> all;
  std::vector<VarInfo> vars;
  std::vector<VarSet*> vsets; 
  struct Key { u64 h; Expr* e; };
  // open addressing hash table
  std::vector<Expr*> tab; size_t tabn=0;
  char* arena=nullptr; size_t aleft=0; size_t abytes=0;
  VarSet* emptyvs;
  std::unordered_map<u64,std::vector<VarSet*>> vsintern;
  std::unordered_map<u64,VarSet*> vsunion;
  Expr *T,*F;
  void* alloc(size_t n){ n=(n+15)&~15ULL; if(n>aleft){ size_t c=std::max<size_t>(n,1<<22); arena=(char*)malloc(c); if(!arena) abort(); aleft=c; abytes+=c; } void* r=arena; arena+=n; aleft-=n; return r; }
  ExprCtx(){ tab.assign(1<<16,nullptr); emptyvs=new VarSet; T=constant(1,1); F=constant(1,0); }
  static u64 mix(u64 h,u64 v){ h^=v+0x9e3779b97f4a7c15ULL+(h<<6)+(h>>2); h*=0xff51afd7ed558ccdULL; h^=h>>33; return h; }
  VarSet* vsun(VarSet* x,VarSet* y){
    if(x==y||y->v.empty()) return x; if(x->v.empty()) return y;
    if(x>y) std::swap(x,y);
    u64 key=mix((u64)x,(u64)y);
    auto it=vsunion.find(key); if(it!=vsunion.end()) return it->second;
    std::vector<u32> r; r.reserve(x->v.size()+y->v.size());
    std::set_union(x->v.begin(),x->v.end(),y->v.begin(),y->v.end(),std::back_inserter(r));
    VarSet* res= r.size()==x->v.size()?x: r.size()==y->v.size()?y: internvs(r);
    vsunion[key]=res; return res;
  }
  VarSet* internvs(std::vector<u32>& r){
    u64 h=0; for(u32 v:r) h=mix(h,v);
    auto& b=vsintern[h]; for(auto s:b) if(s->v==r) return s;
    auto s=new VarSet; s->v=r; b.push_back(s); return s;
  }
  bool same(const Expr& x,const Expr* y){
    if(x.op!=y->op||x.w!=y->w||x.a!=y->a||x.b!=y->b||x.c!=y->c||x.k!=y->k||x.k2!=y->k2||x.n!=y->n) return false;
    if(x.t){ for(u32 i=0;i<x.n;i++) if(x.t[i].e!=y->t[i].e||x.t[i].c!=y->t[i].c) return false; }
    if(x.p){ for(u32 i=0;i<x.n;i++) if(x.p[i]!=y->p[i]) return false; }
    return true;
  }
  void grow(){ std::vector<Expr*> o; o.swap(tab); tab.assign(o.size()*2,nullptr); size_t m=tab.size()-1; for(auto e:o) if(e){ size_t i=e->hash&m; while(tab[i]) i=(i+1)&m; tab[i]=e; } }
  Expr* intern(Expr x){
    u64 h=mix(x.op,x.w); h=mix(h,(u64)x.a); h=mix(h,(u64)x.b); h=mix(h,(u64)x.c); h=mix(h,x.k); h=mix(h,x.k2);
    for(u32 i=0;i<x.n;i++){ if(x.t){ h=mix(h,(u64)x.t[i].e); h=mix(h,x.t[i].c);} else h=mix(h,(u64)x.p[i]); }
    x.hash=h; size_t m=tab.size()-1; size_t i=h&m;
    while(tab[i]){ if(tab[i]->hash==h&&same(x,tab[i])) return tab[i]->repl?tab[i]->repl:tab[i]; i=(i+1)&m; }
    Expr* e=(Expr*)alloc(sizeof(Expr)); *e=x; e->id=all.size(); all.push_back(e);
    if(x.t){ e->t=(Term*)alloc(sizeof(Term)*x.n); memcpy((void*)e->t,(void*)x.t,sizeof(Term)*x.n); }
    if(x.p){ e->p=(Expr**)alloc(sizeof(Expr*)*x.n); memcpy(e->p,x.p,sizeof(Expr*)*x.n); }
    analyse(e);
    tab[i]=e; if(++tabn*2>tab.size()) grow();
    if(e->w==1&&(e->op==AND||e->op==OR||e->op==XOR||e->op==ITE)) return fhash(e);
    return e;
  }
  // functional hashing of 1-bit operators: equal functions of the same (at most 6) leaves are one node
  std::unordered_map<u64,std::vector<Expr*>> ftab;
  static bool isboolop(const Expr* e){ return e->w==1&&(e->op==AND||e->op==OR||e->op==XOR||e->op==ITE); }
  static u64 tvar(int i){ static const u64 t[6]={0xAAAAAAAAAAAAAAAAULL,0xCCCCCCCCCCCCCCCCULL,0xF0F0F0F0F0F0F0F0ULL,0xFF00FF00FF00FF00ULL,0xFFFF0000FFFF0000ULL,0xFFFFFFFF00000000ULL}; return t[i]; }
  void cutleaves(Expr* x,bool deep,std::vector<Expr*>& o){ if(x->op==CONST) return; if(deep&&x->cut){ for(u32 i=0;i<x->cut->n;i++) o.push_back(x->cut->l[i]); } else o.push_back(x); }
  static u64 expandtt(const Cut* c,const std::vector<Expr*>& L){ // truth table of c over the leaves L (a superset)
    int pos[6]; for(u32 i=0;i<c->n;i++) pos[i]=std::lower_bound(L.begin(),L.end(),c->l[i],[](Expr*a,Expr*b){return a->id<b->id;})-L.begin();
    bool id=true; for(u32 i=0;i<c->n;i++) if(pos[i]!=(int)i) id=false; if(id) return c->tt;
    u64 r=0; unsigned N=1u<<L.size(); for(unsigned m=0;m<N;m++){ unsigned k=0; for(u32 i=0;i<c->n;i++) k|=((m>>pos[i])&1)<<i; r|=((c->tt>>k)&1)<<m; } for(unsigned m=N;m<64;m*=2) r|=r<<m; return r; }
  void mkcut(Expr* e,const std::vector<Expr*>& L,u64 tt){ Cut* c=(Cut*)alloc(sizeof(Cut)); c->n=L.size(); for(u32 i=0;i<c->n;i++) c->l[i]=L[i]; c->tt=tt; e->cut=c; }
  Expr* fhash(Expr* e){
    Expr* ch[3]={e->a,e->b,e->c}; std::vector<Expr*> L; bool deep=true;
    for(;;){ L.clear(); for(auto x:ch) if(x) cutleaves(x,deep,L); std::sort(L.begin(),L.end(),[](Expr*a,Expr*b){return a->id<b->id;}); L.erase(std::unique(L.begin(),L.end()),L.end()); if(L.size()<=6) break; if(!deep) return e; deep=false; }
    u64 t[3]={0,0,0}; for(int i=0;i<3;i++) if(ch[i]){ Expr* x=ch[i]; if(x->op==CONST) t[i]=x->k?~0ULL:0; else if(deep&&x->cut) t[i]=expandtt(x->cut,L); else t[i]=tvar(std::lower_bound(L.begin(),L.end(),x,[](Expr*a,Expr*b){return a->id<b->id;})-L.begin()); }
    u64 tt= e->op==AND?t[0]&t[1]: e->op==OR?t[0]|t[1]: e->op==XOR?t[0]^t[1]: (t[0]&t[1])|(~t[0]&t[2]);
    // drop leaves the function does not depend on
    for(int i=(int)L.size()-1;i>=0;i--){ u64 v=tvar(i); unsigned sh=1u<<i; u64 c1=(tt&v)>>sh, c0=tt&~v; if(c0==c1){ // remove variable i: compact
        u64 r=0; unsigned N=1u<<(L.size()-1); for(unsigned m=0;m<N;m++){ unsigned k=(m&(sh-1))|((m>>i)<<(i+1)); r|=((tt>>k)&1)<<m; } for(unsigned m=N;m<64;m*=2) r|=r<<m; tt=r; L.erase(L.begin()+i); } }
    if(L.empty()) return e->repl=(tt&1)?T:F;
    if(L.size()==1) { if((tt&3)==2) return e->repl=L[0]; Expr* n=lnot(L[0]); if(n!=e) return e->repl=n; }
    bool neg=tt&1; u64 nt=neg?~tt:tt; u64 h=nt; for(auto x:L) h=mix(h,x->id);
    for(auto q:ftab[h]){ Cut* c=q->cut; if(c->n!=L.size()) continue; bool ok=true; for(u32 i=0;i<c->n&&ok;i++) ok=c->l[i]==L[i]; if(!ok) continue; if(c->tt==tt) return e->repl=q; if(c->tt==~tt&&L.size()>1){ Expr* n=lnot(q); if(n==e){ mkcut(e,L,tt); return e; } return e->repl=n; } }
    mkcut(e,L,tt); ftab[h].push_back(e); return e;
  }
  void analyse(Expr* e){
    unsigned w=e->w; u64 m=maskw(w);
    VarSet* vs=emptyvs;
    if(e->op==VAR){ std::vector<u32> r{(u32)e->k}; vs=internvs(r); }
    else { if(e->a) vs=e->a->vs; if(e->b) vs=vsun(vs,e->b->vs); if(e->c) vs=vsun(vs,e->c->vs);
      for(u32 i=0;i<e->n;i++) vs=vsun(vs,e->t?e->t[i].e->vs:e->p[i]->vs); }
    e->vs=vs; e->nleaf=0;
    e->kz=e->ko=0; e->lo=0; e->hi=m;
    if(w>64) { if(e->op==ITE){ } return; }
    u64 kz=0,ko=0,lo=0,hi=m; Expr*a=e->a,*b=e->b,*c=e->c;
    switch(e->op){
      case CONST: kz=~e->k&m; ko=e->k; lo=hi=e->k; e->nleaf=1; break;
      case VAR: lo=vars[e->k].lo; hi=vars[e->k].hi; break;
      case SUM: {
        i128 L=e->k,H=e->k; bool ok=true; 
        for(int att=0;att<2;att++){ // try const as unsigned then as signed
          L=H= att? (i128)sx(e->k,w):(i128)e->k; ok=true;
          for(u32 i=0;i<e->n&&ok;i++){ i64 cs=sx(e->t[i].c,w); Expr* x=e->t[i].e; i128 p=(i128)cs*x->lo,q=(i128)cs*x->hi; if(cs>=0){L+=p;H+=q;}else{L+=q;H+=p;} if(L>((i128)1<<100)||H>((i128)1<<100)||L<-((i128)1<<100)||H<-((i128)1<<100)) ok=false; }
          if(ok&&L>=0&&H<=(i128)m) break; else ok=false;
        }
        if(ok){ lo=(u64)L; hi=(u64)H; }
        // trailing zeros
        unsigned tz=64; auto tzv=[](u64 v){ return v?(unsigned)__builtin_ctzll(v):64u; };
        tz=tzv(e->k); for(u32 i=0;i<e->n;i++){ unsigned z=tzv(e->t[i].c); unsigned y=tzv(~e->t[i].e->kz); unsigned s=std::min(64u,z+y); if(s<tz) tz=s; }
        if(tz>w) tz=w; kz|=maskw(tz);
        // known low bits: full adder over known low part
        { u64 acc=e->k; unsigned nb=w; for(u32 i=0;i<e->n;i++){ Expr* x=e->t[i].e; u64 kn=x->kz|x->ko; unsigned nk=tzv(~kn); unsigned z=tzv(e->t[i].c); unsigned s=std::min(64u,nk+z); if(s<nb) nb=s; acc+=x->ko*e->t[i].c; } if(nb>0){ u64 lm=maskw(nb); ko|=acc&lm; kz|=~acc&lm; } }
        break; }
      case MUL: { u128 h=(u128)a->hi*b->hi; if(h<=m){ hi=(u64)h; lo=a->lo*b->lo; } 
        unsigned z1=a->kz==m?w:__builtin_ctzll(~a->kz),z2=b->kz==m?w:__builtin_ctzll(~b->kz); unsigned s=std::min<unsigned>(w,z1+z2); kz|=maskw(s); break; }
      case UDIV: if(b->lo>0){ hi=a->hi/b->lo; lo=a->lo/b->hi; } break;
      case UREM: if(b->lo>0){ hi=std::min(a->hi,b->hi-1); } break;
      case AND: kz=a->kz|b->kz; ko=a->ko&b->ko; hi=std::min(a->hi,b->hi); break;
      case OR: kz=a->kz&b->kz; ko=a->ko|b->ko; lo=std::max(a->lo,b->lo); break;
      case XOR: kz=(a->kz&b->kz)|(a->ko&b->ko); ko=(a->kz&b->ko)|(a->ko&b->kz); break;
      case SHL: { unsigned z=a->kz==maskw(a->w)?w:__builtin_ctzll(~a->kz); kz|=maskw(std::min<u64>(w,z+b->lo)); if(b->hi<w && (a->hi<<b->hi>>b->hi)==a->hi && (a->hi<<b->hi)<=m){ hi=a->hi<<b->hi; lo=a->lo<<b->lo; } break; }
      case LSHR: if(b->lo<w) hi=a->hi>>b->lo; else hi=0; if(b->hi<w) lo=a->lo>>b->hi; break;
      case EQ: case ULT: case SLT: break;
      case ITE: kz=b->kz&c->kz; ko=b->ko&c->ko; lo=std::min(b->lo,c->lo); hi=std::max(b->hi,c->hi);
        if(b->nleaf&&c->nleaf){ unsigned s=b->nleaf+c->nleaf; e->nleaf=s<=4096?s:0; } break;
      case CONCAT: { unsigned s=0; lo=hi=0; for(u32 i=0;i<e->n;i++){ Expr* x=e->p[i]; kz|=x->kz<<s; ko|=x->ko<<s; lo|=x->lo<<s; hi|=x->hi<<s; s+=x->w; } break; }
      case EXTRACT: if(a->w<=64){ kz=(a->kz>>e->k)&m; ko=(a->ko>>e->k)&m; if((a->hi>>e->k)<=m){ hi=a->hi>>e->k; lo=a->lo>>e->k; } } break;
      case ZEXT: kz=a->kz|(m&~maskw(a->w)); ko=a->ko; lo=a->lo; hi=a->hi; break;
      case SEXT: { u64 am=maskw(a->w),ex=m&~am; u64 sb=1ULL<<(a->w-1); kz=a->kz;ko=a->ko; if(a->kz&sb){kz|=ex; lo=a->lo;hi=a->hi;} else if(a->ko&sb){ ko|=ex; lo=a->lo|ex; hi=a->hi|ex; } break; }
      default: break;
    }
    // combine
    if(lo>hi){ lo=0; hi=m; }
    u64 l2=ko, h2=m&~kz; if(l2>lo) lo=l2; if(h2<hi) hi=h2;
    if(lo<=hi){ // common high prefix
      u64 d=lo^hi; if(d==0){ kz|=~lo&m; ko|=lo; } else { unsigned t=64-__builtin_clzll(d); if(t<w){ u64 pm=m&~maskw(t); ko|=lo&pm; kz|=~lo&pm; } } }
    else { lo=0; hi=m; }
    e->kz=kz&m; e->ko=ko&m; e->lo=lo; e->hi=hi;
    if((e->op==ZEXT||e->op==SEXT)&&a->w==1) e->nleaf=2;
    if(e->op==ZEXT&&a->nleaf) e->nleaf=a->nleaf;
    if(e->op==SUM&&e->n==1&&e->t[0].e->nleaf&&e->t[0].e->nleaf<64) e->nleaf=e->t[0].e->nleaf;
  }
  Expr* constant(unsigned w,u128 v){ Expr x{}; x.op=CONST; x.w=w; v&=mask128(w); x.k=(u64)v; x.k2=(u64)(v>>64); return intern(x); }
  Expr* var(const std::string& name,unsigned w,u64 lo,u64 hi){ vars.push_back({name,(u16)w,lo,hi}); Expr x{}; x.op=VAR; x.w=w; x.k=vars.size()-1; return intern(x); }
  static bool isc(Expr* e){ return e->op==CONST; }
  static u128 cv(Expr* e){ return ((u128)e->k2<<64)|e->k; }
  bool isz(Expr* e){ return e->op==CONST&&e->k==0&&e->k2==0; }
  bool isones(Expr* e){ return e->op==CONST&&cv(e)==mask128(e->w); }

  Expr* raw(Op op,unsigned w,Expr* a,Expr* b=nullptr,Expr* c=nullptr,u64 k=0){ Expr x{}; x.op=op; x.w=w; x.a=a; x.b=b; x.c=c; x.k=k;
    Expr* e=intern(x); return known(e); }
  Expr* known(Expr* e){ if(e->w<=64&&e->op!=CONST&&(e->kz|e->ko)==maskw(e->w)) return constant(e->w,e->ko); return e; }

  static u128 foldbin(Op op,unsigned w,u128 a,u128 b){
    u128 m=mask128(w); 
    switch(op){
      case MUL: return (a*b)&m; case UDIV: return b?a/b:m; case UREM: return b?a%b:a;
      case SDIV: { i128 x=sx128(a,w),y=sx128(b,w); if(y==0) return (x<0?1:m)&m; if(y==-1) return (u128)(-(u128)x)&m; return (u128)(x/y)&m; }
      case SREM: { i128 x=sx128(a,w),y=sx128(b,w); if(y==0) return a; if(y==-1) return 0; return (u128)(x%y)&m; }
      case AND: return a&b; case OR: return a|b; case XOR: return a^b;
      case SHL: return b>=w?0:(a<<(unsigned)b)&m; case LSHR: return b>=w?0:a>>(unsigned)b;
      case ASHR: { i128 x=sx128(a,w); return (u128)(x>>(unsigned)(b>=w?(u128)(w-1):b))&m; }
      case EQ: return a==b; case ULT: return a<b; case SLT: return sx128(a,w)<sx128(b,w);
      default: abort(); }
  }
  // view as ite(c,t,f)?
  bool asIte(Expr* e,Expr*& c,Expr*& t,Expr*& f){
    if(e->op==ITE){ c=e->a;t=e->b;f=e->c; return true; }
    if(e->op==ZEXT&&e->a->w==1){ c=e->a; t=constant(e->w,1); f=constant(e->w,0); return true; }
    if(e->op==SEXT&&e->a->w==1){ c=e->a; t=constant(e->w,~(u128)0); f=constant(e->w,0); return true; }
    if(e->op==ZEXT&&e->a->nleaf>1){ Expr*x,*y; if(asIte(e->a,c,x,y)){ t=zext(x,e->w); f=zext(y,e->w); return true; } }
    if(e->op==SUM&&e->n==1&&e->nleaf){ Expr*x,*y; if(asIte(e->t[0].e,c,x,y)){ t=addmulc(x,e->t[0].c,e->k); f=addmulc(y,e->t[0].c,e->k); return true; } }
    return false;
  }
  Expr* addmulc(Expr* x,u64 c,u64 k){ return isc(x)?constant(x->w,x->k*c+k):sum1(x,c,k); }
  // map op over ite-tree with constant leaves
  Expr* maptree(Expr* e,const std::function<Expr*(Expr*)>& f,std::unordered_map<Expr*,Expr*>& memo){
    if(isc(e)) return f(e);
    auto it=memo.find(e); if(it!=memo.end()) return it->second;
    Expr*c,*t,*el; Expr* r;
    if(asIte(e,c,t,el)) r=ite(c,maptree(t,f,memo),maptree(el,f,memo)); else { fprintf(stderr,"maptree: not a tree\n"); abort(); }
    memo[e]=r; return r;
  }
  Expr* mapt(Expr* e,const std::function<Expr*(Expr*)>& f){ std::unordered_map<Expr*,Expr*> memo; return maptree(e,f,memo); }
  enum { TREE=40 };
  bool tree(Expr* e){ return e->nleaf>1&&e->nleaf<=TREE; }

  // ---- boolean
  Expr* lnot(Expr* a){ if(isc(a)) return a->k?F:T; if(a->op==XOR&&a->b==T) return a->a; 
    return raw(XOR,1,a,T); }
  bool isNotOf(Expr* a,Expr* b){ return (a->op==XOR&&a->w==1&&a->b==T&&a->a==b)||(b->op==XOR&&b->w==1&&b->b==T&&b->a==a); }
  Expr* land(Expr* a,Expr* b){ return band(a,b); }
  Expr* lor(Expr* a,Expr* b){ return bor(a,b); }
  // ---- segments
  struct Seg { Expr* e; };
  void segs(Expr* e,std::vector<Expr*>& out){ if(e->op==CONCAT){ for(u32 i=0;i<e->n;i++) out.push_back(e->p[i]); } else if(e->op==ZEXT){ segs(e->a,out); out.push_back(constant(e->w-e->a->w,0)); } else out.push_back(e); }
  bool segmented(Expr* e){ return e->op==CONCAT||e->op==ZEXT||e->op==CONST; }
  Expr* concat(const std::vector<Expr*>& in){ // LSB first
    std::vector<Expr*> v; unsigned w=0;
    auto push=[&](Expr* e){
      if(!v.empty()){ Expr* l=v.back();
        if(isc(l)&&isc(e)&&l->w+e->w<=128){ v.back()=constant(l->w+e->w,cv(l)|(cv(e)<<l->w)); return; }
        Expr* lb=l->op==EXTRACT?l->a:l; u64 lk=l->op==EXTRACT?l->k:0; Expr* eb=e->op==EXTRACT?e->a:e; u64 ek=e->op==EXTRACT?e->k:0;
        if(lb==eb&&ek==lk+l->w){ v.back()=extract(lb,lk,l->w+e->w); return; }
      }
      v.push_back(e);
    };
    for(auto e:in){ w+=e->w; if(e->op==CONCAT) for(u32 i=0;i<e->n;i++) push(e->p[i]); else if(e->op==ZEXT){ std::vector<Expr*> s; segs(e,s); for(auto x:s) push(x); } else push(e); }
    if(v.size()==1) return v[0];
    // merging may produce CONCAT elements (extract returning concat); flatten
    for(auto e:v) if(e->op==CONCAT||e->op==ZEXT){ std::vector<Expr*> f; for(auto x:v) segs(x,f); bool again=false; for(auto x:f) if(x->op==CONCAT||x->op==ZEXT) again=true; if(again||f!=v) return concat(f); break; }
    if(isz(v.back())){ Expr* top=v.back(); v.pop_back(); Expr* lo= v.size()==1?v[0]:mkconcat(v); return zextraw(lo,lo->w+top->w); }
    return mkconcat(v);
  }
  Expr* mkconcat(std::vector<Expr*>& v){ Expr x{}; x.op=CONCAT; unsigned w=0; for(auto e:v) w+=e->w; x.w=w; x.p=v.data(); x.n=v.size(); return known(intern(x)); }
  Expr* zextraw(Expr* a,unsigned w){ return raw(ZEXT,w,a); }
  Expr* zext(Expr* a,unsigned w){
    if(a->w==w) return a; if(isc(a)) return constant(w,cv(a)); if(a->op==ZEXT) return zext(a->a,w);
    if(a->op==SUM&&w<=64&&a->w<=64){ // distribute if no wrap
      bool ok=true; i128 H=a->k; for(u32 i=0;i<a->n;i++){ i64 cs=sx(a->t[i].c,a->w); if(cs<0){ok=false;break;} H+=(i128)cs*a->t[i].e->hi; if(H>(i128)maskw(a->w)){ok=false;break;} }
      if(ok){ std::vector<Term> ts; for(u32 i=0;i<a->n;i++) ts.push_back({zext(a->t[i].e,w),a->t[i].c}); return sum(w,ts,a->k); } }
    return zextraw(a,w);
  }
  Expr* sext(Expr* a,unsigned w){
    if(a->w==w) return a; if(isc(a)) return constant(w,(u128)sx128(cv(a),a->w));
    if(a->w<=64&&(a->kz>>(a->w-1)&1)) return zext(a,w);
    if(a->op==ZEXT) return zext(a,w);
    if(a->op==SEXT) return sext(a->a,w);
    if(tree(a)) return mapt(a,[&](Expr* x){ return sext(x,w); });
    return raw(SEXT,w,a);
  }
  Expr* extract(Expr* a,unsigned lo,unsigned w){
    if(lo==0&&w==a->w) return a;
    if(isc(a)) return constant(w,cv(a)>>lo);
    if(a->w<=64){ u64 m=maskw(w); if((((a->kz|a->ko)>>lo)&m)==m) return constant(w,a->ko>>lo); }
    if(a->op==EXTRACT) return extract(a->a,a->k+lo,w);
    if(a->op==VAR||a->op==MUL||a->op==UDIV) return raw(EXTRACT,w,a,nullptr,nullptr,lo);
    u64 key=mix((u64)a,lo*256+w); ExC& ce=exc[key&(EXN-1)];
    if(ce.a==a&&ce.lo==lo&&ce.w==w) return ce.r;
    Expr* r=extract2(a,lo,w); ce={a,r,(u16)lo,(u16)w}; return r;
  }
  struct ExC { Expr*a=nullptr; Expr* r=nullptr; u16 lo=0,w=0; };
  enum { EXN=1<<16 };
  std::vector<ExC> exc=std::vector<ExC>(EXN);
  Expr* extract2(Expr* a,unsigned lo,unsigned w){
    switch(a->op){
      case ZEXT: if(lo>=a->a->w) return constant(w,0); if(lo+w<=a->a->w) return extract(a->a,lo,w); return zext(extract(a->a,lo,a->a->w-lo),w);
      case SEXT: if(lo+w<=a->a->w) return extract(a->a,lo,w); if(lo<a->a->w) { return sext(extract(a->a,lo,a->a->w-lo),w);} return sext(extract(a->a,a->a->w-1,1),w);
      case CONCAT: { std::vector<Expr*> v; unsigned s=0; for(u32 i=0;i<a->n;i++){ Expr* x=a->p[i]; unsigned b=std::max(s,lo),e=std::min<unsigned>(s+x->w,lo+w); if(b<e) v.push_back(extract(x,b-s,e-b)); s+=x->w; if(s>=lo+w) break; } return v.size()==1?v[0]:concat(v); }
      case AND: return band(extract(a->a,lo,w),extract(a->b,lo,w));
      case OR: return bor(extract(a->a,lo,w),extract(a->b,lo,w));
      case XOR: return bxor(extract(a->a,lo,w),extract(a->b,lo,w));
      case SUM: if(lo==0&&w==1&&a->n>=3){ unsigned odd=0; for(u32 i=0;i<a->n;i++) odd+=a->t[i].c&1; if(odd>=3){ if(a->w>8) return extract2(extract(a,0,8),0,1); return raw(EXTRACT,1,a,nullptr,nullptr,0); } }
        if(lo==0){ std::vector<Term> ts; for(u32 i=0;i<a->n;i++) ts.push_back({extract(a->t[i].e,0,w),a->t[i].c}); return sum(w,ts,a->k); } 
        if(Expr* r=extractsum(a,lo,w)) return r;
        if(w+0u<a->w&&a->n<=64&&a->w>=16){ for(unsigned p=lo-1;p>0&&p+12>=lo;p--) if(Expr* r=extractsum(a,p,lo-p+w)) return extract(r,lo-p,w); }
        if(w==1&&lo+1==a->w&&a->k&&nowrap(a)) return lnot(ult(a,constant(a->w,1ULL<<lo)));
        break;
      case ITE: { auto good=[&](Expr* x){ return x->op==CONST||x->op==CONCAT||x->op==ZEXT||x->op==SUM&&0; }; if(good(a->b)||good(a->c)||tree(a)) return ite(a->a,extract(a->b,lo,w),extract(a->c,lo,w)); break; }
      default: break;
    }
    if(tree(a)) return mapt(a,[&](Expr* x){ return extract(x,lo,w); });
    return raw(EXTRACT,w,a,nullptr,nullptr,lo);
  }
  // ---- sums
  bool nowrap(Expr* a){ u128 h=a->k; for(u32 i=0;i<a->n;i++){ if(a->t[i].c>>(a->w-1)) return false; h+=(u128)a->t[i].c*a->t[i].e->hi; if(h>maskw(a->w)) return false; } return true; }
  // (sum >> lo) when the part of the sum below bit lo cannot produce a carry
  Expr* extractsum(Expr* a,unsigned lo,unsigned w){
    for(int ex=0;ex<2;ex++){
      std::vector<Term> ts; bool any=false;
      for(u32 i=0;i<a->n;i++){ Expr* e=a->t[i].e; Expr* q=e->op==ZEXT?e->a:e;
        if(ex&&q->op==CONCAT){ any=true; unsigned s=0; for(u32 j=0;j<q->n;j++){ Expr* x=q->p[j]; u64 c=(a->t[i].c<<s)&maskw(a->w); s+=x->w; if(isz(x)||!c) continue; Expr* z=zext(x,a->w); if(z->op==SUM){ if(z->k) return nullptr; for(u32 m=0;m<z->n;m++) ts.push_back({z->t[m].e,(z->t[m].c*c)&maskw(a->w)}); } else ts.push_back({z,c}); } }
        else ts.push_back(a->t[i]); }
      if(ex&&!any) return nullptr;
      if(ex){ // combine equal terms
        std::sort(ts.begin(),ts.end(),[](const Term&x,const Term&y){ return x.e->id<y.e->id; }); size_t j=0; for(size_t i=0;i<ts.size();){ u64 c=0; Expr* e=ts[i].e; while(i<ts.size()&&ts[i].e==e) c+=ts[i++].c; c&=maskw(a->w); if(c) ts[j++]={e,c}; } ts.resize(j); }
      u64 lm=maskw(lo); u128 L=a->k&lm; bool ok=true;
      for(auto&t:ts){ L+=(u128)(t.c&lm)*t.e->hi; if(L>lm){ ok=false; break; } }
      if(!ok) continue;
      if(w==1){ unsigned odd=0; for(auto&t:ts) odd+=(t.c>>lo)&1; if(odd>=3){ if(a->w-lo<2) return nullptr; unsigned w2=std::min(8u,a->w-lo); std::vector<Term> r; for(auto&t:ts) if((t.c>>lo)&maskw(w2)) r.push_back({extract(t.e,0,w2),t.c>>lo}); Expr* x=sum(w2,r,a->k>>lo); return x->op==SUM?extract2(x,0,1):extract(x,0,1); } }
      std::vector<Term> r; for(auto&t:ts) if((t.c>>lo)&maskw(w)) r.push_back({extract(t.e,0,w),t.c>>lo});
      return sum(w,r,a->k>>lo);
    }
    return nullptr;
  }
  // carry-free decomposition of a sum into fields; nullptr if none
  Expr* cutsum(unsigned w,std::vector<Term>& o,u64 k){
    if(o.size()>=8){ for(auto&t:o) if(t.e->hi>64) return nullptr;
      std::vector<Term> q=o; std::sort(q.begin(),q.end(),[](const Term&x,const Term&y){ return x.c!=y.c?x.c<y.c:x.e->id<y.e->id; });
      std::vector<unsigned> sz(q.size()+1,64); for(int i=(int)q.size()-1;i>=0;i--) sz[i]=std::min(sz[i+1],(unsigned)__builtin_ctzll(q[i].c));
      std::vector<unsigned> cut; std::vector<size_t> at; u128 L=0; for(size_t i=0;i+1<q.size();i++){ L+=(u128)q[i].c*q[i].e->hi; unsigned p=sz[i+1]; if(q[i].c==q[i+1].c||p==0||p>=w) continue; if(L+(k&maskw(p))<=maskw(p)){ cut.push_back(p); at.push_back(i+1); } }
      if(cut.size()<3) return nullptr;
      std::vector<Expr*> parts; unsigned b=0; size_t i0=0; cut.push_back(w); at.push_back(q.size());
      for(size_t j=0;j<cut.size();j++){ std::vector<Term> ts; unsigned fw=cut[j]-b; for(size_t i=i0;i<at[j];i++) ts.push_back({extract(q[i].e,0,fw),q[i].c>>b}); parts.push_back(sum(fw,ts,k>>b)); b=cut[j]; i0=at[j]; }
      return concat(parts); }
    if(o.size()>=2&&o.size()<=4&&w>=16){ std::vector<std::vector<Expr*>> sg(o.size()); size_t mx=0;
      for(size_t i=0;i<o.size();i++){ if(o[i].c!=1) return nullptr; Expr* q=o[i].e->op==ZEXT?o[i].e->a:o[i].e; if(q->op!=CONCAT&&o[i].e->op!=ZEXT) return nullptr; if(q->op==CONCAT) mx=std::max<size_t>(mx,q->n); segs(o[i].e,sg[i]); }
      if(mx<4) return nullptr;
      std::vector<unsigned> cut; unsigned b=0; // candidate cuts: segment borders of the first operand
      std::vector<unsigned> cand; for(auto& v:sg){ unsigned s=0; for(auto e:v){ s+=e->w; if(s<w) cand.push_back(s); } } std::sort(cand.begin(),cand.end()); cand.erase(std::unique(cand.begin(),cand.end()),cand.end());
      std::vector<Expr*> parts; 
      for(unsigned p:cand){ u128 L=(k>>b)&maskw(p-b); bool ok=true; for(auto&t:o){ Expr* x=extract(t.e,b,p-b); L+=x->hi; if(L>maskw(p-b)){ ok=false; break; } } if(!ok) continue;
        std::vector<Term> ts; for(auto&t:o) ts.push_back({extract(t.e,b,p-b),1}); parts.push_back(sum(p-b,ts,k>>b)); b=p; }
      if(parts.size()<3) return nullptr;
      std::vector<Term> ts; for(auto&t:o) ts.push_back({extract(t.e,b,w-b),1}); parts.push_back(sum(w-b,ts,k>>b)); return concat(parts); }
    return nullptr;
  }
  Expr* sum1(Expr* x,u64 c,u64 k){ std::vector<Term> t{{x,c}}; return sum(x->w,t,k); }
  void addterm(std::vector<Term>& out,u64& k,unsigned w,Expr* e,u64 c){
    c&=maskw(w); if(!c) return;
    if(isc(e)){ k+=e->k*c; return; }
    if(e->op==SUM){ k+=e->k*c; for(u32 i=0;i<e->n;i++) addterm(out,k,w,e->t[i].e,e->t[i].c*c); return; }
    if(e->op==CONCAT&&isz(e->p[0])){ unsigned z=e->p[0]->w; std::vector<Expr*> v(e->p+1,e->p+e->n); Expr* x=v.size()==1?v[0]:concat(v); addterm(out,k,w,zext(x,w),c<<z); return; }
    if(e->op==ZEXT&&e->a->op==CONCAT&&isz(e->a->p[0])){ unsigned z=e->a->p[0]->w; Expr* q=e->a; std::vector<Expr*> v(q->p+1,q->p+q->n); Expr* x=v.size()==1?v[0]:concat(v); addterm(out,k,w,zext(x,w),c<<z); return; }
    // zext(not b) = 1 - zext(b)
    if(e->op==ZEXT&&e->a->w==1&&e->a->op==XOR&&e->a->b==T){ k+=c; out.push_back({zextraw(e->a->a,w),(0-c)&maskw(w)}); return; }
    // ite(c,x,y) with constant leaves differing: leave
    out.push_back({e,c});
  }
  Expr* sum(unsigned w,std::vector<Term>& in,u64 k){
    std::vector<Term> o; for(auto& t:in) addterm(o,k,w,t.e,t.c);
    k&=maskw(w);
    if(w==1){ Expr* r=k?T:F; for(auto&t:o) r=bxor(r,t.e); return r; }
    std::sort(o.begin(),o.end(),[](const Term&x,const Term&y){ return x.e->id<y.e->id; });
    size_t j=0; for(size_t i=0;i<o.size();){ u64 c=0; Expr* e=o[i].e; while(i<o.size()&&o[i].e==e) c+=o[i++].c; c&=maskw(w); if(c) o[j++]={e,c}; }
    o.resize(j);
    if(o.empty()) return constant(w,k);
    if(o.size()==1&&k==0&&o[0].c==1) return o[0].e;
    if(o.size()==1&&o[0].e->nleaf>1&&o[0].e->nleaf<=TREE&&!(o[0].e->op==ZEXT&&o[0].e->a->w==1)){ u64 c=o[0].c; return mapt(o[0].e,[&](Expr* x){ return constant(w,x->k*c+k); }); }
    // single shifted term without constant: keep bit-structured form
    if(o.size()==1&&k==0&&(o[0].c&(o[0].c-1))==0){ Expr* e=o[0].e; unsigned z=__builtin_ctzll(o[0].c); if(segmented(e)||e->op==VAR||e->op==EXTRACT){ std::vector<Expr*> v{constant(z,0),extract(e,0,w-z)}; return concat(v); } }
    // disjoint bits: use or (concat)
    if(o.size()==2&&k==0&&o[0].c==1&&o[1].c==1&&((~o[0].e->kz)&(~o[1].e->kz)&maskw(w))==0&&segmented(o[0].e)&&segmented(o[1].e)) return bor(o[0].e,o[1].e);
    // x - (bits of x): expand into single bits
    if(o.size()==2&&w>=16){ for(int d=0;d<2;d++){ Expr* q=o[d].e->op==ZEXT?o[d].e->a:o[d].e; Expr* y=o[1-d].e; if(o[d].c==maskw(w)&&q->op==CONCAT&&o[1-d].c==1&&(y->op==VAR||y->op==EXTRACT||y->op==CONCAT||y->op==ZEXT)){ unsigned ones=0; for(u32 j=0;j<q->n;j++) if(q->p[j]->w==1) ones++; if(ones<4) continue;
        std::vector<Term> ts; unsigned sh=0; for(u32 j=0;j<q->n;j++){ for(unsigned b=0;b<q->p[j]->w;b++) ts.push_back({zext(extract(q->p[j],b,1),w),0-(1ULL<<sh++)}); }
        for(unsigned b=0;b<w;b++) ts.push_back({zext(extract(y,b,1),w),1ULL<<b});
        return sum(w,ts,k); } } }
    if(Expr* r=cutsum(w,o,k)) return r;
    Expr x{}; x.op=SUM; x.w=w; x.k=k; x.t=o.data(); x.n=o.size();
    return known(intern(x));
  }
  Expr* add(Expr* a,Expr* b){ if(isc(a)&&isc(b)) return constant(a->w,cv(a)+cv(b)); 
    if(a->w>64){ if(isz(a)) return b; if(isz(b)) return a; return wideadd(a,b); }
    if(a->w==1) return bxor(a,b);
    std::vector<Term> t{{a,1},{b,1}}; return sum(a->w,t,0); }
  Expr* sub(Expr* a,Expr* b){ if(isc(a)&&isc(b)) return constant(a->w,cv(a)-cv(b)); if(a==b) return constant(a->w,0);
    if(a->w>64){ if(isz(b)) return a; return wideadd(a,wideneg(b)); }
    if(a->w==1) return bxor(a,b);
    std::vector<Term> t{{a,1},{b,~0ULL}}; return sum(a->w,t,0); }
  // wide (65..128) addition: no SUM normal form; encoded as MUL-free raw node via SUM with op SUM not allowed -> use two halves
  Expr* wideadd(Expr* a,Expr* b){ unsigned w=a->w; Expr*al=extract(a,0,64),*ah=extract(a,64,w-64),*bl=extract(b,0,64),*bh=extract(b,64,w-64);
    Expr* lo=add(al,bl); Expr* carry=ult(lo,al); Expr* hi=add(add(ah,bh),zext(carry,w-64)); std::vector<Expr*> v{lo,hi}; return concat(v); }
  Expr* wideneg(Expr* b){ return wideadd(bxor(b,constant(b->w,~(u128)0)),constant(b->w,1)); }
  Expr* mul(Expr* a,Expr* b){
    unsigned w=a->w; if(isc(a)) std::swap(a,b);
    if(isc(a)&&isc(b)) return constant(w,foldbin(MUL,w,cv(a),cv(b)));
    if(isz(b)) return b; if(isc(b)&&cv(b)==1) return a;
    if(w==1) return band(a,b);
    if(w<=64&&isc(b)) return sum1(a,b->k,0);
    if(isc(b)){ u128 v=cv(b); if((v&(v-1))==0){ unsigned z=0; while(!((v>>z)&1)) z++; return shl(a,constant(w,z)); } }
    if(w<=64){ // one-bit factor
      for(int s=0;s<2;s++){ if(a->op==ZEXT&&a->a->w==1) return ite(a->a,b,constant(w,0)); std::swap(a,b);} 
      if(tree(a)&&a->nleaf<=8) return mapt(a,[&](Expr* x){ return mul(b,x); });
      if(tree(b)&&b->nleaf<=8) return mapt(b,[&](Expr* x){ return mul(a,x); });
    }
    if(w>64){ // both fit in 64 bits and product maybe: keep raw
    }
    if(a->id>b->id) std::swap(a,b);
    return raw(MUL,w,a,b);
  }
  Expr* divop(Op op,Expr* a,Expr* b){
    unsigned w=a->w; if(isc(a)&&isc(b)) return constant(w,foldbin(op,w,cv(a),cv(b)));
    if(w<=64){
      u64 sb=1ULL<<(w-1);
      if((op==SDIV||op==SREM)&&(a->kz&sb)&&(b->kz&sb)) op=op==SDIV?UDIV:UREM;
      if(isc(b)&&b->k&&(op==UDIV||op==UREM)){
        if((b->k&(b->k-1))==0){ unsigned z=__builtin_ctzll(b->k); if(op==UDIV) return lshr(a,constant(w,z)); return z?zext(extract(a,0,z),w):constant(w,0); }
        if(a->hi<b->k) return op==UDIV?constant(w,0):a;
      }
      if(isc(b)&&tree(a)) return mapt(a,[&](Expr* x){ return constant(w,foldbin(op,w,x->k,b->k)); });
      if((op==UDIV||op==UREM)&&w>8){ // narrow
        u64 mx=std::max(a->hi,b->hi); unsigned nb=mx?64-__builtin_clzll(mx):1; if(nb<w&&b->lo>0) return zext(divop(op,extract(a,0,nb),extract(b,0,nb)),w);
      }
      if(b->nleaf>1&&b->nleaf<=8) return mapt(b,[&](Expr* x){ return divop(op,a,x); });
    }
    return raw(op,w,a,b);
  }
  // ---- bitwise
  static unsigned runs(u128 v,unsigned w){ unsigned r=0; bool p=false; for(unsigned i=0;i<w;i++){ bool b=(v>>i)&1; if(b!=p) r++; p=b; } return r; }
  // combine segment lists
  template<class Fn> Expr* segcombine(Expr* a,Expr* b,Fn f){
    std::vector<Expr*> x,y; segs(a,x); segs(b,y); std::vector<Expr*> out; size_t i=0,j=0; unsigned oi=0,oj=0;
    while(i<x.size()){ unsigned n=std::min(x[i]->w-oi,y[j]->w-oj); Expr* p=extract(x[i],oi,n),*q=extract(y[j],oj,n); out.push_back(f(p,q)); oi+=n;oj+=n; if(oi==x[i]->w){i++;oi=0;} if(oj==y[j]->w){j++;oj=0;} }
    return concat(out);
  }
  void splitconst(Expr* c,std::vector<Expr*>& v){ unsigned w=c->w,i=0; u128 x=cv(c); while(i<w){ unsigned j=i; bool b=(x>>i)&1; while(j<w&&(((x>>j)&1)==b)) j++; v.push_back(constant(j-i,b?~(u128)0:0)); i=j; } }
  Expr* withconst(Op op,Expr* a,Expr* c){ // a op const, by runs
    std::vector<Expr*> rs; splitconst(c,rs); std::vector<Expr*> out; unsigned s=0;
    for(auto r:rs){ bool one=r->k&1; Expr* x=nullptr; 
      if(op==AND) x=one?extract(a,s,r->w):r; else if(op==OR) x=one?r:extract(a,s,r->w); else { x=extract(a,s,r->w); if(one) x=isc(x)?constant(x->w,~cv(x)):raw(XOR,r->w,x,constant(r->w,~(u128)0)); }
      out.push_back(x); s+=r->w; }
    return concat(out);
  }
  Expr* band(Expr* a,Expr* b){
    unsigned w=a->w; if(a==b) return a; if(isc(a)) std::swap(a,b);
    if(isc(a)&&isc(b)) return constant(w,cv(a)&cv(b));
    if(isz(b)) return b; if(isones(b)) return a;
    if(w<=64){ if(isc(b)&&((~a->kz&maskw(w))&~b->k)==0) return a; if((~a->kz&~b->kz&maskw(w))==0) return constant(w,0); }
    if(w==1){
      if(isNotOf(a,b)) return F;
      if(a->op==AND&&(a->a==b||a->b==b)) return a; if(b->op==AND&&(b->a==a||b->b==a)) return b;
      if(a->op==OR&&(a->a==b||a->b==b)) return b; if(b->op==OR&&(b->a==a||b->b==a)) return a;
      if(a->op==AND&&(isNotOf(a->a,b)||isNotOf(a->b,b))) return F; if(b->op==AND&&(isNotOf(b->a,a)||isNotOf(b->b,a))) return F;
      // a & (!a | x) = a & x
      for(int s=0;s<2;s++){ if(b->op==OR){ if(isNotOf(b->a,a)) return band(a,b->b); if(isNotOf(b->b,a)) return band(a,b->a); } std::swap(a,b); }
      if(a->id>b->id) std::swap(a,b); return raw(AND,1,a,b);
    }
    if(isc(b)&&tree(a)) return mapt(a,[&](Expr* x){ return constant(w,cv(x)&cv(b)); });
    if(isc(b)){ unsigned r=runs(cv(b),w); if(r<=5||a->op==CONCAT||a->op==ZEXT||a->op==VAR||a->op==EXTRACT) return withconst(AND,a,b); }
    if(segmented(a)&&segmented(b)&&!isc(b)) return segcombine(a,b,[&](Expr* p,Expr* q){ return isz(p)||isz(q)?constant(p->w,0):band(p,q); });
    if(a->op==ZEXT||b->op==ZEXT){ if(b->op!=ZEXT) std::swap(a,b); // b zext
      unsigned n=b->a->w; return zext(band(extract(a,0,n),b->a),w); }
    if(a->op==SEXT&&a->a->w==1) return ite(a->a,b,constant(w,0)); if(b->op==SEXT&&b->a->w==1) return ite(b->a,a,constant(w,0));
    if(w<=64&&!isc(b)){ u64 pz=~a->kz&~b->kz&maskw(w); unsigned hb=64-__builtin_clzll(pz); if(hb<w) return zext(band(extract(a,0,hb),extract(b,0,hb)),w); }
    if(a->id>b->id&&!isc(b)) std::swap(a,b);
    return raw(AND,w,a,b);
  }
  Expr* bor(Expr* a,Expr* b){
    unsigned w=a->w; if(a==b) return a; if(isc(a)) std::swap(a,b);
    if(isc(a)&&isc(b)) return constant(w,cv(a)|cv(b));
    if(isz(b)) return a; if(isones(b)) return b;
    if(w<=64){ if(isc(b)&&(b->k&~a->ko)==0) return a; }
    if(w==1){
      if(isNotOf(a,b)) return T;
      if(a->op==OR&&(a->a==b||a->b==b)) return a; if(b->op==OR&&(b->a==a||b->b==a)) return b;
      if(a->op==AND&&(a->a==b||a->b==b)) return b; if(b->op==AND&&(b->a==a||b->b==a)) return a;
      if(a->op==OR&&(isNotOf(a->a,b)||isNotOf(a->b,b))) return T; if(b->op==OR&&(isNotOf(b->a,a)||isNotOf(b->b,a))) return T;
      // a | (!a & x) = a | x ;  (c&x)|(c&!x)=c
      for(int s=0;s<2;s++){ if(b->op==AND){ if(isNotOf(b->a,a)) return bor(a,b->b); if(isNotOf(b->b,a)) return bor(a,b->a); } std::swap(a,b); }
      if(a->op==AND&&b->op==AND){ Expr*A[2]={a->a,a->b},*B[2]={b->a,b->b}; for(int i=0;i<2;i++)for(int j=0;j<2;j++) if(A[i]==B[j]){ Expr*r1=A[1-i],*r2=B[1-j]; if(isNotOf(r1,r2)) return A[i]; } }
      if(a->id>b->id) std::swap(a,b); return raw(OR,1,a,b);
    }
    if(isc(b)&&tree(a)) return mapt(a,[&](Expr* x){ return constant(w,cv(x)|cv(b)); });
    if(isc(b)){ unsigned r=runs(cv(b),w); if(r<=5||a->op==CONCAT||a->op==ZEXT) return withconst(OR,a,b); }
    if(segmented(a)&&segmented(b)&&!isc(b)) return segcombine(a,b,[&](Expr* p,Expr* q){ return isz(p)?q:isz(q)?p:bor(p,q); });
    if(a->op==ZEXT||b->op==ZEXT||a->op==CONCAT||b->op==CONCAT){ return segcombine(a,b,[&](Expr* p,Expr* q){ return isz(p)?q:isz(q)?p:(segmented(p)||segmented(q))&&p->w<w?bor(p,q):raw2(OR,p,q); }); }
    return raw2(OR,a,b);
  }
  Expr* raw2(Op op,Expr* a,Expr* b){ if(a==b&&op!=XOR) return a; if(isc(a)&&isc(b)) return constant(a->w,foldbin(op,a->w,cv(a),cv(b))); if(isc(a)||(!isc(b)&&a->id>b->id)) std::swap(a,b); if(a->w==1) return op==AND?band(a,b):op==OR?bor(a,b):bxor(a,b); return raw(op,a->w,a,b); }
  Expr* bxor(Expr* a,Expr* b){
    unsigned w=a->w; if(a==b) return constant(w,0); if(isc(a)) std::swap(a,b);
    if(isc(a)&&isc(b)) return constant(w,cv(a)^cv(b));
    if(isz(b)) return a;
    if(w==1){ if(b==T) return lnot(a); if(a->op==XOR&&a->b==T) return lnot(bxor(a->a,b)); if(b->op==XOR&&b->b==T) return lnot(bxor(a,b->a));
      if(a->op==XOR&&(a->a==b||a->b==b)) return a->a==b?a->b:a->a; if(b->op==XOR&&(b->a==a||b->b==a)) return b->a==a?b->b:b->a;
      if(a->id>b->id) std::swap(a,b); return raw(XOR,1,a,b); }
    if(isc(b)&&a->op==XOR&&isc(a->b)) return bxor(a->a,constant(w,cv(a->b)^cv(b)));
    if(isc(b)&&tree(a)) return mapt(a,[&](Expr* x){ return constant(w,cv(x)^cv(b)); });
    if(isc(b)&&isones(b)&&w<=64&&a->op==SUM){ std::vector<Term> t{{a,~0ULL}}; return sum(w,t,~0ULL); }
    if(isc(b)){ unsigned r=runs(cv(b),w); if((!isones(b)&&r<=3)||a->op==CONCAT||a->op==ZEXT) return withconst(XOR,a,b); }
    if(segmented(a)&&segmented(b)&&!isc(b)) return segcombine(a,b,[&](Expr* p,Expr* q){ return isz(p)?q:isz(q)?p:bxor(p,q); });
    return raw2(XOR,a,b);
  }
  // ---- shifts (amount same width; amounts >= w never reach here unless masked by caller)
  Expr* shl(Expr* a,Expr* b){ unsigned w=a->w; if(isc(a)&&isc(b)) return constant(w,foldbin(SHL,w,cv(a),cv(b))); if(isz(a)||isz(b)) return a;
    if(isc(b)){ if(cv(b)>=w) return constant(w,0); unsigned s=b->k; if(a->op==SUM) return sum1(a,1ULL<<s,0); std::vector<Expr*> v{constant(s,0),extract(a,0,w-s)}; return concat(v); }
    if(b->nleaf>1&&b->nleaf<=64&&isc(a)) return mapt(b,[&](Expr* x){ return shl(a,x); });
    if(b->nleaf>1&&b->nleaf<=4) return mapt(b,[&](Expr* x){ return shl(a,x); });
    return raw(SHL,w,a,b); }
  Expr* lshr(Expr* a,Expr* b){ unsigned w=a->w; if(isc(a)&&isc(b)) return constant(w,foldbin(LSHR,w,cv(a),cv(b))); if(isz(a)||isz(b)) return a;
    if(isc(b)){ if(cv(b)>=w) return constant(w,0); unsigned s=b->k; if(w<=64&&a->hi>>s==0) return constant(w,0); return zext(extract(a,s,w-s),w); }
    if(b->nleaf>1&&b->nleaf<=64&&isc(a)) return mapt(b,[&](Expr* x){ return lshr(a,x); });
    if(b->nleaf>1&&b->nleaf<=4) return mapt(b,[&](Expr* x){ return lshr(a,x); });
    return raw(LSHR,w,a,b); }
  Expr* ashr(Expr* a,Expr* b){ unsigned w=a->w; if(isc(a)&&isc(b)) return constant(w,foldbin(ASHR,w,cv(a),cv(b))); if(isz(a)||isz(b)) return a;
    if(w<=64&&(a->kz>>(w-1)&1)) return lshr(a,b);
    if(isc(b)){ unsigned s=cv(b)>=w?w-1:(unsigned)b->k; return sext(extract(a,s,w-s),w); }
    return raw(ASHR,w,a,b); }
  // ---- comparisons
  Expr* eq(Expr* a,Expr* b){
    unsigned w=a->w; if(a==b) return T; if(isc(a)) std::swap(a,b);
    if(isc(a)&&isc(b)) return cv(a)==cv(b)?T:F;
    if(w<=64){ if(a->hi<b->lo||b->hi<a->lo) return F; if((a->kz&b->ko)||(a->ko&b->kz)) return F; }
    if(w==1){ if(b==T) return a; if(b==F) return lnot(a); return lnot(bxor(a,b)); }
    if(isc(b)&&tree(a)) return mapt(a,[&](Expr* x){ return cv(x)==cv(b)?T:F; });
    if(w<=64&&(a->op==SUM||b->op==SUM)){
      Expr* d=sub(a,b); if(isc(d)) return d->k==0?T:F;
      if(d->op!=SUM){ return eqz(d); }
      if(d->lo>0) return F;
      if(d->n==1){ // c*x + k == 0
        u64 c=d->t[0].c; if(c&1){ u64 inv=c; for(int i=0;i<6;i++) inv*=2-c*inv; u64 v=(0-d->k)*inv; return eq(d->t[0].e,constant(w,v)); }
        unsigned z=__builtin_ctzll(c); if(d->k&maskw(z)) return F;
        if(d->t[0].e->hi<=maskw(w-z)){ // narrow: (c>>z)*x + (k>>z) == 0 mod 2^(w-z), x fits
          return eq(sum1(extract(d->t[0].e,0,w-z),c>>z,d->k>>z),constant(w-z,0)); }
      }
      // normal form: sum == 0 with sign normalised
      if(d->n>=1&&sx(d->t[0].c,w)<0){ std::vector<Term> t{{d,~0ULL}}; d=sum(w,t,0); }
      return raw(EQ,1,d,constant(w,0));
    }
    if(isc(b)) { 
      if(a->op==ZEXT){ if(cv(b)>>a->a->w) return F; return eq(a->a,constant(a->a->w,cv(b))); }   // high part checked by known bits for w<=64
      if(a->op==SEXT){ Expr* n=constant(a->a->w,cv(b)); if(cv(sext(n,w))!=cv(b)) return F; return eq(a->a,n); }
      if(a->op==CONCAT){ Expr* r=T; unsigned s=0; for(u32 i=0;i<a->n;i++){ r=land(r,eq(a->p[i],constant(a->p[i]->w,cv(b)>>s))); s+=a->p[i]->w; if(r==F) return F; } return r; }
      if(a->op==XOR&&isc(a->b)) return eq(a->a,constant(w,cv(a->b)^cv(b)));
      if(a->op==ITE){ if(isc(a->b)&&cv(a->b)!=cv(b)) return land(lnot(a->a),eq(a->c,b)); if(isc(a->c)&&cv(a->c)!=cv(b)) return land(a->a,eq(a->b,b)); if(isc(a->b)) return lor(a->a,eq(a->c,b)); if(isc(a->c)) return lor(lnot(a->a),eq(a->b,b)); }
    } else {
      if(segmented(a)&&segmented(b)){ Expr* r=T; segcombine(a,b,[&](Expr* p,Expr* q){ if(r!=F) r=land(r,eq(p,q)); return p; }); return r; }
      if(a->op==ITE&&(a->b==b||a->c==b)) return a->b==b?lor(a->a,eq(a->c,b)):lor(lnot(a->a),eq(a->b,b));
      if(b->op==ITE&&(b->b==a||b->c==a)) return b->b==a?lor(b->a,eq(b->c,a)):lor(lnot(b->a),eq(b->b,a));
      if(a->op==ITE&&b->op==ITE&&a->a==b->a) return ite(a->a,eq(a->b,b->b),eq(a->c,b->c));
      if(w<=64){ unsigned nb=std::max(bw(a->hi),bw(b->hi)); if(nb<w) return eq(extract(a,0,nb),extract(b,0,nb)); }
      if(a->id>b->id) std::swap(a,b);
    }
    return raw(EQ,1,a,b);
  }
  Expr* eqz(Expr* d){ return eq(d,constant(d->w,0)); }
  static unsigned bw(u64 v){ return v?64-__builtin_clzll(v):1; }
  Expr* ult(Expr* a,Expr* b){
    unsigned w=a->w; if(a==b) return F; if(isc(a)&&isc(b)) return cv(a)<cv(b)?T:F; if(isz(b)) return F;
    if(w<=64){ if(a->hi<b->lo) return T; if(a->lo>=b->hi) return F; }
    if(isones(a)) return F;
    if(w==1) return land(lnot(a),b);
    if(isc(b)&&tree(a)) return mapt(a,[&](Expr* x){ return cv(x)<cv(b)?T:F; });
    if(isc(a)&&tree(b)) return mapt(b,[&](Expr* x){ return cv(a)<cv(x)?T:F; });
    if(tree(a)&&tree(b)&&a->nleaf*b->nleaf<=16) return mapt(a,[&](Expr* x){ return ult(x,b); });
    if(w<=64){ unsigned nb=std::max(bw(a->hi),bw(b->hi)); if(nb<w) return ult(extract(a,0,nb),extract(b,0,nb)); 
      if(isc(b)&&b->k==1) return eqz(a);
      if(isc(a)&&isz(a)) return lnot(eqz(b));
      // x + k < c without wrap-around
      if(isc(b)&&a->op==SUM&&a->k&&nowrap(a)){ if(b->k<=a->k) return F; std::vector<Term> ts(a->t,a->t+a->n); return ult(sum(w,ts,0),constant(w,b->k-a->k)); }
      if(isc(a)&&b->op==SUM&&b->k&&nowrap(b)){ if(a->k<b->k) return T; std::vector<Term> ts(b->t,b->t+b->n); return ult(constant(w,a->k-b->k),sum(w,ts,0)); }
      if(isc(b)&&(b->k&(b->k-1))==0&&b->k){ unsigned z=__builtin_ctzll(b->k); return eqz(extract(a,z,w-z)); }
    }
    return raw(ULT,1,a,b);
  }
  Expr* slt(Expr* a,Expr* b){
    unsigned w=a->w; if(a==b) return F; if(isc(a)&&isc(b)) return sx128(cv(a),w)<sx128(cv(b),w)?T:F;
    if(w<=64){ u64 sb=1ULL<<(w-1); bool an=a->kz&sb,bn=b->kz&sb,ap=a->ko&sb,bp=b->ko&sb; if((an&&bn)||(ap&&bp)) return ult(a,b); if(an&&bp) return F; if(ap&&bn) return T;
      if(isc(b)&&b->k==0) return extract(a,w-1,1);
      if(isc(a)&&a->k==maskw(w)) return lnot(extract(b,w-1,1)); }
    if(isc(b)&&tree(a)) return mapt(a,[&](Expr* x){ return sx128(cv(x),w)<sx128(cv(b),w)?T:F; });
    if(isc(a)&&tree(b)) return mapt(b,[&](Expr* x){ return sx128(cv(a),w)<sx128(cv(x),w)?T:F; });
    return raw(SLT,1,a,b);
  }
  // ---- ite
  Expr* ite(Expr* c,Expr* a,Expr* b){
    if(isc(c)) return c->k?a:b; if(a==b) return a;
    if(c->op==XOR&&c->b==T){ c=c->a; std::swap(a,b); }
    unsigned w=a->w;
    if(a->op==ITE){ if(a->a==c) a=a->b; else if(isNotOf(a->a,c)) a=a->c; }
    if(b->op==ITE){ if(b->a==c) b=b->c; else if(isNotOf(b->a,c)) b=b->b; }
    if(a==b) return a;
    if(w==1){ if(a==T) return lor(c,b); if(a==F) return land(lnot(c),b); if(b==T) return lor(lnot(c),a); if(b==F) return land(c,a); if(a==c) return lor(c,b); if(b==c) return land(c,a);
      if(isNotOf(a,b)) return lnot(bxor(c,a));
      return raw(ITE,1,c,a,b); }
    if(w<=64){
      if(isc(a)&&isc(b)){ if(((a->k-b->k)&maskw(w))==1){ return sum1(zextraw(c,w),1,b->k); } if(((b->k-a->k)&maskw(w))==1){ return sum1(zext(lnot(c),w),1,a->k);} 
        if(isz(b)&&isones(a)) return sext(c,w);
        if(isz(b)&&(a->k&(a->k-1))==0) return shl(zextraw(c,w),constant(w,__builtin_ctzll(a->k))); 
        if(isz(a)&&(b->k&(b->k-1))==0) return shl(zext(lnot(c),w),constant(w,__builtin_ctzll(b->k))); }
      else if(a->op==SUM||b->op==SUM||( (isc(a)||isc(b)) && (a->op==ZEXT||b->op==ZEXT) )) {
        Expr* d=sub(a,b); if(isc(d)&&(d->k==1||d->k==maskw(w))){ std::vector<Term> t{{b,1},{zextraw(c,w),d->k}}; return sum(w,t,0); } }
      else if(a->op!=ITE&&b->op!=ITE&&!segmented(a)&&!segmented(b)){ }
    }
    // ite(c, ite(d,x,y), y) = ite(c&d, x, y)
    if(a->op==ITE&&a->c==b) return ite(land(c,a->a),a->b,b);
    if(a->op==ITE&&a->b==b) return ite(land(c,lnot(a->a)),a->c,b);
    if(b->op==ITE&&b->b==a) return ite(lor(c,b->a),a,b->c);
    if(b->op==ITE&&b->c==a) return ite(lor(c,lnot(b->a)),a,b->b);
    // segment-wise
    if(w>8&&(a->op==CONCAT||b->op==CONCAT||(a->op==ZEXT&&b->op==ZEXT)||(a->op==ZEXT&&isc(b))||(b->op==ZEXT&&isc(a)))){
      std::vector<Expr*> x,y; segs(a,x); segs(b,y);
      bool useful=(a->op==CONCAT||a->op==ZEXT||isc(a))&&(b->op==CONCAT||b->op==ZEXT||isc(b));
      if(!useful){ useful=false; Expr* s=a->op==CONCAT?a:b; Expr* o=s==a?b:a; // e.g. word vs word with one bit replaced
        unsigned pos=0; for(u32 i=0;i<s->n;i++){ if(extract(o,pos,s->p[i]->w)==s->p[i]){useful=true;break;} pos+=s->p[i]->w; } }
      if(useful&&x.size()+y.size()<=140) { bool small=true; 
        std::vector<Expr*> parts; bool shared=false; segcombine(a,b,[&](Expr* p,Expr* q){ if(p==q) shared=true; return p; });
        if(shared&&small) return segcombine(a,b,[&](Expr* p,Expr* q){ return p==q?p: (p->w==w?raw(ITE,w,c,p,q):ite(c,p,q)); }); }
    }
    return raw(ITE,w,c,a,b);
  }
  Expr* bin(Op op,Expr* a,Expr* b){
    switch(op){ case MUL: return mul(a,b); case UDIV: case SDIV: case UREM: case SREM: return divop(op,a,b); case AND: return band(a,b); case OR: return bor(a,b); case XOR: return bxor(a,b);
      case SHL: return shl(a,b); case LSHR: return lshr(a,b); case ASHR: return ashr(a,b); case EQ: return eq(a,b); case ULT: return ult(a,b); case SLT: return slt(a,b); default: abort(); }
  }
  Expr* popcount(Expr* x,unsigned w){ // result width w
    std::vector<Term> t; u64 k=0;
    for(unsigned i=0;i<x->w;i++){ Expr* b=extract(x,i,1); if(isc(b)) k+=b->k; else t.push_back({zext(b,w),1}); }
    return sum(w,t,k);
  }
  // evaluation under an assignment to variables (indexed by variable number; missing = lo)
  std::vector<u32> evep; std::vector<u128> evv; u32 evcur=0;
  void evbegin(){ evcur++; }
  u128 eval(Expr* e,const std::vector<u64>& m){
    if(e->op==CONST) return cv(e);
    if(e->op==VAR) return e->k<m.size()?m[e->k]:vars[e->k].lo;
    if(evep.size()<all.size()){ evep.resize(all.size()+1024,0); evv.resize(all.size()+1024); }
    if(evep[e->id]==evcur) return evv[e->id];
    unsigned w=e->w; u128 r=0;
    switch(e->op){
      case SUM: { u64 s=e->k; for(u32 i=0;i<e->n;i++) s+=(u64)eval(e->t[i].e,m)*e->t[i].c; r=s&maskw(w); break; }
      case CONCAT: { unsigned s=0; for(u32 i=0;i<e->n;i++){ r|=eval(e->p[i],m)<<s; s+=e->p[i]->w; } break; }
      case EXTRACT: r=(eval(e->a,m)>>e->k)&mask128(w); break;
      case ZEXT: r=eval(e->a,m); break;
      case SEXT: r=(u128)sx128(eval(e->a,m),e->a->w)&mask128(w); break;
      case ITE: r=eval(e->a,m)?eval(e->b,m):eval(e->c,m); break;
      default: r=foldbin(e->op,e->a->w,eval(e->a,m),eval(e->b,m)); break;
    }
    evep[e->id]=evcur; evv[e->id]=r; return r;
  }
  std::string str(Expr* e,int depth=4){
    char buf[64]; if(e->op==CONST){ snprintf(buf,64,"%llu:%u",(unsigned long long)e->k,e->w); return buf; }
    if(e->op==VAR) return vars[e->k].name; if(depth==0) return "..";
    std::string s="("; s+=opname(e->op); if(e->op==EXTRACT){ snprintf(buf,64,"[%u+%u]",(unsigned)e->k,e->w); s+=buf; } if(e->op==ZEXT||e->op==SEXT){ snprintf(buf,64,"%u",e->w); s+=buf; }
    for(Expr* x:{e->a,e->b,e->c}) if(x) s+=" "+str(x,depth-1);
    for(u32 i=0;i<e->n&&i<12;i++){ if(e->t){ snprintf(buf,64," %lld*",(long long)sx(e->t[i].c,e->w)); s+=buf+str(e->t[i].e,depth-1);} else s+=" "+str(e->p[i],depth-1); }
    if(e->op==SUM){ snprintf(buf,64," +%lld",(long long)sx(e->k,e->w)); s+=buf; }
    return s+")";
  }
};
