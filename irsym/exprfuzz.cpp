#include "expr.hpp"
#include <random>
struct N{Expr*e;u128 v;};
int main(int ac,char**av){
  u64 seed=ac>1?atoll(av[1]):1; int rounds=ac>2?atoi(av[2]):2000; long checks=0;
  for(int r=0;r<rounds;r++){
    std::mt19937_64 g(seed*1000003+r); ExprCtx C; 
    std::vector<N> pool; std::vector<u64> m;
    int nv=1+g()%5; unsigned WS[]={1,2,3,8,16,32,64,64,64,7,128};
    for(int i=0;i<nv;i++){ unsigned w=WS[g()%8]; u64 lo=0,hi=maskw(w); if(g()%3==0){ lo=g()&hi; u64 x=g()&hi; if(g()%2){lo&=15;x&=31;} if(x<lo) std::swap(x,lo); hi=x; }
      u64 v=lo+ (hi-lo==~0ULL?g():g()%(hi-lo+1)); m.push_back(v); pool.push_back({C.var("v"+std::to_string(i),w,lo,hi),v}); }
    auto pick=[&](){ return pool[ g()%3? g()%pool.size(): pool.size()-1-g()%std::min<size_t>(pool.size(),4)]; };
    auto cst=[&](unsigned w){ u128 v=g()%4==0?g()%5: g()%3==0?((u128)1<<(g()%w)): g()%2?((u128)g()<<64|g()): ~(u128)0>>(g()%128); v&=mask128(w); return N{C.constant(w,v),v}; };
    for(int s=0;s<40;s++){
      N a=pick(); N x; unsigned w=a.e->w;
      auto same=[&](){ if(g()%4==0) return cst(w); std::vector<N> c; for(auto&p:pool) if(p.e->w==w) c.push_back(p); return g()%5==0?cst(w):c[g()%c.size()]; };
      int k=g()%25;
      if(k<11||k==20||k==21){ static Op ops[]={SUM,MUL,UDIV,SDIV,UREM,SREM,AND,OR,XOR,EQ,ULT,AND,OR}; Op o; 
        if(k==20) o=SUM; else if(k==21) o=SLT; else o=ops[k]; N b=same(); if(g()%2) std::swap(a,b);
        if(o==SUM){ if(g()%2){ x={C.add(a.e,b.e),(a.v+b.v)&mask128(w)}; } else x={C.sub(a.e,b.e),(a.v-b.v)&mask128(w)}; }
        else { if((o==MUL||o==UDIV||o==SDIV||o==UREM||o==SREM)&&w>64) continue; if((o==UDIV||o==SDIV||o==UREM||o==SREM)&&b.v==0) continue; 
          x={C.bin(o,a.e,b.e),ExprCtx::foldbin(o,w,a.v,b.v)}; } }
      else if(k<14){ N b=g()%2?same():N{C.constant(w,g()%w),0}; if(C.isc(b.e)) b.v=ExprCtx::cv(b.e); 
        if(w>2&&!C.isc(b.e)){ u128 mm=w>=64?63:w>=32?31:w>=16?15:w>=8?7:w>=4?3:1; b={C.band(b.e,C.constant(w,mm)),b.v&mm}; } 
        if(b.v>=w) continue; if(w<=2&&!C.isc(b.e)) continue;
        Op o=k==11?SHL:k==12?LSHR:ASHR; x={C.bin(o,a.e,b.e),ExprCtx::foldbin(o,w,a.v,b.v)}; }
      else if(k==14){ unsigned nw=w+1+g()%(128-w+1); if(nw>128) nw=128; if(g()%2&&w<64) nw=64; if(nw<=w) continue; x= g()%2? N{C.zext(a.e,nw),a.v}:N{C.sext(a.e,nw),(u128)sx128(a.v,w)&mask128(nw)}; }
      else if(k==15){ unsigned lo=g()%w,nw=1+g()%(w-lo); x={C.extract(a.e,lo,nw),(a.v>>lo)&mask128(nw)}; }
      else if(k==16){ N b=pick(); if(w+b.e->w>128) continue; x={C.concat({a.e,b.e}),a.v|(b.v<<w)}; }
      else if(k>=22){ if(w<16||w>64) continue; static u64 MS[]={0x5555555555555555ULL,0x3333333333333333ULL,0x0f0f0f0f0f0f0f0fULL,0x00ff00ff00ff00ffULL,0x0101010101010101ULL,0x8080808080808080ULL,0x1111111111111111ULL,0x00010001000100ffULL}; u64 q=MS[g()%8]&maskw(w); auto A=[&](u64 v){ return C.constant(w,v); }; u64 av=a.v; Expr* e=a.e; u64 mw=maskw(w); int sh[]={1,2,4,8,7,3}; int z=sh[g()%6];
        if(k==22){ int t=g()%4; if(t==0) x={C.sub(e,C.band(C.lshr(e,A(z)),A(q))),(av-((av>>z)&q))&mw}; else if(t==1) x={C.add(C.band(e,A(q)),C.band(C.lshr(e,A(z)),A(q))),((av&q)+((av>>z)&q))&mw}; else if(t==2) x={C.add(e,C.lshr(e,A(z))),(av+(av>>z))&mw}; else x={C.band(C.add(e,C.lshr(e,A(z))),A(q)),((av+(av>>z))&q)&mw}; }
        else if(k==23) x={C.mul(e,A(q)),(av*q)&mw}; else { u64 r2=g()%3?g():q*(1+g()%128); r2&=mw; x={C.add(e,A(r2)),(av+r2)&mw}; if(g()%2){ Expr* t=C.mul(e,A(q)); x={C.add(t,A(r2)),(av*q+r2)&mw}; } } }
      else if(k<19){ N b=same(); std::vector<N> c; for(auto&p:pool) if(p.e->w==1) c.push_back(p); if(c.empty()) continue; N q=c[g()%c.size()]; x={C.ite(q.e,a.e,b.e),q.v?a.v:b.v}; }
      else { if(w>64) continue; unsigned p=0; for(u128 t=a.v;t;t&=t-1) p++; x={C.popcount(a.e,32),p}; }
      if(x.e->w>128) continue;
      pool.push_back(x); C.evbegin(); u128 ev=C.eval(x.e,m); checks++;
      bool bad=ev!=x.v; if(x.e->w<=64){ u64 v=x.v; if(v<x.e->lo||v>x.e->hi||(v&x.e->kz)||(~v&x.e->ko)) bad=true; }
      if(bad){ printf("MISMATCH seed %llu round %d step %d op %d w %u: got %llx expect %llx\n  a=%s (%llx)\n x=%s lo %llx hi %llx kz %llx ko %llx\n",(unsigned long long)seed,r,s,k,w,(unsigned long long)ev,(unsigned long long)x.v,C.str(a.e).c_str(),(unsigned long long)a.v,C.str(x.e).c_str(),(unsigned long long)x.e->lo,(unsigned long long)x.e->hi,(unsigned long long)x.e->kz,(unsigned long long)x.e->ko); return 1; }
    }
  }
  printf("ok %ld checks\n",checks);
}
