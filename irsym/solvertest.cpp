// random differential test: bit-blaster+CDCL versus Z3 on random formulas
#include "solver.hpp"
#include <random>
int main(int ac,char**av){ u64 seed=ac>1?atoll(av[1]):1; int rounds=ac>2?atoi(av[2]):200; int cnt[3]={0,0,0};
  for(int r=0;r<rounds;r++){ std::mt19937_64 g(seed*7919+r); ExprCtx C; Solver S(C); std::vector<Expr*> pool,bools; unsigned WS[]={1,4,8,16,33,64,8,5};
    for(int i=0;i<4;i++){ unsigned w=WS[g()%8]; u64 lo=0,hi=maskw(w); if(g()%2){ lo=g()&hi; u64 x=g()&hi; if(x<lo) std::swap(x,lo); hi=x; } pool.push_back(C.var("v"+std::to_string(i),w,lo,hi)); }
    for(int q=0;q<12;q++){ for(int s=0;s<8;s++){ Expr* a=pool[g()%pool.size()]; unsigned w=a->w; std::vector<Expr*> c; for(auto p:pool) if(p->w==w) c.push_back(p); Expr* b=g()%3?c[g()%c.size()]:C.constant(w,g()%3?g():g()%9); Expr* x;
        int k=g()%14; static Op ops[]={SUM,MUL,UDIV,SDIV,UREM,SREM,AND,OR,XOR,EQ,ULT,SLT};
        if(k==0) x=C.sub(a,b); else if(k<12){ if(k>=1&&k<=5&&w>16) continue; x=C.bin(ops[k],a,b);} else if(k==12){ Expr* sh=C.band(b,C.constant(w,w>=64?63:w>=33?31:w>=16?15:w>=8?7:w>=4?3:0)); Op o=g()%3==0?SHL:g()%2?LSHR:ASHR; x=C.bin(o,a,sh);} else { if(bools.empty()) continue; x=C.ite(bools[g()%bools.size()],a,b);} 
        if(g()%4==0&&x->w>3) x=C.extract(x,g()%3,1+g()%(x->w-2)); if(g()%5==0&&x->w<60) x=C.zext(x,x->w+1+g()%(64-x->w-1));
        pool.push_back(x); if(x->w==1) bools.push_back(x); }
      std::vector<Expr*> cj; Expr* a=pool[pool.size()-1-g()%4]; cj.push_back(g()%3==0?C.eq(a,C.constant(a->w,g())):g()%2?C.ult(a,C.constant(a->w,g())):C.lnot(C.eq(a,C.constant(a->w,g()%4)))); if(!bools.empty()){ Expr* b=bools[g()%bools.size()]; cj.push_back(g()%2?b:C.lnot(b)); }
      std::vector<u64> m; int x=S.solve(cj,m,10); int y=S.z3check(cj,10); cnt[x+1]++;
      if(x>=0&&y>=0&&x!=y){ printf("MISMATCH seed %llu round %d q %d: ours %d z3 %d\n",(unsigned long long)seed,r,q,x,y); for(auto e:cj) printf(" %s\n",C.str(e,6).c_str()); return 1; }
      if(x==1){ C.evbegin(); for(auto e:cj) if(!C.eval(e,m)){ printf("BAD MODEL seed %llu round %d q %d %s\n",(unsigned long long)seed,r,q,C.str(e,6).c_str()); return 1; } }
    } }
  printf("ok unknown %d unsat %d sat %d\n",cnt[0],cnt[1],cnt[2]); }
