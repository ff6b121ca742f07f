// ---------------------------------------------------------------- path conditions and queries
std::string where(State* s); std::map<std::string,std::pair<u64,double>> qprof;
typedef std::shared_ptr<std::vector<u64>> MP;
std::vector<MP> recent; 
std::unordered_map<u64,std::pair<int,MP>> qcache;
static inline void mfix(std::vector<u64>& m){ while(m.size()<C.vars.size()) m.push_back(C.vars[m.size()].lo); }
u64 evalm(State* s,Expr* e){ mfix(*s->model); C.evbegin(); return (u64)C.eval(e,*s->model); }
void slice(State* s,const std::vector<Expr*>& goal,std::vector<Expr*>& out,std::vector<char>& inv){
  inv.assign(C.vars.size(),0); std::vector<u32> q; for(auto g:goal) for(u32 v:g->vs->v) if(!inv[v]) inv[v]=1;
  std::vector<char> used(s->pc.size(),0); bool ch=true; out=goal;
  while(ch){ ch=false; for(size_t i=0;i<s->pc.size();i++) if(!used[i]){ bool hit=false; for(u32 v:s->pc[i]->vs->v) if(inv[v]){ hit=true; break; } if(hit){ used[i]=1; ch=true; out.push_back(s->pc[i]); for(u32 v:s->pc[i]->vs->v) inv[v]=1; } } }
}
void timecheck(){ { struct rusage ru; getrusage(RUSAGE_SELF,&ru); if(ru.ru_maxrss>maxrss_kb) throw Inconclusive{"memory budget exhausted"}; } if(S->now()>deadline) throw Inconclusive{"time budget exhausted"}; if(nstates>maxstates) throw Inconclusive{"state budget exhausted"}; }
// is pc && goal satisfiable?  1/0/-1 ; model returned on 1
void domset(Dom& d,u32 v,u64 x){ if(d.kn.size()<=v) d.kn.resize(v+1,0); if(d.val.size()<C.vars.size()) d.val.resize(C.vars.size(),0); if(!d.kn[v]){ d.kn[v]=1; d.val[v]=x; d.nk++; d.cov.clear(); d.cand.erase(v); } }
Dom& domw(State* s){ if(!s->dom) s->dom=std::make_shared<Dom>(); else if(s->dom.use_count()>1){ auto d=std::make_shared<Dom>(); d->kn=s->dom->kn; d->val=s->dom->val; d->nk=s->dom->nk; d->cand=s->dom->cand; d->cov=s->dom->cov; s->dom=d; } return *s->dom; }
u64 ndomq=0; std::vector<std::vector<Expr*>> donepc; // path conditions of all ended paths (finished, or left by an assumption)
int sat(State* s,std::vector<Expr*> goal,MP& m,double limit=-1,bool feasq=false){
  for(auto&g:goal) if(g==C.F) return 0;
  goal.erase(std::remove(goal.begin(),goal.end(),C.T),goal.end());
  if(goal.empty()){ m=s->model; return 1; }
  mfix(*s->model); C.evbegin(); bool all=true; for(auto g:goal) if(!C.eval(g,*s->model)){ all=false; break; } if(all){ m=s->model; S->modelhits++; return 1; }
  std::vector<Expr*> q; std::vector<char> inv; slice(s,goal,q,inv);
  std::sort(q.begin(),q.end(),[](Expr*a,Expr*b){ return a->id<b->id; }); q.erase(std::unique(q.begin(),q.end()),q.end());
  u64 h=q.size(); for(auto e:q) h=ExprCtx::mix(h,e->id);
  auto combine=[&](std::vector<u64>& src){ auto r=std::make_shared<std::vector<u64>>(*s->model); mfix(*r); mfix(src); for(size_t i=0;i<r->size()&&i<inv.size();i++) if(inv[i]) (*r)[i]=src[i]; return r; };
  auto it=qcache.find(h); if(it!=qcache.end()){ S->cachehits++; if(it->second.first==0) return 0; m=combine(*it->second.second); return 1; }
  for(auto&r:recent){ mfix(*r); C.evbegin(); bool ok=true; for(auto e:q) if(!C.eval(e,*r)){ ok=false; break; } if(ok){ S->modelhits++; qcache[h]={1,r}; m=combine(*r); return 1; } }
  if(feasq){ std::vector<u32> un; u64 prod=1; for(size_t v=0;v<inv.size()&&prod<=256;v++) if(inv[v]&&!(s->dom&&v<s->dom->kn.size()&&s->dom->kn[v])){ un.push_back(v); u64 k=1<<20; auto& vi=C.vars[v]; if(s->dom){ auto it=s->dom->cand.find(v); if(it!=s->dom->cand.end()) k=it->second.size(); } if(k==1<<20&&vi.hi-vi.lo<256) k=vi.hi-vi.lo+1; prod*=k; }
    if(prod<=256){ Dom& d=domw(s); if(d.val.size()<C.vars.size()) d.val.resize(C.vars.size(),0); std::vector<std::vector<u64>> L; for(u32 v:un){ auto it=d.cand.find(v); if(it!=d.cand.end()) L.push_back(it->second); else { std::vector<u64> l; for(u64 x=C.vars[v].lo;;x++){ l.push_back(x); if(x==C.vars[v].hi) break; } L.push_back(l); } }
      ndomq++; std::vector<size_t> ix(un.size(),0);
      while(true){ for(size_t i=0;i<un.size();i++) d.val[un[i]]=L[i][ix[i]]; C.evbegin(); bool t=true; for(auto e:q) if(!C.eval(e,d.val)){ t=false; break; } if(t){ auto r=std::make_shared<std::vector<u64>>(d.val); mfix(*r); m=combine(*r); qcache[h]={1,r}; return 1; } size_t i=0; while(i<un.size()&&++ix[i]==L[i].size()) ix[i++]=0; if(i==un.size()) break; }
      qcache[h]={0,nullptr}; return 0; } }
  double tq0=S->now(); struct Prof{ double t0; State*s; ~Prof(){ if(verbose){ auto& p=qprof[where(s).substr(0,220)]; p.first++; p.second+=S->now()-t0; } } } prof{tq0,s};
  auto r=std::make_shared<std::vector<u64>>(); double lim=limit<0?qlimit:limit; lim=std::min(lim,std::max(0.1,deadline-S->now()));
  static bool tq=getenv("TRACEQ"); if(tq){ fprintf(stderr,"query steps=%llu n=%zu %s\n",(unsigned long long)nsteps,q.size(),where(s).substr(0,200).c_str()); if(getenv("SHOWQ")) for(auto e:q) fprintf(stderr,"    %s\n",C.str(e,6).substr(0,1500).c_str()); }
  int x=S->solve(q,*r,lim); if(tq) fprintf(stderr,"   -> %d %.3fs\n",x,S->now()-tq0);
  if(x<0){ if(verbose){ fprintf(stderr,"undecided query\n"); for(auto e:q) fprintf(stderr,"   %s\n",C.str(e,getenv("SD")?atoi(getenv("SD")):5).substr(0,getenv("SD")?6000:700).c_str()); } return -1; }
  if(x==1){ mfix(*r); C.evbegin(); for(auto e:q) if(!C.eval(e,*r)) eerr("solver model does not satisfy the query"); recent.insert(recent.begin(),r); if(recent.size()>12) recent.pop_back(); m=combine(*r); }
  qcache[h]={x,r}; return x;
}

bool feas(State* s,std::vector<Expr*> g,MP& m){ int r=sat(s,g,m,-1,true); if(r<0) throw Inconclusive{"path feasibility query undecided: "+where(s)}; return r==1; }
Expr* andall(const std::vector<Expr*>& v,size_t from){ Expr* r=C.T; for(size_t i=from;i<v.size();i++) r=C.land(r,v[i]); return r; }
std::string where(State* s){ std::string o; for(int i=(int)s->fr.size()-1;i>=0&&i>=(int)s->fr.size()-8;i--){ Frame* f=s->fr[i]; o+=llvm::demangle(f->f->name).substr(0,160); if(f->ip<(int)f->f->code.size()){ auto& I=f->f->code[f->ip]; if(I.line){ o+=" @"+(I.src<srcfile.size()?srcfile[I.src]:"")+":"+std::to_string(I.line); } } o+=" <- "; } return o; }
[[noreturn]] void violate(State* s,const std::string& kind,const std::string& msg,MP m){ std::vector<u64> mm=*m; mfix(mm); throw Violation{kind,msg+" at "+where(s),mm,s}; }
void domadd(State* s,Expr* c0){
  std::vector<Expr*> wl{c0};
  while(!wl.empty()){ Expr* c=wl.back(); wl.pop_back();
    std::vector<u32> un; for(u32 v:c->vs->v) if(!s->dom||v>=s->dom->kn.size()||!s->dom->kn[v]){ un.push_back(v); if(un.size()>8) break; }
    if(un.empty()||un.size()>8) continue; std::vector<u32> fixed;
    if(un.size()==1&&c->op==EQ&&((c->a->op==VAR&&c->b->op==CONST)||(c->b->op==VAR&&c->a->op==CONST))){ u64 x=c->a->op==CONST?c->a->k:c->b->k; domset(domw(s),un[0],x); fixed.push_back(un[0]); }
    else { u64 prod=1; for(u32 v:un){ u64 k=256+1; if(s->dom){ auto it=s->dom->cand.find(v); if(it!=s->dom->cand.end()) k=it->second.size(); } if(k==257){ auto& vi=C.vars[v]; k=vi.hi-vi.lo<256?vi.hi-vi.lo+1:1<<20; } prod*=k; if(prod>256) break; }
      if(prod>256) continue;
      Dom& d=domw(s); if(d.val.size()<C.vars.size()) d.val.resize(C.vars.size(),0); std::vector<std::vector<u64>> L,R; for(u32 v:un){ auto it=d.cand.find(v); if(it!=d.cand.end()) L.push_back(it->second); else { std::vector<u64> l; for(u64 x=C.vars[v].lo;;x++){ l.push_back(x); if(x==C.vars[v].hi) break; } L.push_back(l); } R.push_back({}); }
      std::vector<size_t> ix(un.size(),0); std::vector<std::vector<char>> keep; for(auto&l:L) keep.push_back(std::vector<char>(l.size(),0)); bool any=false;
      while(true){ for(size_t i=0;i<un.size();i++) d.val[un[i]]=L[i][ix[i]]; C.evbegin(); if(C.eval(c,d.val)){ any=true; for(size_t i=0;i<un.size();i++) keep[i][ix[i]]=1; } size_t i=0; while(i<un.size()&&++ix[i]==L[i].size()) ix[i++]=0; if(i==un.size()) break; }
      if(!any) return;
      for(size_t i=0;i<un.size();i++){ std::vector<u64> r; for(size_t k=0;k<L[i].size();k++) if(keep[i][k]) r.push_back(L[i][k]); if(r.size()==1){ domset(d,un[i],r[0]); fixed.push_back(un[i]); } else d.cand[un[i]]=r; } }
    for(u32 v:fixed) for(auto e:s->pc) if(e!=c) for(u32 x:e->vs->v) if(x==v){ wl.push_back(e); break; }
  } }
void dommerge(State* A,State* B){ if(!A->dom) return; if(!B->dom){ A->dom=nullptr; return; } if(A->dom==B->dom) return; Dom &a=*A->dom,&b=*B->dom; auto d=std::make_shared<Dom>();
  auto get=[&](Dom& x,u32 v,std::vector<u64>& l){ if(v<x.kn.size()&&x.kn[v]){ l={x.val[v]}; return true; } auto it=x.cand.find(v); if(it==x.cand.end()) return false; l=it->second; return true; };
  for(u32 v=0;v<C.vars.size();v++){ std::vector<u64> l,m; if(!get(a,v,l)||!get(b,v,m)) continue; l.insert(l.end(),m.begin(),m.end()); std::sort(l.begin(),l.end()); l.erase(std::unique(l.begin(),l.end()),l.end()); if(l.size()==1) domset(*d,v,l[0]); else if(l.size()<=256) d->cand[v]=l; }
  A->dom=d; }
void addpc(State* s,Expr* c){ if(c==C.T) return; if(c->op==AND&&c->w==1){ addpc(s,c->a); addpc(s,c->b); return; } for(auto e:s->pc) if(e==c) return; s->pc.push_back(c); domadd(s,c); }

// ---------------------------------------------------------------- memory access
Expr* cellx(Obj* o,u64 cell){ Page* p=o->pg[cell>>7]; if(!p) return C.constant(64,fillword(o)); if(p->sym&&p->sym[cell&127]) return p->sym[cell&127]; return C.constant(64,p->d[cell&127]); }
static inline const char* objn(u64 id){ auto it=oname.find(id); return it==oname.end()?"":it->second.c_str(); }
std::set<u64> privids; // objects every thread has for itself
enum { GUARD=1<<16 }; // a static initialisation guard or an atomic access: ordered with every other thread
static inline bool shw(State* s,u64 id){ return __builtin_expect(s->frz!=0,0)&&id<s->frz&&!s->frzlock&&!privids.count(id); }
static inline void shlw(State* s,u64 a,unsigned n){ if(__builtin_expect(s->frzr,0)&&oid(a)<s->frz&&s->frzlock>0&&s->frzlock<GUARD&&!privids.count(oid(a))) for(u64 k=a&~7ULL;k<a+n;k+=8) s->lw->insert(k); }
static inline void shlr(State* s,u64 a,unsigned n){ if(__builtin_expect(s->frzr,0)&&oid(a)<s->frz&&!s->frzlock&&!privids.count(oid(a))) for(u64 k=a&~7ULL;k<a+n;k+=8) s->lr->insert(k); }
std::string checkAddr(State* s,u64 a,unsigned n,bool wr){
  char buf[200]; if(oid(a)==0) return "null pointer access"; Obj* o=s->mem.get(oid(a)); if(!o){ snprintf(buf,200,"wild pointer %llx",(unsigned long long)a); return buf; } if(o->freed) return "use after free"; if(o->kind==O_FUNC) return "access to function";
  if(ooff(a)+n>o->size){ snprintf(buf,200,"out-of-bounds %s: offset %llu size %u object size %llu %s",wr?"write":"read",(unsigned long long)ooff(a),n,(unsigned long long)o->size,objn(oid(a))); return buf; } if(wr&&o->ro) return "write to constant"; if(wr&&shw(s,oid(a))) return std::string("unsynchronised write to memory shared with other threads ")+objn(oid(a)); return ""; }
V loadC(State* s,u64 a,unsigned w){
  unsigned n=(w+7)/8; Obj* o=s->mem.get(oid(a)); u64 off=ooff(a); shlr(s,a,n);
  if(__builtin_expect(!o||o->freed||off+n>o->size||o->kind==O_FUNC||oid(a)==0,0)) violate(s,"memory",checkAddr(s,a,n,false),s->model);
  u64 c=off>>3; unsigned sh=(off&7)*8;
  if(__builtin_expect(sh/8+n<=8,1)){ Page* p=o->pg[c>>7]; if(!p) return vc((fillword(o)>>sh)&maskw(w)); if(p->sym&&p->sym[c&127]) return vmk(C.extract(p->sym[c&127],sh,w)); return vc((p->d[c&127]>>sh)&maskw(w)); }
  std::vector<Expr*> parts; unsigned bits=n*8,got=0; bool conc=true; u128 val=0;
  while(got<bits){ unsigned b=(off&7)*8,take=std::min(64-b,bits-got); Expr* x=C.extract(cellx(o,off>>3),b,take); if(x->op!=CONST) conc=false; else val|=(u128)x->k<<got; parts.push_back(x); got+=take; off+=take/8; }
  if(conc) return vcw(val,w);
  return vmk(C.extract(C.concat(parts),0,w));
}
void setcell(Obj* o,u64 c,Expr* e){ Page* p=Mem::pagew(o,c<<3); if(e->op==CONST){ p->d[c&127]=e->k; if(p->sym) p->sym[c&127]=nullptr; } else { if(!p->sym) p->sym=(Expr**)calloc(PC,sizeof(Expr*)); p->sym[c&127]=e; } }
void storeC(State* s,u64 a,unsigned w,const V& v){
  unsigned n=(w+7)/8; Obj* o=s->mem.getw(oid(a)); u64 off=ooff(a); shlw(s,a,n);
  if(__builtin_expect(!o||o->freed||off+n>o->size||o->ro||o->kind==O_FUNC||oid(a)==0,0)||shw(s,oid(a))) violate(s,"memory",checkAddr(s,a,n,true),s->model);
  u64 c=off>>3; unsigned sh=(off&7)*8;
  if(__builtin_expect(!v.e&&sh/8+n<=8,1)){ Page* p=Mem::pagew(o,off); if(p->sym&&p->sym[c&127]){ if(n==8){ p->sym[c&127]=nullptr; p->d[c&127]=v.lo; return; } goto slow; } u64 m=maskw(n*8)<<sh; p->d[c&127]=(p->d[c&127]&~m)|((v.lo<<sh)&m); return; }
  slow: { Expr* x=C.zext(X(v,w),n*8); unsigned bits=n*8,done=0; while(done<bits){ unsigned b=(off&7)*8,take=std::min(64-b,bits-done); Expr* old=cellx(o,off>>3); std::vector<Expr*> ps; if(b) ps.push_back(C.extract(old,0,b)); ps.push_back(C.extract(x,done,take)); if(b+take<64) ps.push_back(C.extract(old,b+take,64-b-take)); setcell(o,off>>3,C.concat(ps)); done+=take; off+=take/8; } }
}
struct Res { u64 id; Expr* off; Expr* cond; };
bool splitAddr(Expr* A,Expr*& c,Expr*& t,Expr*& f){
  if((A->lo>>OFFB)==(A->hi>>OFFB)) return false;
  if(A->op==ITE){ c=A->a; t=A->b; f=A->c; return true; }
  if(A->op==SUM) for(u32 i=0;i<A->n;i++){ Expr* x=A->t[i].e; if(x->op==ITE&&A->t[i].c==1&&x->hi>=(1ULL<<OFFB)&&(x->lo>>OFFB)!=(x->hi>>OFFB)){ c=x->a; Expr* rest=C.sub(A,x); t=C.add(rest,x->b); f=C.add(rest,x->c); return true; } }
  if(A->op==CONCAT) for(u32 i=0;i<A->n;i++){ Expr* x=A->p[i]; if(x->op==ITE){ std::vector<Expr*> p(A->p,A->p+A->n),q=p; c=x->a; p[i]=x->b; q[i]=x->c; t=C.concat(p); f=C.concat(q); return true; } }
  return false; }
void resolve(State* s,Expr* A,unsigned n,bool wr,Expr* guard,std::vector<Res>& out,Expr* orig,int depth=0){
  if(out.size()>300) throw NeedConc{orig,600};
  if(A->op==CONST){ std::string er=checkAddr(s,A->k,n,wr); if(!er.empty()){ MP m; if(feas(s,{guard},m)) violate(s,"memory",er,m); return; } out.push_back({oid(A->k),C.constant(64,ooff(A->k)),guard}); return; }
  Expr*c,*t,*f; if(depth<64&&splitAddr(A,c,t,f)){ Expr* g1=C.land(guard,c); if(g1!=C.F) resolve(s,t,n,wr,g1,out,orig,depth+1); Expr* g2=C.land(guard,C.lnot(c)); if(g2!=C.F) resolve(s,f,n,wr,g2,out,orig,depth+1); return; }
  auto fits=[&](u64 id){ Obj* o=s->mem.get(id); return id&&o&&!o->freed&&o->kind!=O_FUNC&&o->size>=n&&!(wr&&(o->ro||shw(s,id))); };
  if((A->lo>>OFFB)==(A->hi>>OFFB)){ u64 id=A->lo>>OFFB; if(fits(id)&&ooff(A->hi)+n<=s->mem.get(id)->size){ out.push_back({id,C.sub(A,C.constant(64,id<<OFFB)),guard}); return; } }
  std::vector<Expr*> goal{guard}; 
  // try the object the current model points to first, then ask for anything outside
  MP m=s->model; { C.evbegin(); if(!evalm(s,guard)){ if(!feas(s,{guard},m)) return; } }
  for(int k=0;k<64;k++){
    mfix(*m); C.evbegin(); u64 a=(u64)C.eval(A,*m); std::string er=checkAddr(s,a,n,wr); if(!er.empty()) violate(s,"memory",er,m);
    u64 id=oid(a); Obj* o=s->mem.get(id); Expr* off=C.sub(A,C.constant(64,id<<OFFB)); Expr* in=C.lnot(C.ult(C.constant(64,o->size-n),off));
    Expr* g=C.land(guard,in); goal.push_back(C.lnot(in)); bool more=feas(s,goal,m);
    if(!more&&k==0) out.push_back({id,off,guard}); else out.push_back({id,off,g});
    if(!more) return; }
  throw NeedConc{orig,600};
}
// candidate offsets
struct Cand { u64 omin,step,m; unsigned tz; };
Cand cands(State* s,Expr* off,u64 size,unsigned n,Expr* guard,Expr* orig,u64 limit,u64 tight){
  unsigned tz=0; u64 kn=off->kz|off->ko; while(tz<20&&(kn>>tz&1)) tz++; u64 step=1ULL<<tz; u64 resid=off->ko&(step-1);
  auto calc=[&](u64 lo,u64 hi){ hi=std::min(hi,size-n); Cand c; c.tz=tz; c.step=step; c.omin=(lo&~(step-1))|resid; if(c.omin<lo) c.omin+=step; c.m=c.omin>hi?0:(hi-c.omin)/step+1; return c; };
  Cand c=calc(off->lo,off->hi); if(c.m<=tight&&c.m>0) return c;
  // tighten with the solver
  MP m; if(!feas(s,{guard},m)) return calc(1,0);
  auto ev=[&](MP q){ mfix(*q); C.evbegin(); return (u64)C.eval(off,*q); };
  u64 v=ev(m); u64 lo=c.m?off->lo:0,hi=std::min(off->hi,size-n); u64 a=lo,b=v; 
  while(a<b){ u64 mid=a+(b-a)/2; if(feas(s,{guard,C.lnot(C.ult(C.constant(64,mid),off))},m)) b=std::min(mid,ev(m)); else a=mid+1; } u64 L=a;
  a=v;b=hi; while(a<b){ u64 mid=b-(b-a)/2; if(feas(s,{guard,C.lnot(C.ult(off,C.constant(64,mid)))},m)) a=std::max(mid,ev(m)); else b=mid-1; } u64 H=a;
  c=calc(L,H); if(c.m>limit) throw NeedConc{orig,600}; if(c.m==0) eerr("cands"); return c;
}
bool isTree(Expr* e0);
V loadS(State* s,Expr* A,unsigned w){
  nsymload++; unsigned n=(w+7)/8; std::vector<Res> rs; resolve(s,A,n,false,C.T,rs,A); 
  Expr* acc=nullptr;
  for(int k=(int)rs.size()-1;k>=0;k--){ auto& r=rs[k]; Obj* o=s->mem.get(r.id); Expr* val;
    auto rd=[&](u64 off)->Expr*{ V v=loadC(s,(r.id<<OFFB)|off,w); return X(v,w); };
    if(r.off->op==CONST) val=rd(r.off->k);
    else if(r.off->nleaf>1&&r.off->nleaf<=64&&isTree(r.off)){ val=C.mapt(r.off,[&](Expr* x)->Expr*{ if(x->k+n<=o->size) return rd(x->k); return rd(0); }); }
    else { Cand c=cands(s,r.off,o->size,n,r.cond,A,16384,2048); if(c.m==0) continue; 
      Expr* idx=C.lshr(C.sub(r.off,C.constant(64,c.omin)),C.constant(64,c.tz)); unsigned nb=0; while((1ULL<<nb)<c.m) nb++;
      std::function<Expr*(u64,unsigned)> f=[&](u64 lo,unsigned b)->Expr*{ if(lo>=c.m) return nullptr; if(b==0) return rd(c.omin+lo*c.step); Expr* L=f(lo,b-1),*H=f(lo+(1ULL<<(b-1)),b-1); if(!H||H==L) return L; return C.ite(C.extract(idx,b-1,1),H,L); };
      val=f(0,nb); }
    acc=acc?C.ite(r.cond,val,acc):val; }
  if(!acc) return vc(0);
  return vmk(acc);
}
bool isTree(Expr* e0){ std::set<Expr*> seen; bool ok=true; std::function<void(Expr*)> dfs=[&](Expr* e){ if(!ok||!seen.insert(e).second||e->op==CONST) return; Expr*c,*t,*f; if(!C.asIte(e,c,t,f)){ ok=false; return; } dfs(t); dfs(f); }; dfs(e0); return ok; }
void storeS(State* s,Expr* A,unsigned w,const V& v){
  nsymstore++; unsigned n=(w+7)/8; std::vector<Res> rs; resolve(s,A,n,true,C.T,rs,A); Expr* x=X(v,w);
  struct W1{u64 a; Expr* c;}; std::vector<W1> ws;
  for(auto& r:rs){ Obj* o=s->mem.get(r.id); 
    if(r.off->op==CONST) ws.push_back({(r.id<<OFFB)|r.off->k,r.cond});
    else if(r.off->nleaf>1&&r.off->nleaf<=64&&isTree(r.off)){ std::map<u64,Expr*> leaf; std::vector<Expr*> post; std::unordered_map<Expr*,Expr*> gd; std::set<Expr*> seen;
      std::function<void(Expr*)> dfs=[&](Expr* e){ if(!seen.insert(e).second) return; if(e->op!=CONST){ Expr*c,*t,*f; if(!C.asIte(e,c,t,f)) eerr("store: not a tree "+C.str(e,3)); dfs(t); dfs(f); } post.push_back(e); };
      dfs(r.off); gd[r.off]=r.cond; auto addg=[&](Expr* e,Expr* g){ auto&z=gd[e]; z=z?C.lor(z,g):g; };
      for(size_t q=post.size();q--;){ Expr* e=post[q]; Expr* g=gd[e]; if(!g||g==C.F) continue; if(e->op==CONST){ auto& z=leaf[e->k]; z=z?C.lor(z,g):g; continue; } Expr*c,*t,*f; C.asIte(e,c,t,f); addg(t,C.land(g,c)); addg(f,C.land(g,C.lnot(c))); }
       for(auto&l:leaf) if(l.first+n<=o->size) ws.push_back({(r.id<<OFFB)|l.first,l.second}); }
    else { Cand c=cands(s,r.off,o->size,n,r.cond,A,4096,64); for(u64 j=0;j<c.m;j++){ u64 of=c.omin+j*c.step; Expr* g=C.land(r.cond,C.eq(r.off,C.constant(64,of))); if(g!=C.F) ws.push_back({(r.id<<OFFB)|of,g}); } } }
  for(auto& q:ws){ V old=loadC(s,q.a,w); storeC(s,q.a,w,vmk(C.ite(q.c,x,X(old,w)))); }
}
V load(State* s,const V& a,unsigned w){ return a.e?loadS(s,a.e,w):loadC(s,a.lo,w); }
void store(State* s,const V& a,unsigned w,const V& v){ if(a.e) storeS(s,a.e,w,v); else storeC(s,a.lo,w,v); }
u64 allocObj(State* s,OKind k,u64 size,u8 fam){ if(size>(1ULL<<34)) violate(s,"alloc","allocation of "+std::to_string(size)+" bytes",s->model); u64 id=nextid++; if(id>>28) throw Inconclusive{"object ids exhausted"}; Obj* o=obj_new(k,size); o->fam=fam; s->mem.put(id,o); return id<<OFFB; }
void freeObj(State* s,u64 id){ Obj* o=s->mem.getw(id); obj_drop_pages(o); o->freed=true; }
std::string cstr(State* s,const V& a){ if(a.e) eerr("symbolic string pointer"); std::string r; for(u64 p=a.lo;;p++){ V v=loadC(s,p,8); if(v.e) eerr("symbolic string"); if(!v.lo) break; r+=(char)v.lo; if(r.size()>5000) eerr("long string"); } return r; }

// ---------------------------------------------------------------- merging
struct MergeStat { u64 cells; };
bool mergeObj(Obj*& out,Obj* a,Obj* b,Expr* c){ // returns false if impossible
  if(a->freed&&b->freed){ a->ref++; out=a; return true; } if(a->freed){ b->ref++; out=b; return true; } if(b->freed){ a->ref++; out=a; return true; }
  if(a->size!=b->size) return false;
  Obj* o=obj_copy(a);
  for(u32 i=0;i<o->np;i++){ Page*pa=a->pg[i],*pb=b->pg[i]; if(pa==pb) continue; u64 fw=fillword(a);
    Page* r=nullptr; for(int k=0;k<PC;k++){ u64 da=pa?pa->d[k]:fw,db=pb?pb->d[k]:fw; Expr*ea=pa&&pa->sym?pa->sym[k]:nullptr,*eb=pb&&pb->sym?pb->sym[k]:nullptr;
      if(ea==eb&&(ea||da==db)) continue;
      if(!r) r=Mem::pagew(o,(u64)i<<10);
      Expr* x=C.ite(c,ea?ea:C.constant(64,da),eb?eb:C.constant(64,db)); if(x->op==CONST){ r->d[k]=x->k; if(r->sym) r->sym[k]=nullptr; } else { if(!r->sym) r->sym=(Expr**)calloc(PC,sizeof(Expr*)); r->sym[k]=x; } } }
  out=o; return true;
}
bool mergeNode(Node* a,Node* b,int lev,u64 id,std::vector<std::pair<u64,Obj*>>& ups,Expr* c){
  if(a==b) return true; if(!b) return true;
  for(int i=0;i<FAN;i++){ void*x=a?a->ch[i]:nullptr,*y=b->ch[i]; if(x==y||!y) continue; u64 nid=id<<8|i;
    if(lev==Mem::L-1){ Obj* o; if(!x){ o=(Obj*)y; o->ref++; } else if(!mergeObj(o,(Obj*)x,(Obj*)y,c)) return false; ups.push_back({nid,o}); }
    else if(!mergeNode((Node*)x,(Node*)y,lev+1,nid,ups,c)) return false; }
  return true;
}
bool tryMerge(State* A,State* B){
  curs=nullptr;
  if(A->fr.size()!=B->fr.size()||A->merge!=B->merge||A->uncaught!=B->uncaught||A->frz!=B->frz||A->frzlock!=B->frzlock||A->frzr!=B->frzr||A->norm!=B->norm||A->tidn!=B->tidn||A->caught.size()!=B->caught.size()) return false; 
  if(A->fr.empty()) return false;
  for(size_t i=0;i<A->caught.size();i++) if(A->caught[i].ptr!=B->caught[i].ptr) return false;
  for(size_t i=0;i+1<A->fr.size();i++) if(A->fr[i]!=B->fr[i]) return false;
  Frame*fa=A->top(),*fb=B->top(); if(fa->f!=fb->f||fa->bb!=fb->bb||fa->ip!=fb->ip) return false;
  size_t k=0; while(k<A->pc.size()&&k<B->pc.size()&&A->pc[k]==B->pc[k]) k++;
  Expr *c,*np;
  if(k<A->pc.size()&&k<B->pc.size()&&C.isNotOf(A->pc[k],B->pc[k])){ c=A->pc[k]; Expr*ra=andall(A->pc,k+1),*rb=andall(B->pc,k+1); np=C.ite(c,ra,rb); }
  else { Expr*ra=andall(A->pc,k),*rb=andall(B->pc,k); if(ra==C.T&&rb==C.T) return false; if(ra==C.T){ c=C.lnot(rb); } else c=ra; np=C.lor(ra,rb); }
  // NOTE c must separate: B implies !c.  Branch conditions of sibling states are always disjoint.
  std::vector<std::pair<u64,Obj*>> ups; if(!mergeNode(A->mem.root,B->mem.root,0,0,ups,c)){ for(auto&u:ups) obj_unref(u.second); nmergefail++; return false; }
  for(auto&u:ups) A->mem.put(u.first,u.second);
  A->mem.flush(); A->own(); fa=A->top(); if(A->frzr){ A->lw->insert(B->lw->begin(),B->lw->end()); A->lr->insert(B->lr->begin(),B->lr->end()); }
  Func* F=fa->f; bool atstart=fa->ip==F->blocks[fa->bb].start; auto& live=F->blocks[fa->bb].live;
  for(int i=0;i<F->nregs;i++){ if(atstart&&!(live[i>>6]>>(i&63)&1)) continue; V&x=fa->r[i]; V&y=fb->r[i]; if(x.e==y.e&&x.lo==y.lo&&x.hi==y.hi) continue; unsigned w=F->regw[i]; if(x.e&&x.e->w!=w) continue; if(y.e&&y.e->w!=w) continue; x=vmk(C.ite(c,X(x,w),X(y,w))); }
  for(u64 a:fb->allocas) if(std::find(fa->allocas.begin(),fa->allocas.end(),a)==fa->allocas.end()) fa->allocas.push_back(a);
  A->pc.resize(k); dommerge(A,B); addpc(A,np); nmerges++;
  return true;
}
// ---------------------------------------------------------------- execution
static inline V& G(Frame* f,int o){ return o>=0?f->r[o]:f->f->consts[~o]; }
void enterBlock(Frame* f,int b){ f->bb=b; Block& B=f->f->blocks[b]; f->ip=B.start; if(__builtin_expect(!B.visited,0)){ B.visited=true; for(u32 x:B.srcs) srchit[x]=1; } }
void takeEdge(Frame* f,const Edge& e){
  size_t n=e.moves.size(); if(n==1){ f->r[e.moves[0].first]=G(f,e.moves[0].second); }
  else if(n){ V tmpb[16]; std::vector<V> big; V* t=tmpb; if(n>16){ big.resize(n); t=big.data(); } for(size_t i=0;i<n;i++) t[i]=G(f,e.moves[i].second); for(size_t i=0;i<n;i++) f->r[e.moves[i].first]=t[i]; }
  enterBlock(f,e.target);
}
void pushFrame(State* s,Func* F,int retdst,const V* args,size_t n){
  if(!F->decoded) decode(F); F->calls++; if(s->fr.size()>3000) violate(s,"stack","recursion too deep",s->model);
  Frame* f=new Frame; f->ref=1; f->f=F; f->r.resize(F->nregs); f->retdst=retdst; for(size_t i=0;i<n&&i<F->argregs.size();i++) f->r[F->argregs[i]]=args[i];
  s->fr.push_back(f);
  for(auto&b:F->byval){ V src=f->r[b.first]; if(src.e) eerr("symbolic byval"); u64 a=allocObj(s,O_STACK,b.second,0); f->allocas.push_back(a); for(u64 i=0;i<b.second;){ unsigned w=b.second-i>=8?64:8; storeC(s,a+i,w,loadC(s,src.lo+i,w)); i+=w/8; } f->r[b.first]=vc(a); }
  enterBlock(f,0);
}
void popFrame(State* s){ Frame* f=s->top(); for(u64 a:f->allocas) freeObj(s,oid(a)); s->fr.pop_back(); if(--f->ref==0) delete f; s->own(); }
// exceptions
std::unordered_map<u64,u64> exctype;
std::map<std::string,std::vector<std::string>> stdbases={ {"_ZTISt11logic_error",{"_ZTISt9exception"}},{"_ZTISt13runtime_error",{"_ZTISt9exception"}},{"_ZTISt12out_of_range",{"_ZTISt11logic_error"}},{"_ZTISt12length_error",{"_ZTISt11logic_error"}},{"_ZTISt16invalid_argument",{"_ZTISt11logic_error"}},{"_ZTISt12domain_error",{"_ZTISt11logic_error"}},{"_ZTISt9bad_alloc",{"_ZTISt9exception"}},{"_ZTISt8bad_cast",{"_ZTISt9exception"}},{"_ZTISt12system_error",{"_ZTISt13runtime_error"}},{"_ZTINSt8ios_base7failureB5cxx11E",{"_ZTISt12system_error"}},{"_ZTISt14overflow_error",{"_ZTISt13runtime_error"}},{"_ZTISt11range_error",{"_ZTISt13runtime_error"}}};
bool derives(u64 t,u64 base){ if(t==base) return true; std::string n=objn(oid(t)),b=objn(oid(base)); if(n==b) return true; auto it=stdbases.find(n); if(it!=stdbases.end()){ for(auto&x:it->second){ if(x==b) return true; auto j=stdbases.find(x); while(j!=stdbases.end()){ bool f=false; for(auto&y:j->second){ if(y==b) return true; j=stdbases.find(y); f=true; break; } if(!f) break; } } return false; }
  // typeinfo with an initializer
  if(auto gv=M->getGlobalVariable(n,true)) if(gv->hasInitializer()) if(auto cs=llvm::dyn_cast<llvm::ConstantStruct>(gv->getInitializer())){ for(unsigned i=2;i<cs->getNumOperands();i++) if(auto g=llvm::dyn_cast<llvm::GlobalVariable>(cs->getOperand(i)->stripPointerCasts())) if(derives(gvaddr(g),base)) return true; }
  return false; }
std::map<u64,int> typeids; int typeId(u64 t){ auto it=typeids.find(t); if(it!=typeids.end()) return it->second; int k=typeids.size()+1; return typeids[t]=k; }
void unwind(State* s){ // s->cur is being thrown; frames' ip point at the call
  u64 ty=s->cur.type; // search
  int target=-1; for(int i=s->fr.size()-1;i>=0&&target<0;i--){ Frame* f=s->fr[i]; Inst& I=f->f->code[f->ip]; if((I.op==I_CALL||I.op==I_CALLI)&&I.edges.size()==2){ Inst& L=f->f->code[f->f->blocks[I.edges[1].target].start]; if(L.op!=I_LPAD) eerr("no landingpad"); for(size_t k=0;k<L.ops.size();k++){ if(L.cases[k]==0){ u64 c=G(f,L.ops[k]).lo; if(c==0||derives(ty,c)) target=i; } else target=i; } } }
  if(target<0) violate(s,"exception",std::string("uncaught exception ")+llvm::demangle(objn(oid(ty))),s->model);
  while(true){ Frame* f=s->top(); Inst& I=f->f->code[f->ip];
    if((I.op==I_CALL||I.op==I_CALLI)&&I.edges.size()==2){ Inst& L=f->f->code[f->f->blocks[I.edges[1].target].start]; int sel=-1; 
      for(size_t k=0;k<L.ops.size();k++){ if(L.cases[k]==0){ u64 c=G(f,L.ops[k]).lo; if(c==0||derives(ty,c)){ sel=typeId(c); break; } } else { sel=-2; break; } }
      if(sel==-2) violate(s,"exception","exception specification violated",s->model);
      if(sel==-1&&L.imm) sel=0; 
      if(sel>=0){ takeEdge(f,I.edges[1]); f->r[L.dst]=vc(s->cur.ptr); f->r[L.dst+1]=vc((u32)sel); f->ip++; return; } }
    if(s->fr.size()==1) eerr("unwind"); popFrame(s); }
}
enum Status { R_STOP, R_DEAD, R_FORK };
struct Fork { std::vector<State*> kids; int jd,jb; bool join; };
double fdec(const V& v,unsigned w){ if(w==32){ float f; u32 b=v.lo; memcpy(&f,&b,4); return f; } if(w==64){ double d; memcpy(&d,&v.lo,8); return d; } eerr("fp80"); }
V fenc(double d,unsigned w){ if(w==32){ float f=d; u32 b; memcpy(&b,&f,4); return vc(b); } if(w==64){ u64 b; memcpy(&b,&d,8); return vc(b); } eerr("fp80"); }
static inline void cc(const V& v,int cap=300){ if(v.e) throw NeedConc{v.e,cap}; }
void copyMem(State* s,u64 d,u64 src,u64 n){
  std::vector<V> t; t.reserve(n/8+8); std::string er; if(n){ er=checkAddr(s,src,1,false); if(er.empty()&&ooff(src)+n>s->mem.get(oid(src))->size) er="memcpy: out-of-bounds read of "+std::to_string(n)+" bytes at offset "+std::to_string(ooff(src))+" object size "+std::to_string(s->mem.get(oid(src))->size); if(!er.empty()) violate(s,"memory",er,s->model); }
  u64 i=0; for(;i+8<=n;i+=8) t.push_back(loadC(s,src+i,64)); u64 j=i; for(;i<n;i++) t.push_back(loadC(s,src+i,8));
  size_t k=0; for(i=0;i+8<=n;i+=8) storeC(s,d+i,64,t[k++]); for(;j<n;j++) storeC(s,d+j,8,t[k++]);
}
V newvar(State* s,const std::string& name,unsigned w,u64 lo,u64 hi){
  if(concmode){ auto it=concvals.find(name); u64 v=it==concvals.end()?lo:it->second; if(v<lo||v>hi) v=lo; return vc(v); }
  if(lo==hi) return vc(lo);
  auto it=varbyname.find(name); if(it!=varbyname.end()){ auto& vi=C.vars[it->second->k]; if(vi.w!=w||vi.lo!=lo||vi.hi!=hi) eerr("variable "+name+" redeclared with a different range"); return vmk(it->second); }
  Expr* e=C.var(name,w,lo,hi); varbyname[name]=e; return vmk(e);
}
struct Ctl { enum K{NEXT,DONE,THROW,DEAD} k; };
std::vector<std::pair<std::string,int>> z3log;
// executes builtin; result in ret[0..]. args: A
Ctl::K builtin(State* s,Func* F,Inst& I,std::vector<V>& A,V* ret){
  Frame* fr=s->top(); ret[0]=vc(0);
  switch(F->builtin){
    case B_MALLOC: case B_NEW: case B_NEWA: cc(A[0]); ret[0]=vc(allocObj(s,O_HEAP,A[0].lo,F->builtin==B_MALLOC?1:F->builtin==B_NEW?2:3)); break;
    case B_CALLOC: { cc(A[0]); cc(A[1]); u64 n=A[0].lo*A[1].lo; u64 a=allocObj(s,O_HEAP,n,1); for(u64 i=0;i<n;){ unsigned w=n-i>=8?64:8; storeC(s,a+i,w,vc(0)); i+=w/8; } ret[0]=vc(a); break; }
    case B_ALIGNED: cc(A[1]); ret[0]=vc(allocObj(s,O_HEAP,A[1].lo,1)); break;
    case B_POSIX_MEMALIGN: { cc(A[2]); cc(A[0]); u64 a=allocObj(s,O_HEAP,A[2].lo,1); store(s,A[0],64,vc(a)); break; }
    case B_REALLOC: { cc(A[0]); cc(A[1]); u64 n=A[1].lo; if(A[0].lo){ Obj* o=s->mem.get(oid(A[0].lo)); if(ooff(A[0].lo)||!o||o->kind!=O_HEAP||o->freed||o->fam!=1) violate(s,"memory",o&&o->freed?"realloc of freed memory":"invalid realloc",s->model); if(shw(s,oid(A[0].lo))) violate(s,"memory","memory shared with other threads is reallocated",s->model);
        u64 a=allocObj(s,O_HEAP,n,1); copyMem(s,a,A[0].lo,std::min(n,o->size)); freeObj(s,oid(A[0].lo)); ret[0]=vc(a); } else ret[0]=vc(allocObj(s,O_HEAP,n,1)); break; }
    case B_FREE: case B_DELETE: case B_DELETEA: { cc(A[0]); u64 a=A[0].lo; if(!a) break; Obj* o=s->mem.get(oid(a)); u8 fam=F->builtin==B_FREE?1:F->builtin==B_DELETE?2:3; if(!o||o->kind!=O_HEAP||ooff(a)) violate(s,"memory","free of invalid pointer",s->model); if(o->freed) violate(s,"memory","double free",s->model); if(shw(s,oid(a))) violate(s,"memory","memory shared with other threads is freed",s->model); if(o->fam!=fam&&!(o->fam>=2&&fam>=2&&false)) violate(s,"memory","mismatched deallocation function",s->model); freeObj(s,oid(a)); break; }
    case B_MEMCPY: cc(A[2]); if(A[2].lo){ cc(A[0]); cc(A[1]); copyMem(s,A[0].lo,A[1].lo,A[2].lo); } ret[0]=A[0]; break;
    case B_MEMSET: { cc(A[2]); u64 n=A[2].lo; if(n){ cc(A[0]); V b=A[1]; Expr* x=C.extract(X(b,32),0,8); std::vector<Expr*> p(8,x); V w8=vmk(C.concat(p)),w1=vmk(x); u64 a=A[0].lo; std::string er=checkAddr(s,a,1,true); if(er.empty()&&ooff(a)+n>s->mem.get(oid(a))->size) er="memset: out-of-bounds write"; if(!er.empty()) violate(s,"memory",er,s->model); u64 i=0; while(i<n&&((a+i)&7)) storeC(s,a+i,8,w1),i++; for(;i+8<=n;i+=8) storeC(s,a+i,64,w8); for(;i<n;i++) storeC(s,a+i,8,w1); } ret[0]=A[0]; break; }
    case B_MEMCMP: { cc(A[2]); u64 n=A[2].lo; if(n==0) break; cc(A[0]); cc(A[1]); Expr* r=C.constant(32,0); for(i64 i=n-1;i>=0;i--){ Expr* x=X(loadC(s,A[0].lo+i,8),8),*y=X(loadC(s,A[1].lo+i,8),8); Expr* e=C.eq(x,y); if(e==C.T) continue; Expr* d=C.ite(C.ult(x,y),C.constant(32,~0u),C.constant(32,1)); r=C.ite(e,r,d); } ret[0]=vmk(r); break; }
    case B_STRLEN: { cc(A[0]); u64 n=0; while(true){ V v=loadC(s,A[0].lo+n,8); if(v.e) eerr("strlen on symbolic bytes"); if(!v.lo) break; n++; } ret[0]=vc(n); break; }
    case B_MEMCHR: { cc(A[0]); cc(A[2]); cc(A[1]); Expr* r=C.constant(64,0); for(i64 i=(i64)A[2].lo-1;i>=0;i--){ Expr* x=X(loadC(s,A[0].lo+i,8),8); r=C.ite(C.eq(x,C.constant(8,A[1].lo&255)),C.constant(64,A[0].lo+i),r); } ret[0]=vmk(r); break; }
    case B_STRCMP: { std::string a=cstr(s,A[0]),b=cstr(s,A[1]); ret[0]=vc((u32)a.compare(b)); break; }
    case B_CXA_ALLOC: cc(A[0]); ret[0]=vc(allocObj(s,O_HEAP,A[0].lo,9)); break;
    case B_CXA_FREE: break;
    case B_CXA_THROW: cc(A[0]); cc(A[1]); s->cur={A[0].lo,A[1].lo}; exctype[A[0].lo]=A[1].lo; s->uncaught++; return Ctl::THROW;
    case B_CXA_RETHROW: if(s->caught.empty()) violate(s,"exception","rethrow without exception",s->model); s->cur=s->caught.back(); s->uncaught++; return Ctl::THROW;
    case B_CXA_BEGIN: cc(A[0]); s->caught.push_back({A[0].lo,exctype[A[0].lo]}); s->uncaught--; ret[0]=A[0]; break;
    case B_CXA_EXCPTR: ret[0]=A[0]; break;
    case B_CXA_END: if(!s->caught.empty()) s->caught.pop_back(); break;
    case B_NOP0: break;
    case B_UNCAUGHT: ret[0]=vc(s->uncaught>0); break;
    case B_GUARD_ACQ: { V v=load(s,A[0],8); cc(v); ret[0]=vc(v.lo?0:1); if(!v.lo) s->frzlock+=GUARD; break; }
    case B_GUARD_REL: store(s,A[0],8,vc(1)); if(s->frzlock>=GUARD) s->frzlock-=GUARD; break;
    case B_GUARD_ABORT: if(s->frzlock>=GUARD) s->frzlock-=GUARD; break;
    case B_UNLOCK: if(s->frzlock) s->frzlock--; break;
    case B_LOCK: s->frzlock++; break;
    case B_SYM_TID: ret[0]=vc(s->tidn); break;
    case B_SYM_FREEZE: cc(A[0]); if(s->frzr) for(u64 k:*s->lr) if(s->lw->count(k)) violate(s,"memory",std::string("unsynchronised read of memory that other threads write under a lock ")+objn(oid(k)),s->model); s->frz=A[0].lo?nextid:0; s->frzlock=0; s->frzr=A[0].lo>1; s->norm=A[0].lo==3; s->tidn=A[0].lo?s->tidn+1:0; s->lw=std::make_shared<std::set<u64>>(); s->lr=std::make_shared<std::set<u64>>(); break;
    case B_ABORT: violate(s,"abort","call of "+F->name,s->model);
    case B_TERMINATE: violate(s,"exception","std::terminate",s->model);
    case B_RETARG: ret[0]=A.empty()?vc(0):A[0]; break;
    case B_FP1: { cc(A[0]); unsigned w=F->name.back()=='f'&&F->name!="f"?32:64; double x=fdec(A[0],w),r=0; const std::string&n=F->name; if(n=="log") r=log(x); else if(n=="log2") r=log2(x); else if(n=="log10") r=log10(x); else if(n=="exp") r=exp(x); else if(n=="sqrt") r=sqrt(x); else if(n[0]=='c') r=ceil(x); else if(n.compare(0,5,"floor")==0) r=floor(x); else if(n=="round") r=round(x); else if(n=="fabs") r=fabs(x); ret[0]=fenc(r,w); break; }
    case B_FP2: { cc(A[0]); cc(A[1]); double x=fdec(A[0],64),y=fdec(A[1],64),r=0; const std::string&n=F->name; if(n=="ldexp") r=ldexp(x,(int)A[1].lo); else if(n=="pow") r=pow(x,y); else if(n=="fmod") r=fmod(x,y); else if(n=="fmin") r=fmin(x,y); else r=fmax(x,y); ret[0]=fenc(r,64); break; }
    case B_SYM_U: { cc(A[1]); unsigned b=A[1].lo; V v=newvar(s,cstr(s,A[0]),b,0,maskw(b)); ret[0]=v.e?vmk(C.zext(v.e,64)):v; break; }
    case B_SYM_RANGE: { cc(A[1]); cc(A[2]); u64 lo=A[1].lo,hi=A[2].lo; if(lo>hi){ nassume_dead++; donepc.push_back(s->pc); return Ctl::DEAD; } unsigned b=hi?64-__builtin_clzll(hi):1; V v=newvar(s,cstr(s,A[0]),b,lo,hi); ret[0]=v.e?vmk(C.zext(v.e,64)):v; break; }
    case B_SYM_ASSUME: { Expr* c=A[0].e?C.lnot(C.eq(A[0].e,C.constant(A[0].e->w,0))):(A[0].lo?C.T:C.F); if(c==C.F){ nassume_dead++; donepc.push_back(s->pc); return Ctl::DEAD; } if(c!=C.T){ MP m; npathq++; donepc.push_back(s->pc); donepc.back().push_back(C.lnot(c)); if(!feas(s,{c},m)){ nassume_dead++; return Ctl::DEAD; } s->model=m; addpc(s,c); } break; }
    case B_SYM_ASSERT: { std::string nm=cstr(s,A[1]); nassert++; assertnames[nm]++; if(concmode&&obsf){ cc(A[0]); fprintf(obsf,"A %s %d\n",nm.c_str(),(int)!!A[0].lo); } Expr* c=A[0].e?C.lnot(C.eq(A[0].e,C.constant(A[0].e->w,0))):(A[0].lo?C.T:C.F);
        if(c==C.T){ nassert_triv++; break; } if(c==C.F) violate(s,"assert",nm,s->model);
        nassert_solver++; if(getenv("SHOWQ")) fprintf(stderr,"assert %s\n  %s\n",nm.c_str(),C.str(c,12).c_str()); MP m; int r=sat(s,{C.lnot(c)},m); 
        if(r==1) violate(s,"assert",nm,m);
        if(r<0){ timecheck(); // second opinion
          std::vector<Expr*> q; std::vector<char> inv; slice(s,{C.lnot(c)},q,inv); int z=S->z3check(q,std::min(z3limit*3,std::max(1.0,deadline-S->now()))); if(z==0){ S->z3agree++; addpc(s,c); break; } nassert_unknown++; if(verbose){ fprintf(stderr,"undecided assertion %s\n",nm.c_str()); for(auto e:q) fprintf(stderr,"   %s\n",C.str(e,getenv("SD")?atoi(getenv("SD")):5).substr(0,getenv("SD")?6000:1500).c_str()); } break; }
        if(S->z3time<z3budget){ std::vector<Expr*> q; std::vector<char> inv; slice(s,{C.lnot(c)},q,inv); int z=S->z3check(q,std::min(z3limit,std::max(0.5,z3budget-S->z3time))); if(z==1) eerr("solver disagreement (z3 sat) on assertion "+nm); if(z==0) S->z3agree++; else S->z3unk++; }
        break; }
    case B_SYM_CONC: cc(A[0],5000); ret[0]=A[0]; break;
    case B_SYM_MERGE: cc(A[0]); ret[0]=vc(s->merge); s->merge=A[0].lo; break;
    case B_SYM_CFG: { std::string n=cstr(s,A[0]); cfgused.insert(n); auto it=cfg.find(n); ret[0]=it==cfg.end()?A[1]:vc(it->second); break; }
    case B_SYM_OBS: if(concmode&&obsf){ cc(A[1]); fprintf(obsf,"%s %llu\n",cstr(s,A[0]).c_str(),(unsigned long long)A[1].lo); } break;
    case B_SYM_COVER: covers.insert(cstr(s,A[0])); break;
    case B_SYM_ISSYM: ret[0]=vc(A[0].e?1:0); break;
    case B_SYM_ACTIVE: ret[0]=vc(concmode?0:1); break;
    case B_SYM_GARBAGE: cc(A[0]); g_garbage=A[0].lo; break;
    case B_SYM_PRINT: fprintf(stderr,"[print] %s = ",cstr(s,A[0]).c_str()); if(A[1].e) fprintf(stderr,"%s [%llu..%llu]\n",C.str(A[1].e,6).c_str(),(unsigned long long)A[1].e->lo,(unsigned long long)A[1].e->hi); else fprintf(stderr,"%llu (0x%llx)\n",(unsigned long long)A[1].lo,(unsigned long long)A[1].lo); break;
    case B_CNTSUM: ret[0]= A[0].e? vmk(C.popcount(A[0].e,I.w?I.w:64)):vc(__builtin_popcountll(A[0].lo)); break;
    default: eerr("builtin "+F->name);
  }
  return Ctl::NEXT;
}
// Summaries of leaf bit operations (each is only enabled after the lemma run has proved it equal to the
// code for every argument; see tools/check.py)
bool summary(State* s,Func* F,std::vector<V>& A,V& r){
  if(F->summ==1){ r=vmk(C.popcount(A[0].e,64)); return true; }              // cnt(x)
  if(F->summ==2||F->summ==3){ Expr* x=A[0].e; MP m; Expr* e=C.constant(32,0); unsigned w=64; if(F->summ==3&&feas(s,{C.eq(x,C.constant(64,0))},m)) return false; 
    if(F->summ==2) for(unsigned i=0;i<w;i++) e=C.ite(C.extract(x,i,1),C.constant(32,i),e); else { e=C.constant(32,63); for(int i=62;i>=0;i--) e=C.ite(C.extract(x,i,1),C.constant(32,i),e); } r=vmk(e); return true; }
  if(F->summ==4){ Expr* x=X(A[0],64),*i=X(A[1],32); MP m; Expr* c=C.popcount(x,32); Expr* bad=C.lor(C.eq(i,C.constant(32,0)),C.ult(c,i)); if(bad!=C.F&&feas(s,{bad},m)) return false;
    std::vector<Term> t; Expr* acc=C.constant(32,0); for(unsigned p=0;p<64;p++){ acc=C.add(acc,C.zext(C.extract(x,p,1),32)); t.push_back({C.zext(C.ult(acc,i),32),1}); } r=vmk(C.sum(32,t,0)); return true; }
  return false; }
Expr* revbits(Expr* x){ std::vector<Expr*> v; for(int i=x->w-1;i>=0;i--) v.push_back(C.extract(x,i,1)); return C.concat(v); }
void intrinsic(State* s,Frame* f,Inst& I){
  auto a=[&](int k)->V&{ return G(f,I.ops[k]); }; unsigned w=I.w2; V r;
  switch(I.sub){
    case N_CTPOP: { V x=a(0); r=x.e?vmk(w<=64?C.popcount(x.e,w):C.zext(C.popcount(x.e,16),w)):vc(__builtin_popcountll(x.lo)+__builtin_popcountll(x.hi)); break; }
    case N_CTLZ: { V x=a(0); if(!x.e){ u128 v=cat(x); unsigned n=0; while(n<w&&!((v>>(w-1-n))&1)) n++; r=vc(n); } else { Expr* e=C.constant(w,w); for(unsigned i=0;i<w;i++) e=C.ite(C.extract(x.e,i,1),C.constant(w,w-1-i),e); r=vmk(e); } break; }
    case N_CTTZ: { V x=a(0); if(!x.e){ u128 v=cat(x); unsigned n=0; while(n<w&&!((v>>n)&1)) n++; r=vc(n); } else { Expr* e=C.constant(w,w); for(int i=w-1;i>=0;i--) e=C.ite(C.extract(x.e,i,1),C.constant(w,i),e); r=vmk(e); } break; }
    case N_BSWAP: { V x=a(0); Expr* e=X(x,w); std::vector<Expr*> v; for(int i=w/8-1;i>=0;i--) v.push_back(C.extract(e,i*8,8)); r=vmk(C.concat(v)); break; }
    case N_BITREV: r=vmk(revbits(X(a(0),w))); break;
    case N_FSHL: case N_FSHR: { V sh=a(2); if(w>64) eerr("fsh wide"); 
      if(!sh.e){ unsigned k=sh.lo%w; if(I.sub==N_FSHR) k=(w-k)%w; // fshl by k (for fshr k==0 keeps low operand)
        if(k==0){ r= (I.sub==N_FSHR)? a(1):a(0); } else { std::vector<Expr*> v{C.extract(X(a(1),w),w-k,k),C.extract(X(a(0),w),0,w-k)}; r=vmk(C.concat(v)); } }
      else { std::vector<Expr*> v{X(a(1),w),X(a(0),w)}; Expr* cat2=C.concat(v); Expr* k=C.zext(C.band(sh.e,C.constant(w,w-1)),2*w); if(w&(w-1)) eerr("fsh"); if(I.sub==N_FSHR) r=vmk(C.extract(C.lshr(cat2,k),0,w)); else r=vmk(C.extract(C.shl(cat2,k),w,w)); } break; }
    case N_UMIN: case N_UMAX: case N_SMIN: case N_SMAX: { Expr*x=X(a(0),w),*y=X(a(1),w); Expr* lt=(I.sub==N_UMIN||I.sub==N_UMAX)?C.ult(x,y):C.slt(x,y); r=vmk((I.sub==N_UMIN||I.sub==N_SMIN)?C.ite(lt,x,y):C.ite(lt,y,x)); break; }
    case N_ABS: { Expr* x=X(a(0),w); r=vmk(C.ite(C.slt(x,C.constant(w,0)),C.sub(C.constant(w,0),x),x)); break; }
    case N_UADDO: case N_USUBO: case N_UMULO: case N_SADDO: case N_SSUBO: case N_SMULO: { if(w>64) eerr("wide overflow intrinsic"); bool sg=I.sub>=N_SADDO; Expr*x=X(a(0),w),*y=X(a(1),w); unsigned W=I.sub==N_UMULO||I.sub==N_SMULO?2*w:w+1; Expr *ex=sg?C.sext(x,W):C.zext(x,W),*ey=sg?C.sext(y,W):C.zext(y,W); Expr* z=(I.sub==N_UADDO||I.sub==N_SADDO)?C.add(ex,ey):(I.sub==N_USUBO||I.sub==N_SSUBO)?C.sub(ex,ey):C.mul(ex,ey);
      Expr* lo=(I.sub==N_UADDO||I.sub==N_SADDO)?C.add(x,y):(I.sub==N_USUBO||I.sub==N_SSUBO)?C.sub(x,y):C.extract(z,0,w); Expr* ov;
      if(I.sub==N_UADDO) ov=C.ult(lo,x); else if(I.sub==N_USUBO) ov=C.ult(x,y); else ov=C.lnot(C.eq(z,sg?C.sext(lo,W):C.zext(lo,W)));
      f->r[I.dst]=vmk(lo); f->r[I.dst+1]=vmk(ov); return; }
    case N_UADDS: { Expr*x=X(a(0),w),*y=X(a(1),w); Expr* z=C.add(x,y); r=vmk(C.ite(C.ult(z,x),C.constant(w,~(u128)0),z)); break; }
    case N_USUBS: { Expr*x=X(a(0),w),*y=X(a(1),w); r=vmk(C.ite(C.ult(x,y),C.constant(w,0),C.sub(x,y))); break; }
    case N_MEMCPY: cc(a(2)); if(a(2).lo){ cc(a(0)); cc(a(1)); copyMem(s,a(0).lo,a(1).lo,a(2).lo); } return;
    case N_MEMSET: { std::vector<V> A{a(0),a(1).e?vmk(C.zext(a(1).e,32)):a(1),a(2)}; Func F; F.builtin=B_MEMSET; V rr[2]; builtin(s,&F,I,A,rr); return; }
    case N_TYPEID: r=vc(typeId(a(0).lo)); break;
    case N_ZERO: r=vc(0); break; case N_ARG0: r=a(0); break; case N_OBJSIZE: r=vc(~0ULL&maskw(I.w)); break; case N_TRAP: violate(s,"abort","trap",s->model);
    case N_PTRMASK: r=vmk(C.band(X(a(0),64),X(a(1),64))); break;
    case N_FP: { cc(a(0)); if(I.ops.size()>1) cc(a(1)); double x=fdec(a(0),I.w),y=I.ops.size()>1?fdec(a(1),I.w):0,z=0; using namespace llvm; switch((unsigned)I.imm){ case Intrinsic::fabs: z=fabs(x);break; case Intrinsic::floor: z=floor(x);break; case Intrinsic::ceil: z=ceil(x);break; case Intrinsic::sqrt: z=sqrt(x);break; case Intrinsic::log: z=log(x);break; case Intrinsic::log2: z=log2(x);break; case Intrinsic::log10: z=log10(x);break; case Intrinsic::exp: z=exp(x);break; case Intrinsic::exp2: z=exp2(x);break; case Intrinsic::round: z=round(x);break; case Intrinsic::trunc: z=trunc(x);break; case Intrinsic::rint: case Intrinsic::nearbyint: z=rint(x);break; case Intrinsic::pow: z=pow(x,y);break; case Intrinsic::copysign: z=copysign(x,y);break; case Intrinsic::minnum: z=fmin(x,y);break; case Intrinsic::maxnum: z=fmax(x,y);break; } r=fenc(z,I.w); break; }
    case N_FMULADD: cc(a(0));cc(a(1));cc(a(2)); r=fenc(fdec(a(0),I.w)*fdec(a(1),I.w)+fdec(a(2),I.w),I.w); break;
    default: eerr("intrinsic");
  }
  if(I.dst>=0) f->r[I.dst]=r;
}
// fork on list of (condition, edge)
bool forkEdges(State* s,std::vector<std::pair<Expr*,int>>& alts,Inst& I,Fork& fk){
  // determine feasible alternatives; returns false if only one (edge taken)
  mfix(*s->model); std::vector<std::pair<int,MP>> ok; int cur=-1; C.evbegin(); for(size_t i=0;i<alts.size();i++) if(alts[i].first==C.T||C.eval(alts[i].first,*s->model)) { cur=i; break; }
  for(size_t i=0;i<alts.size();i++){ if((int)i==cur){ ok.push_back({i,s->model}); continue; } if(alts[i].first==C.F) continue; if((int)alts.size()-1==(int)i&&ok.empty()&&cur<0){ ok.push_back({i,s->model}); continue; } MP m; npathq++; if(feas(s,{alts[i].first},m)) ok.push_back({i,m}); }
  if(ok.empty()) eerr("no feasible branch");
  Frame* f=s->top();
  if(ok.size()==1){ takeEdge(f,I.edges[alts[ok[0].first].second]); return false; }
  nforks++; if((nforks&255)==0) timecheck(); nstates+=ok.size()-1;
  Block& B=f->f->blocks[f->bb]; int jd=s->fr.size(), jb=B.ipdom; 
  fk.kids.clear(); fk.join=s->merge&&jb!=-2&&(jd>1||jb>=0); fk.jd=jd; fk.jb=jb;
  for(size_t i=0;i<ok.size();i++){ State* k=i+1<ok.size()?s->clone():s; k->model=ok[i].second; addpc(k,alts[ok[i].first].first); fk.kids.push_back(k); }
  for(size_t i=0;i<ok.size();i++){ Frame* g=fk.kids[i]->top(); takeEdge(g,g->f->code[g->ip].edges[alts[ok[i].first].second]); }
  return true;
}
static inline bool atStop(State* s,int d,int b){ int n=s->fr.size(); if(n<d) return true; if(n==d&&b>=0){ Frame* f=s->top(); return f->bb==b&&f->ip==f->f->blocks[b].start; } return false; }
std::set<std::string> warned;
Status step(State* s,int sd,int sb,Fork& fk){
  Frame* f=s->top(); curs=s;
  while(true){
    Inst& I=f->f->code[f->ip];
    if(__builtin_expect((++nsteps&0xfffff)==0,0)) timecheck();
    switch(I.op){
      case I_ADD: { V&a=G(f,I.a),&b=G(f,I.b); if(!a.e&&!b.e){ if(I.w<=64) f->r[I.dst]=vc((a.lo+b.lo)&maskw(I.w)); else f->r[I.dst]=vcw(cat(a)+cat(b),I.w); } else f->r[I.dst]=vmk(C.add(X(a,I.w),X(b,I.w))); f->ip++; break; }
      case I_SUB: { V&a=G(f,I.a),&b=G(f,I.b); if(!a.e&&!b.e){ if(I.w<=64) f->r[I.dst]=vc((a.lo-b.lo)&maskw(I.w)); else f->r[I.dst]=vcw(cat(a)-cat(b),I.w); } else f->r[I.dst]=vmk(C.sub(X(a,I.w),X(b,I.w))); f->ip++; break; }
      case I_AND: { V&a=G(f,I.a),&b=G(f,I.b); if(!a.e&&!b.e){ V r; r.lo=a.lo&b.lo; r.hi=a.hi&b.hi; f->r[I.dst]=r; } else f->r[I.dst]=vmk(C.band(X(a,I.w),X(b,I.w))); f->ip++; break; }
      case I_OR: { V&a=G(f,I.a),&b=G(f,I.b); if(!a.e&&!b.e){ V r; r.lo=a.lo|b.lo; r.hi=a.hi|b.hi; f->r[I.dst]=r; } else f->r[I.dst]=vmk(C.bor(X(a,I.w),X(b,I.w))); f->ip++; break; }
      case I_XOR: { V&a=G(f,I.a),&b=G(f,I.b); if(!a.e&&!b.e){ V r; r.lo=a.lo^b.lo; r.hi=a.hi^b.hi; f->r[I.dst]=r; } else f->r[I.dst]=vmk(C.bxor(X(a,I.w),X(b,I.w))); f->ip++; break; }
      case I_MUL: { V&a=G(f,I.a),&b=G(f,I.b); if(!a.e&&!b.e){ if(I.w<=64) f->r[I.dst]=vc((a.lo*b.lo)&maskw(I.w)); else f->r[I.dst]=vcw(cat(a)*cat(b),I.w); } else f->r[I.dst]=vmk(C.mul(X(a,I.w),X(b,I.w))); f->ip++; break; }
      case I_UDIV: case I_SDIV: case I_UREM: case I_SREM: { V&a=G(f,I.a),&b=G(f,I.b); static const Op m[]={UDIV,SDIV,UREM,SREM}; Op o=m[I.op-I_UDIV];
        if(b.e){ MP mm; Expr* z=C.eq(b.e,C.constant(I.w,0)); if(z!=C.F&&feas(s,{z},mm)) violate(s,"arith","division by zero",mm); } else if(!b.lo&&!b.hi) violate(s,"arith","division by zero",s->model);
        if(!a.e&&!b.e) f->r[I.dst]=vcw(ExprCtx::foldbin(o,I.w,cat(a),cat(b)),I.w); else f->r[I.dst]=vmk(C.bin(o,X(a,I.w),X(b,I.w))); f->ip++; break; }
      case I_SHL: case I_LSHR: case I_ASHR: { V&a=G(f,I.a),&b=G(f,I.b); unsigned w=I.w; Op o=I.op==I_SHL?SHL:I.op==I_LSHR?LSHR:ASHR;
        if(!b.e){ unsigned k=b.lo; if(b.lo>=w||b.hi){ if(warned.insert("shift>=width in "+f->f->name).second&&verbose) fprintf(stderr,"note: over-wide shift in %s\n",where(s).c_str()); k=b.lo&(w<=32?31:w-1); if(k>=w) k=w-1; }
          if(!a.e&&w<=64){ u64 r= o==SHL? (a.lo<<k)&maskw(w) : o==LSHR? a.lo>>k : (u64)(sx(a.lo,w)>>k)&maskw(w); f->r[I.dst]=vc(r); } else if(!a.e) f->r[I.dst]=vcw(ExprCtx::foldbin(o,w,cat(a),k),w); else f->r[I.dst]=vmk(C.bin(o,a.e,C.constant(w,k))); }
        else { Expr* k=b.e; if(w<=64&&k->hi>=w){ if((w&(w-1))==0&&w>=32) k=C.band(k,C.constant(w,w-1)); } f->r[I.dst]=vmk(C.bin(o,X(a,w),k)); }
        f->ip++; break; }
      case I_ICMP: { V&a=G(f,I.a),&b=G(f,I.b); unsigned w=I.w; using P=llvm::CmpInst; 
        if(!a.e&&!b.e){ bool r; if(w<=64){ i64 x=sx(a.lo,w),y=sx(b.lo,w); switch(I.sub){ case P::ICMP_EQ: r=a.lo==b.lo;break; case P::ICMP_NE: r=a.lo!=b.lo;break; case P::ICMP_ULT: r=a.lo<b.lo;break; case P::ICMP_ULE: r=a.lo<=b.lo;break; case P::ICMP_UGT: r=a.lo>b.lo;break; case P::ICMP_UGE: r=a.lo>=b.lo;break; case P::ICMP_SLT: r=x<y;break; case P::ICMP_SLE: r=x<=y;break; case P::ICMP_SGT: r=x>y;break; default: r=x>=y; } }
          else { u128 ua=cat(a),ub=cat(b); i128 x=sx128(ua,w),y=sx128(ub,w); switch(I.sub){ case P::ICMP_EQ: r=ua==ub;break; case P::ICMP_NE: r=ua!=ub;break; case P::ICMP_ULT: r=ua<ub;break; case P::ICMP_ULE: r=ua<=ub;break; case P::ICMP_UGT: r=ua>ub;break; case P::ICMP_UGE: r=ua>=ub;break; case P::ICMP_SLT: r=x<y;break; case P::ICMP_SLE: r=x<=y;break; case P::ICMP_SGT: r=x>y;break; default: r=x>=y; } }
          f->r[I.dst]=vc(r); }
        else { Expr*x=X(a,w),*y=X(b,w),*r; switch(I.sub){ case P::ICMP_EQ: r=C.eq(x,y);break; case P::ICMP_NE: r=C.lnot(C.eq(x,y));break; case P::ICMP_ULT: r=C.ult(x,y);break; case P::ICMP_ULE: r=C.lnot(C.ult(y,x));break; case P::ICMP_UGT: r=C.ult(y,x);break; case P::ICMP_UGE: r=C.lnot(C.ult(x,y));break; case P::ICMP_SLT: r=C.slt(x,y);break; case P::ICMP_SLE: r=C.lnot(C.slt(y,x));break; case P::ICMP_SGT: r=C.slt(y,x);break; default: r=C.lnot(C.slt(x,y)); } f->r[I.dst]=vmk(r); }
        f->ip++; break; }
      case I_SELECT: { V&c=G(f,I.a); if(!c.e) f->r[I.dst]=c.lo?G(f,I.b):G(f,I.c); else f->r[I.dst]=vmk(C.ite(c.e,X(G(f,I.b),I.w),X(G(f,I.c),I.w))); f->ip++; break; }
      case I_TRUNC: { V&a=G(f,I.a); if(a.e) f->r[I.dst]=vmk(C.extract(a.e,0,I.w)); else if(I.w<=64) f->r[I.dst]=vc(a.lo&maskw(I.w)); else f->r[I.dst]=vcw(cat(a),I.w); f->ip++; break; }
      case I_ZEXT: { V&a=G(f,I.a); if(a.e) f->r[I.dst]=vmk(C.zext(a.e,I.w)); else f->r[I.dst]=a; f->ip++; break; }
      case I_SEXT: { V&a=G(f,I.a); if(a.e) f->r[I.dst]=vmk(C.sext(a.e,I.w)); else f->r[I.dst]=vcw((u128)sx128(cat(a),I.w2),I.w); f->ip++; break; }
      case I_MOV: { V t=G(f,I.a); f->r[I.dst]=t; f->ip++; break; }
      case I_COPY: { size_t n=I.ops.size(); if(n<=8){ V t[8]; for(size_t i=0;i<n;i++) t[i]=G(f,I.ops[i]); for(size_t i=0;i<n;i++) f->r[I.dst+i]=t[i]; } else { std::vector<V> t(n); for(size_t i=0;i<n;i++) t[i]=G(f,I.ops[i]); for(size_t i=0;i<n;i++) f->r[I.dst+i]=t[i]; } f->ip++; break; }
      case I_GEP: { V&b=G(f,I.a); u64 k=I.imm; bool sy=b.e!=nullptr; for(size_t i=0;i<I.gep.size();i++){ V&x=G(f,I.gep[i].first); if(x.e) sy=true; else k+=I.gep[i].second*(u64)sx(x.lo,I.cases[i]); }
        if(!sy) f->r[I.dst]=vc(b.lo+k); else { std::vector<Term> t; if(b.e) t.push_back({b.e,1}); else k+=b.lo; for(size_t i=0;i<I.gep.size();i++){ V&x=G(f,I.gep[i].first); if(x.e) t.push_back({C.sext(x.e,64),I.gep[i].second}); } f->r[I.dst]=vmk(C.sum(64,t,k)); } f->ip++; break; }
      case I_LOAD: { V a=G(f,I.a); if(I.sub&&s->frz){ cc(a); s->frzlock+=GUARD; f->r[I.dst]=loadC(s,a.lo,I.leaves[0].first); s->frzlock-=GUARD; f->ip++; break; } if(I.leaves.size()==1){ V v=a.e?loadS(s,a.e,I.leaves[0].first):loadC(s,a.lo,I.leaves[0].first); f->r[I.dst]=v; } else { cc(a); for(size_t i=0;i<I.leaves.size();i++) f->r[I.dst+i]=loadC(s,a.lo+I.leaves[i].second,I.leaves[i].first); } f->ip++; break; }
      case I_STORE: { V a=G(f,I.a); if(I.sub&&a.e) cc(a); struct AL{ State* s; int k; AL(State* t,int x):s(t),k(x){ s->frzlock+=k; } ~AL(){ s->frzlock-=k; } } al(s,I.sub&&s->frz?(int)GUARD:0); if(I.leaves.size()==1){ if(a.e) storeS(s,a.e,I.leaves[0].first,G(f,I.ops[0])); else storeC(s,a.lo,I.leaves[0].first,G(f,I.ops[0])); } else { cc(a); for(size_t i=0;i<I.leaves.size();i++) storeC(s,a.lo+I.leaves[i].second,I.leaves[i].first,G(f,I.ops[i])); } f->ip++; break; }
      case I_ALLOCA: { V n=G(f,I.a); cc(n); u64 a=allocObj(s,O_STACK,I.imm*n.lo,0); f->allocas.push_back(a); f->r[I.dst]=vc(a); f->ip++; break; }
      case I_INTR: intrinsic(s,f,I); f->ip++; break;
      case I_NOP: f->ip++; break;
      case I_BR: takeEdge(f,I.edges[0]); if((int)s->fr.size()==sd&&f->bb==sb) return R_STOP; break;
      case I_CBR: { V&c=G(f,I.a); if(!c.e){ takeEdge(f,I.edges[c.lo?0:1]); } else { Expr* e=c.e; std::vector<std::pair<Expr*,int>> alts{{e,0},{C.lnot(e),1}}; if(forkEdges(s,alts,I,fk)) return R_FORK; f=s->top(); } if((int)s->fr.size()==sd&&f->bb==sb) return R_STOP; break; }
      case I_SWITCH: { V c=G(f,I.a); if(!c.e){ int t=0; for(size_t i=0;i<I.cases.size();i++) if(I.cases[i]==c.lo){ t=i+1; break; } takeEdge(f,I.edges[t]); }
        else { std::vector<std::pair<Expr*,int>> alts; std::map<int,int> byt; Expr* rest=C.T; std::vector<Expr*> conds; 
          // group cases with same target and no phi moves
          for(size_t i=0;i<I.cases.size();i++){ Expr* e=C.eq(c.e,C.constant(I.w,I.cases[i])); rest=C.land(rest,C.lnot(e)); if(e==C.F) continue; int t=I.edges[i+1].target; auto it=byt.find(t); if(it!=byt.end()&&I.edges[i+1].moves==I.edges[alts[it->second].second].moves) alts[it->second].first=C.lor(alts[it->second].first,e); else { byt[t]=alts.size(); alts.push_back({e,(int)i+1}); } }
          if(rest!=C.F){ auto it=byt.find(I.edges[0].target); if(it!=byt.end()&&I.edges[0].moves==I.edges[alts[it->second].second].moves) alts[it->second].first=C.lor(alts[it->second].first,rest); else alts.push_back({rest,0}); }
          if(forkEdges(s,alts,I,fk)) return R_FORK; f=s->top(); }
        if((int)s->fr.size()==sd&&f->bb==sb) return R_STOP; break; }
      case I_CALL: case I_CALLI: {
        Func* F; if(I.op==I_CALL) F=(Func*)I.p; else { V t=G(f,I.a); 
            if(t.e){ throw NeedConc{t.e,64}; }
            Obj* o=s->mem.get(oid(t.lo)); if(!o||o->kind!=O_FUNC||ooff(t.lo)) violate(s,"memory","call through invalid function pointer",s->model); F=(Func*)o->aux; }
        std::vector<V> A; A.reserve(I.ops.size()); for(int o:I.ops) A.push_back(G(f,o));
        if(s->norm&&F->isrm){ if(I.c>0&&I.dst>=0) f->r[I.dst]=vc(0); if(I.edges.size()){ takeEdge(f,I.edges[0]); if((int)s->fr.size()==sd&&f->bb==sb) return R_STOP; } else f->ip++; break; } // the other thread has not come to removing its files yet
        if(F->summ){ bool sy=false; for(auto&x:A) if(x.e) sy=true; V r; if(sy&&summary(s,F,A,r)){ summused[F->name]++; if(I.c>0&&I.dst>=0) f->r[I.dst]=r; if(I.edges.size()){ takeEdge(f,I.edges[0]); if((int)s->fr.size()==sd&&f->bb==sb) return R_STOP; } else f->ip++; break; } }
        if(F->builtin>=0){ V ret[2]; Ctl::K k=builtin(s,F,I,A,ret); if(k==Ctl::DEAD) return R_DEAD; if(k==Ctl::THROW){ unwind(s); f=s->top(); if(atStop(s,sd,-1)) return R_STOP; break; } f=s->top(); if(I.c>0&&I.dst>=0) f->r[I.dst]=ret[0]; if(I.edges.size()){ takeEdge(f,I.edges[0]); if((int)s->fr.size()==sd&&f->bb==sb) return R_STOP; } else f->ip++; break; }
        if(F->isdecl) eerr("call of unmodelled external function "+F->name+" at "+where(s));
        pushFrame(s,F,I.dst,A.data(),A.size()); f=s->top(); break; }
      case I_RET: { size_t n=I.ops.size(); V t[8]; if(n>8) eerr("wide return"); for(size_t i=0;i<n;i++) t[i]=G(f,I.ops[i]); int dst=f->retdst; popFrame(s); if(s->fr.empty()) return R_STOP; f=s->top(); Inst& K=f->f->code[f->ip]; if(dst>=0) for(size_t i=0;i<n;i++) f->r[dst+i]=t[i]; if(K.edges.size()) takeEdge(f,K.edges[0]); else f->ip++; if(atStop(s,sd,sb)) return R_STOP; break; }
      case I_RESUME: { V e=G(f,I.a); cc(e); s->cur={e.lo,exctype[e.lo]}; unwind(s); } f=s->top(); if(atStop(s,sd,-1)) return R_STOP; break;
      case I_LPAD: f->ip++; break; // entered only through unwind(), which sets the registers
      case I_UNREACH: violate(s,"unreachable","unreachable code executed",s->model);
      case I_FBIN: { V&a=G(f,I.a),&b=G(f,I.b); cc(a); cc(b); double x=fdec(a,I.w),y=fdec(b,I.w),z; using namespace llvm; if(I.w==32){ float p=x,q=y,r; switch(I.sub){ case Instruction::FAdd:r=p+q;break; case Instruction::FSub:r=p-q;break; case Instruction::FMul:r=p*q;break; case Instruction::FDiv:r=p/q;break; default:r=fmodf(p,q);} z=r; } else switch(I.sub){ case Instruction::FAdd:z=x+y;break; case Instruction::FSub:z=x-y;break; case Instruction::FMul:z=x*y;break; case Instruction::FDiv:z=x/y;break; default:z=fmod(x,y);} f->r[I.dst]=fenc(z,I.w); f->ip++; break; }
      case I_FNEG: { V a=G(f,I.a); cc(a); f->r[I.dst]=fenc(-fdec(a,I.w),I.w); f->ip++; break; }
      case I_FCMP: { V&a=G(f,I.a),&b=G(f,I.b); cc(a); cc(b); double x=fdec(a,I.w),y=fdec(b,I.w); using P=llvm::CmpInst; bool un=std::isnan(x)||std::isnan(y),r; switch(I.sub){ case P::FCMP_OEQ:r=!un&&x==y;break; case P::FCMP_OGT:r=!un&&x>y;break; case P::FCMP_OGE:r=!un&&x>=y;break; case P::FCMP_OLT:r=!un&&x<y;break; case P::FCMP_OLE:r=!un&&x<=y;break; case P::FCMP_ONE:r=!un&&x!=y;break; case P::FCMP_ORD:r=!un;break; case P::FCMP_UNO:r=un;break; case P::FCMP_UEQ:r=un||x==y;break; case P::FCMP_UGT:r=un||x>y;break; case P::FCMP_UGE:r=un||x>=y;break; case P::FCMP_ULT:r=un||x<y;break; case P::FCMP_ULE:r=un||x<=y;break; case P::FCMP_UNE:r=un||x!=y;break; case P::FCMP_TRUE:r=true;break; default:r=false; } f->r[I.dst]=vc(r); f->ip++; break; }
      case I_FCAST: { V a=G(f,I.a); cc(a,1100); using namespace llvm; V r; switch(I.sub){ case Instruction::FPToSI: r=vc((u64)(i64)fdec(a,I.w2)&maskw(I.w)); break; case Instruction::FPToUI: { double d=fdec(a,I.w2); r=vc((d>=9.2e18?(u64)d:(u64)(i64)d)&maskw(I.w)); break; } case Instruction::SIToFP: r=I.w==32?fenc((float)sx(a.lo,I.w2),32):fenc((double)sx(a.lo,I.w2),64); break; case Instruction::UIToFP: r=I.w==32?fenc((float)a.lo,32):fenc((double)a.lo,64); break; case Instruction::FPTrunc: r=fenc((float)fdec(a,I.w2),I.w); break; default: r=fenc(fdec(a,I.w2),I.w); } f->r[I.dst]=r; f->ip++; break; }
      case I_CMPXCHG: { V a=G(f,I.a); s->frzlock+=GUARD; V old=load(s,a,I.w); s->frzlock-=GUARD; V ex=G(f,I.b),nv=G(f,I.c); cc(old); cc(ex); bool eq=old.lo==ex.lo; s->frzlock+=GUARD; if(eq) store(s,a,I.w,nv); s->frzlock-=GUARD; f->r[I.dst]=old; f->r[I.dst+1]=vc(eq); f->ip++; break; }
      case I_RMW: { V a=G(f,I.a); s->frzlock+=GUARD; V old=load(s,a,I.w); s->frzlock-=GUARD; V b=G(f,I.b); Expr*x=X(old,I.w),*y=X(b,I.w),*r; using R=llvm::AtomicRMWInst; switch(I.sub){ case R::Xchg:r=y;break; case R::Add:r=C.add(x,y);break; case R::Sub:r=C.sub(x,y);break; case R::And:r=C.band(x,y);break; case R::Or:r=C.bor(x,y);break; case R::Xor:r=C.bxor(x,y);break; default: eerr("atomicrmw"); } s->frzlock+=GUARD; store(s,a,I.w,vmk(r)); s->frzlock-=GUARD; f->r[I.dst]=old; f->ip++; break; }
      case I_UNSUP: eerr(std::string("unsupported instruction: ")+(I.p?(char*)I.p:"?")+" at "+where(s));
      default: eerr("bad op");
    }
  }
}
void run(State* s0,int sd,int sb,std::vector<State*>& out){
  std::vector<State*> work{s0};
  while(!work.empty()){
    State* s=work.back(); work.pop_back();
    if(atStop(s,sd,sb)){ out.push_back(s); continue; }
    Fork fk; Status r;
    try { r=step(s,sd,sb,fk); }
    catch(NeedConc& nc){
      Frame* f=s->top(); std::vector<std::pair<u64,MP>> vals; std::vector<Expr*> ex; MP m=s->model; if(nc.e->w>64) eerr("concretise wide");
      while(true){ mfix(*m); C.evbegin(); u64 v=(u64)C.eval(nc.e,*m); vals.push_back({v,m}); if((int)vals.size()>nc.cap) throw Inconclusive{"too many values to enumerate ("+C.str(nc.e,3)+") at "+where(s)}; ex.push_back(C.lnot(C.eq(nc.e,C.constant(nc.e->w,v)))); MP m2; if(!feas(s,ex,m2)) break; m=m2; }
      bool found=false; for(auto&x:f->r) if(x.e==nc.e) found=true; if(!found) eerr("concretise: expression not in a register at "+where(s));
      nforks++; nstates+=vals.size()-1; timecheck(); std::sort(vals.begin(),vals.end(),[](auto&a,auto&b){ return a.first>b.first; });
      std::vector<State*> kids; for(size_t i=0;i<vals.size();i++){ State* k=i+1<vals.size()?s->clone():s; kids.push_back(k); }
      for(size_t i=0;i<vals.size();i++){ State* k=kids[i]; k->model=vals[i].second; addpc(k,C.eq(nc.e,C.constant(nc.e->w,vals[i].first))); k->own(); for(auto&x:k->top()->r) if(x.e==nc.e) x=vc(vals[i].first); work.push_back(k); }
      continue; }
    if(r==R_STOP){ out.push_back(s); continue; }
    if(r==R_DEAD){ delete s; continue; }
    if(!fk.join){ for(int i=(int)fk.kids.size()-1;i>=0;i--) work.push_back(fk.kids[i]); continue; }
    std::vector<State*> res; for(auto k:fk.kids) run(k,fk.jd,fk.jb,res);
    // merge results with equal position
    std::vector<State*> fin; for(auto x:res){ bool m=false; for(auto y:fin) if(tryMerge(y,x)){ delete x; m=true; break; } if(!m) fin.push_back(x); }
    for(int i=(int)fin.size()-1;i>=0;i--) work.push_back(fin[i]);
  }
}
#include "main.hpp"
