// QF_BV decision procedure: word-level simplification (expr.hpp) + bit-blasting with structural
// hashing + incremental CDCL.  Property queries can be cross-checked with Z3.
#pragma once
#include "expr.hpp"
#include "sat.h"
#include <chrono>
#include <set>
#include <unistd.h>
#include <z3.h>
struct Solver {
  ExprCtx& C; SatIf* S;
  struct Node { int ch[3]; int n; };
  std::vector<Node> nodes;            // per SAT variable
  std::unordered_map<u64,int> strash; // gates
  std::vector<std::vector<int>> cache; // per Expr id: literals (empty = not yet)
  std::vector<std::vector<int>> varbits;
  int TRUE_;
  double tlimit=60; double total=0; u64 nq=0,nsat=0,nunsat=0,nunk=0,cachehits=0,modelhits=0,maxms=0;
  double now(){ return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
  Solver(ExprCtx& c):C(c){ S=sat_new(); TRUE_=2*nv(); int t=TRUE_; addcl(&t,1); }
  int nv(int a=-1,int b=-1,int c=-1){ int v=sat_newvar(S); Node n{{a,b,c},a<0?0:b<0?1:c<0?2:3}; if((int)nodes.size()<=v) nodes.resize(v+1); nodes[v]=n; return v; }
  std::vector<int> cstore; std::vector<std::pair<u64,u64>> crange; // clauses (0-terminated, lit+1) by newest variable at creation
  void addcl(const int* l,int n){ sat_clause(S,l,n); size_t v=nodes.size()-1; if(crange.size()<=v) crange.resize(v+1,{0,0}); auto& r=crange[v]; if(r.second==0) r.first=cstore.size(); for(int i=0;i<n;i++) cstore.push_back(l[i]+1); cstore.push_back(0); r.second=cstore.size(); }
  void cl(std::initializer_list<int> l){ addcl(l.begin(),l.size()); }
  int FALSE_(){ return TRUE_^1; }
  int And(int a,int b){
    if(a==TRUE_) return b; if(b==TRUE_) return a; if(a==FALSE_()||b==FALSE_()||a==(b^1)) return FALSE_(); if(a==b) return a;
    if(a>b) std::swap(a,b); u64 k=((u64)a<<32|(u32)b)*4; auto it=strash.find(k); if(it!=strash.end()) return it->second;
    int g=2*nv(a>>1,b>>1); cl({g^1,a}); cl({g^1,b}); cl({g,a^1,b^1}); return strash[k]=g; }
  int Or(int a,int b){ return And(a^1,b^1)^1; }
  int Xor(int a,int b){
    if(a==TRUE_) return b^1; if(b==TRUE_) return a^1; if(a==FALSE_()) return b; if(b==FALSE_()) return a; if(a==b) return FALSE_(); if(a==(b^1)) return TRUE_;
    int s=(a&1)^(b&1); a&=~1; b&=~1; if(a>b) std::swap(a,b); u64 k=((u64)a<<32|(u32)b)*4+1; auto it=strash.find(k); if(it!=strash.end()) return it->second^s;
    int g=2*nv(a>>1,b>>1); cl({g^1,a,b}); cl({g^1,a^1,b^1}); cl({g,a^1,b}); cl({g,a,b^1}); strash[k]=g; return g^s; }
  std::unordered_map<u64,std::unordered_map<u64,int>> t3;
  int Mux(int c,int a,int b){ // c?a:b
    if(c==TRUE_) return a; if(c==FALSE_()) return b; if(a==b) return a; if(c&1){ c^=1; std::swap(a,b); }
    if(a==TRUE_||a==c) return Or(c,b); if(a==FALSE_()||a==(c^1)) return And(c^1,b); if(b==TRUE_||b==(c^1)) return Or(c^1,a); if(b==FALSE_()||b==c) return And(c,a);
    if(a==(b^1)) return Xor(c,b);
    int s=a&1; a^=s; b^=s; u64 k=((u64)a<<32|(u32)b)*4+2; auto& m=t3[k]; auto it=m.find(c); if(it!=m.end()) return it->second^s;
    int g=2*nv(c>>1,a>>1,b>>1); cl({c^1,a^1,g}); cl({c^1,a,g^1}); cl({c,b^1,g}); cl({c,b,g^1}); cl({a^1,b^1,g}); cl({a,b,g^1}); m[c]=g; return g^s; }
  int Maj(int a,int b,int c){
    if(a>b) std::swap(a,b); if(b>c) std::swap(b,c); if(a>b) std::swap(a,b);
    if(a==b) return a; if(b==c) return b; if(a==(b^1)) return c; if(b==(c^1)) return a;
    for(int* p:{&a,&b,&c}) if(*p==TRUE_||*p==FALSE_()){ int o[2],n=0; for(int q:{a,b,c}) if(&*p&&q!=*p) { if(n<2) o[n++]=q; } return *p==TRUE_?Or(o[0],o[1]):And(o[0],o[1]); }
    u64 k=((u64)a<<32|(u32)b)*4+3; auto& m=t3[k]; auto it=m.find(c); if(it!=m.end()) return it->second;
    int g=2*nv(a>>1,b>>1,c>>1); cl({a^1,b^1,g}); cl({a^1,c^1,g}); cl({b^1,c^1,g}); cl({a,b,g^1}); cl({a,c,g^1}); cl({b,c,g^1}); m[c]=g; return g; }
  typedef std::vector<int> LV;
  LV constv(unsigned w,u128 v){ LV r(w); for(unsigned i=0;i<w;i++) r[i]=(v>>i)&1?TRUE_:FALSE_(); return r; }
  // sum the columns (column i holds literals of weight 2^i)
  LV columns(std::vector<LV>& col,unsigned w,u64 k){
    LV r(w); col.resize(w+1);
    // fold constants
    u64 kk=k; 
    for(unsigned i=0;i<w;i++){ LV q; for(int l:col[i]){ if(l==TRUE_) kk+=1ULL<<i; else if(l!=FALSE_()) q.push_back(l); } col[i]=q; }
    for(unsigned i=0;i<w;i++) if(kk>>i&1) col[i].push_back(TRUE_);
    for(unsigned i=0;i<w;i++){
      auto& q=col[i]; std::sort(q.begin(),q.end());
      // duplicates / complements
      size_t h=0;
      while(q.size()-h>=3){ int a=q[h],b=q[h+1],c=q[h+2]; h+=3; int s=Xor(Xor(a,b),c); int m=Maj(a,b,c); q.push_back(s); if(i+1<w&&m!=FALSE_()) col[i+1].push_back(m); }
      if(q.size()-h==2){ int a=q[h],b=q[h+1]; r[i]=Xor(a,b); int m=And(a,b); if(i+1<w&&m!=FALSE_()) col[i+1].push_back(m); }
      else if(q.size()-h==1) r[i]=q[h]; else r[i]=FALSE_();
    }
    return r;
  }
  LV addv(const LV& a,const LV& b,int cin){ LV r(a.size()); int c=cin; for(size_t i=0;i<a.size();i++){ r[i]=Xor(Xor(a[i],b[i]),c); c=Maj(a[i],b[i],c); } return r; }
  LV negv(LV a){ for(int& x:a) x^=1; return addv(a,constv(a.size(),0),TRUE_); }
  int ultv(const LV& a,const LV& b){ int lt=FALSE_(); for(size_t i=0;i<a.size();i++) lt=Mux(Xor(a[i],b[i]),b[i],lt); return lt; }
  void divrem(const LV& a,const LV& b,LV& q,LV& r){ unsigned w=a.size(); q.assign(w,FALSE_()); LV R=constv(w+1,0); LV B=b; B.push_back(FALSE_());
    for(int i=w-1;i>=0;i--){ for(unsigned j=w;j>0;j--) R[j]=R[j-1]; R[0]=a[i]; int ge=ultv(R,B)^1; q[i]=ge; LV nb=B; for(int&x:nb) x^=1; LV D=addv(R,nb,TRUE_); for(unsigned j=0;j<=w;j++) R[j]=Mux(ge,D[j],R[j]); }
    R.resize(w); r=R; }
  LV shiftv(Op op,const LV& a,const LV& b){ unsigned w=a.size(); LV r=a; int fill=op==ASHR?a[w-1]:FALSE_(); 
    for(unsigned i=0;(1u<<i)<w;i++){ unsigned s=1u<<i; LV t(w); for(unsigned j=0;j<w;j++){ int x= op==SHL? (j>=s?r[j-s]:FALSE_()) : (j+s<w?r[j+s]:fill); t[j]=Mux(b[i],x,r[j]); } r=t; }
    int big=FALSE_(); unsigned lg=0; while((1u<<lg)<w) lg++; for(unsigned i=lg;i<b.size();i++) big=Or(big,b[i]);
    if((1u<<lg)!=w){ LV lw=constv(b.size(),w); big=Or(big,ultv(b,lw)^1); }
    for(unsigned j=0;j<w;j++) r[j]=Mux(big,fill,r[j]); return r; }
  // u[lo..hi): sorted (ones first); number of ones in binary
  LV unary2bin(const LV& u,size_t lo,size_t hi){ size_t n=hi-lo; if(n==0) return LV(); unsigned k=0; while((2ULL<<k)<=n) k++; size_t p=1ULL<<k; // top bit: at least p ones
    int t=u[lo+p-1]; LV L=unary2bin(u,lo,lo+p-1),H=unary2bin(u,lo+p,hi); L.resize(k,FALSE_()); H.resize(k,FALSE_()); LV r(k+1); for(unsigned i=0;i<k;i++) r[i]=Mux(t,H[i],L[i]); r[k]=t; return r; }
  const LV& blast(Expr* e){
    if(cache.size()<=e->id) cache.resize(std::max<size_t>(C.all.size(),e->id+1)+1024);
    if(!cache[e->id].empty()) return cache[e->id];
    LV r; unsigned w=e->w;
    switch(e->op){
      case CONST: r=constv(w,ExprCtx::cv(e)); break;
      case VAR: { auto& vi=C.vars[e->k]; int first=-1,prev=-1; bool ranged=vi.lo>0||vi.hi<maskw(w); 
        if(varbits.size()<=e->k) varbits.resize(e->k+1);
        for(unsigned i=0;i<w;i++){ int v=nv(); if(i==0) first=v; else if(ranged) nodes[v]={{prev,-1,-1},1}; prev=v; r.push_back(2*v); }
        if(ranged&&w>1) nodes[first]={{prev,-1,-1},1}; // ring: one bit pulls in all
        for(unsigned i=0;i<w;i++){ if(!(vi.hi>>i&1)){ LV c{r[i]^1}; for(unsigned j=i+1;j<w;j++) if(vi.hi>>j&1) c.push_back(r[j]^1); addcl(c.data(),c.size()); }
                                   if(vi.lo>>i&1){ LV c{r[i]}; for(unsigned j=i+1;j<w;j++) if(!(vi.lo>>j&1)) c.push_back(r[j]); addcl(c.data(),c.size()); } }
        varbits[e->k]=r; break; }
      case SUM: { std::vector<LV> col(w+1); u64 k=e->k;
        // counts of single bits: one counter chain in canonical bit order, so that prefix counts share gates
        std::vector<std::pair<LV,u64>> terms; std::map<u64,std::vector<std::pair<std::pair<u64,u64>,Expr*>>> grp;
        for(u32 i=0;i<e->n;i++){ Expr* x=e->t[i].e; if(x->op==ZEXT&&x->a->w==1){ Expr* y=x->a; u64 pos=0; while(y->op==EXTRACT||y->op==XOR||y->op==AND){ if(y->op==EXTRACT) pos=y->k; y=y->a; } grp[e->t[i].c].push_back({{y->op==VAR?y->k:y->vs->v.empty()?0:y->vs->v[0],pos*(1ULL<<32)+x->id},x->a}); } else terms.push_back({blast(x),e->t[i].c}); }
        for(auto& g:grp){ auto& v=g.second; if(v.size()<3){ for(auto&q:v){ LV x=blast(q.second); x.resize(w,FALSE_()); terms.push_back({x,g.first}); } continue; }
          std::sort(v.begin(),v.end()); LV acc; // unary counters of 96 inputs each, added up in binary
          for(size_t b0=0;b0<v.size();b0+=96){ LV u; for(size_t i=b0;i<v.size()&&i<b0+96;i++){ int c=blast(v[i].second)[0]; u.push_back(FALSE_()); for(int j=(int)u.size()-1;j>=0;j--) u[j]=Or(u[j],j?And(u[j-1],c):c); for(size_t j=1;j<u.size();j++) if(sorted.insert({u[j],u[j-1]}).second) cl({u[j]^1,u[j-1]}); }
            LV bn=unary2bin(u,0,u.size()); if(b0==0) acc=bn; else { size_t z=std::max(acc.size(),bn.size())+1; acc.resize(z,FALSE_()); bn.resize(z,FALSE_()); acc=addv(acc,bn,FALSE_()); } }
          acc.resize(std::max<size_t>(w,acc.size()),FALSE_()); acc.resize(w); terms.push_back({acc,g.first}); }
        for(auto& tm:terms){ LV x=tm.first; u64 c=tm.second; 
          // known-zero bits give FALSE; NAF recoding of the coefficient
          i128 cc=sx(c,w); int pos=0; 
          while(cc!=0&&pos<(int)w){ if(cc&1){ int d=2-(int)(cc&3); // 1 or -1
              if(w-pos<=1) d=1;
              if(d==1){ for(unsigned j=0;j+pos<w;j++) col[j+pos].push_back(x[j]); cc-=1; }
              else { // -(x<<pos) = (~x<<pos) + (1<<pos)  with sign-extension ones above: ~x over w-pos bits
                // only significant bits of x need inversion; constant ones folded into k
                for(unsigned j=0;j+pos<w;j++) col[j+pos].push_back(x[j]^1); k+=1ULL<<pos; cc+=1; } }
            cc>>=1; pos++; } }
        r=columns(col,w,k&maskw(w)); break; }
      case MUL: { LV a=blast(e->a),b=blast(e->b); std::vector<LV> col(w+1); 
        if(w<=64){ for(unsigned i=0;i<w;i++) if(b[i]!=FALSE_()) for(unsigned j=0;i+j<w;j++){ int g=And(a[j],b[i]); if(g!=FALSE_()) col[i+j].push_back(g); } r=columns(col,w,0); }
        else { LV acc=constv(w,0); for(unsigned i=0;i<w;i++) if(b[i]!=FALSE_()){ LV t(w,FALSE_()); for(unsigned j=0;i+j<w;j++) t[i+j]=And(a[j],b[i]); acc=addv(acc,t,FALSE_()); } r=acc; }
        break; }
      case UDIV: case UREM: case SDIV: case SREM: { LV a=blast(e->a),b=blast(e->b),q,m; bool s=e->op==SDIV||e->op==SREM; int sa=a[w-1],sb=b[w-1];
        int bz=TRUE_; for(int x:b) bz=And(bz,x^1); LV a0=a;
        if(s){ LV na=negv(a),nb=negv(b); for(unsigned i=0;i<w;i++){ a[i]=Mux(sa,na[i],a[i]); b[i]=Mux(sb,nb[i],b[i]); } }
        divrem(a,b,q,m);
        if(e->op==SDIV){ LV n=negv(q); int s2=Xor(sa,sb); for(unsigned i=0;i<w;i++) q[i]=Mux(s2,n[i],q[i]); LV one=constv(w,1),mone=constv(w,~(u128)0); for(unsigned i=0;i<w;i++) q[i]=Mux(bz,Mux(sa,one[i],mone[i]),q[i]); }
        if(e->op==SREM){ LV n=negv(m); for(unsigned i=0;i<w;i++) m[i]=Mux(sa,n[i],m[i]); for(unsigned i=0;i<w;i++) m[i]=Mux(bz,a0[i],m[i]); }
        r=(e->op==UDIV||e->op==SDIV)?q:m; break; }
      case AND: case OR: case XOR: { LV a=blast(e->a),b=blast(e->b); for(unsigned i=0;i<w;i++) r.push_back(e->op==AND?And(a[i],b[i]):e->op==OR?Or(a[i],b[i]):Xor(a[i],b[i])); break; }
      case SHL: case LSHR: case ASHR: { LV a=blast(e->a),b=blast(e->b); r=shiftv(e->op,a,b); break; }
      case EQ: { LV a=blast(e->a),b=blast(e->b); int g=TRUE_; for(size_t i=0;i<a.size();i++) g=And(g,Xor(a[i],b[i])^1); r={g}; break; }
      case ULT: { LV a=blast(e->a),b=blast(e->b); r={ultv(a,b)}; break; }
      case SLT: { LV a=blast(e->a),b=blast(e->b); a.back()^=1; b.back()^=1; r={ultv(a,b)}; break; }
      case ITE: { int c=blast(e->a)[0]; LV a=blast(e->b),b=blast(e->c); for(unsigned i=0;i<w;i++) r.push_back(Mux(c,a[i],b[i])); break; }
      case CONCAT: for(u32 i=0;i<e->n;i++){ const LV& x=blast(e->p[i]); r.insert(r.end(),x.begin(),x.end()); } break;
      case EXTRACT: { const LV& a=blast(e->a); r.assign(a.begin()+e->k,a.begin()+e->k+w); break; }
      case ZEXT: { r=blast(e->a); r.resize(w,FALSE_()); break; }
      case SEXT: { r=blast(e->a); r.resize(w,r.back()); break; }
    }
    if(cache.size()<=e->id) cache.resize(C.all.size()+1024);
    return cache[e->id]=r;
  }
  std::set<std::pair<int,int>> sorted;
  std::vector<u32> mark; u32 epoch=0; std::vector<int> on;
  // 1 sat, 0 unsat, -1 unknown ; on sat, values of variables in vs are stored in model
  int solve(const std::vector<Expr*>& conj,std::vector<u64>& model,double limit){
    double t0=now(); nq++;
    LV as; for(auto e:conj){ int l=blast(e)[0]; if(l==FALSE_()){ nunsat++; total+=now()-t0; return 0; } if(l!=TRUE_) as.push_back(l); }
    std::sort(as.begin(),as.end()); as.erase(std::unique(as.begin(),as.end()),as.end());
    for(size_t i=0;i+1<as.size();i++) if(as[i]==(as[i+1]^1)){ nunsat++; total+=now()-t0; return 0; }
    // cone
    mark.resize(nodes.size(),0); epoch++; std::vector<int> st,cone; 
    for(int l:as){ int v=l>>1; if(mark[v]!=epoch){ mark[v]=epoch; st.push_back(v); } }
    while(!st.empty()){ int v=st.back(); st.pop_back(); cone.push_back(v); auto&n=nodes[v]; for(int i=0;i<n.n;i++) if(mark[n.ch[i]]!=epoch){ mark[n.ch[i]]=epoch; st.push_back(n.ch[i]); } }
    for(int v:on) if(mark[v]!=epoch) sat_decision(S,v,false);
    for(int v:cone) sat_decision(S,v,true);
    on.swap(cone);
    int r=-1; long bud=2000; 
    while(r<0){ r=sat_solve(S,as.data(),as.size(),bud); if(r<0&&now()-t0>std::min(limit,extbin.empty()?1e18:extafter)) break; bud=std::min(bud*2,20000L); }
    bool ext=false; if(r<0&&!extbin.empty()&&now()-t0<limit){ r=external(as,limit-(now()-t0)); ext=r==1; }
    if(r==1){ nsat++; model.resize(C.vars.size()); for(size_t i=0;i<C.vars.size();i++){ u64 v=0; bool any=false; if(i<varbits.size()&&!varbits[i].empty()){ for(size_t j=0;j<varbits[i].size();j++){ int x=varbits[i][j]; if(mark[x>>1]==epoch){ any=true; } if(ext?(mark[x>>1]==epoch&&extval[x>>1]):sat_value(S,x>>1)) v|=1ULL<<j; } }
        if(!any) v=C.vars[i].lo; model[i]=v; } 
      inmodel.assign(C.vars.size(),0); for(size_t i=0;i<varbits.size()&&i<C.vars.size();i++) for(int x:varbits[i]) if(mark[x>>1]==epoch) inmodel[i]=1; }
    else if(r==0) nunsat++; else nunk++;
    double dt=now()-t0; total+=dt; if(dt*1000>maxms) maxms=dt*1000; 
    return r;
  }
  // hard queries go to an external CDCL solver (cadical) on the cone of the query
  std::string extbin; double extafter=1.5; u64 extn=0,extsat=0,extunsat=0; double exttime=0; std::vector<char> extval;
  int external(const LV& as,double limit){
    double t0=now(); extn++; char fn[64],fo[80]; snprintf(fn,64,"/tmp/irsymXXXXXX"); int fd=mkstemp(fn); if(fd<0) return -1; FILE* f=fdopen(fd,"w"); snprintf(fo,80,"%s.out",fn);
    u64 nc=as.size()+1; auto incone=[&](u64 a,u64 b){ for(u64 i=a;i<b;i++) if(cstore[i]){ int v=(cstore[i]-1)>>1; if(v!=0&&mark[v]!=epoch) return false; } return true; };
    for(int pass=0;pass<2;pass++){ if(pass) fprintf(f,"p cnf %zu %llu\n",nodes.size(),(unsigned long long)nc);
      for(size_t v=0;v<nodes.size()&&v<crange.size();v++) if(crange[v].second){ u64 a=crange[v].first; while(a<crange[v].second){ u64 b=a; while(cstore[b]) b++; if(incone(a,b)){ if(!pass) nc++; else { for(u64 i=a;i<b;i++){ int l=cstore[i]-1; fprintf(f,"%s%d ",l&1?"-":"",(l>>1)+1); } fprintf(f,"0\n"); } } a=b+1; } } }
    for(int l:as) fprintf(f,"%s%d 0\n",l&1?"-":"",(l>>1)+1); fprintf(f,"%d 0\n",1); fclose(f);
    char cmd[400]; snprintf(cmd,400,"timeout %d %s -q %s > %s 2>/dev/null",(int)std::max(1.0,limit),extbin.c_str(),fn,fo); int rc=system(cmd); (void)rc; int r=-1;
    f=fopen(fo,"r"); if(f){ static char line[1<<16]; while(fgets(line,sizeof line,f)){ if(line[0]=='s'){ if(strstr(line,"UNSAT")) r=0; else if(strstr(line,"SATISFIABLE")){ r=1; extval.assign(nodes.size()+1,0); } } else if(line[0]=='v'){ char* p=line+1; long x; char* e; while((x=strtol(p,&e,10)),e!=p){ if(x>0&&(size_t)x<=nodes.size()) extval[x-1]=1; p=e; } } } fclose(f); }
    unlink(fn); unlink(fo); exttime+=now()-t0; if(r==0) extunsat++; if(r==1) extsat++; return r;
  }
  std::vector<char> inmodel;
  // ---- Z3 cross-check of one query (fresh context): 1 sat 0 unsat -1 unknown
  u64 z3n=0,z3agree=0,z3unk=0; double z3time=0;
  int z3check(const std::vector<Expr*>& conj,double limit){
    double t0=now(); z3n++;
    Z3_config cfg=Z3_mk_config(); Z3_context z=Z3_mk_context(cfg); Z3_del_config(cfg);
    Z3_solver s=Z3_mk_solver_for_logic(z,Z3_mk_string_symbol(z,"QF_BV")); Z3_solver_inc_ref(z,s);
    Z3_params p=Z3_mk_params(z); Z3_params_inc_ref(z,p); Z3_params_set_uint(z,p,Z3_mk_string_symbol(z,"timeout"),(unsigned)(limit*1000)); Z3_solver_set_params(z,s,p); Z3_params_dec_ref(z,p);
    std::unordered_map<Expr*,Z3_ast> memo; 
    auto num=[&](unsigned w,u128 v){ char buf[160]; std::string d; if(v==0) d="0"; while(v){ d.insert(d.begin(),'0'+(int)(v%10)); v/=10; } return Z3_mk_numeral(z,d.c_str(),Z3_mk_bv_sort(z,w)); };
    auto b2v=[&](Z3_ast b){ return Z3_mk_ite(z,b,num(1,1),num(1,0)); };
    std::vector<Z3_ast> side;
    std::function<Z3_ast(Expr*)> tr=[&](Expr* e)->Z3_ast{
      auto it=memo.find(e); if(it!=memo.end()) return it->second; Z3_ast r=nullptr; unsigned w=e->w;
      switch(e->op){
        case CONST: r=num(w,ExprCtx::cv(e)); break;
        case VAR: { auto& vi=C.vars[e->k]; r=Z3_mk_const(z,Z3_mk_int_symbol(z,(int)e->k),Z3_mk_bv_sort(z,w)); if(vi.lo) side.push_back(Z3_mk_bvuge(z,r,num(w,vi.lo))); if(vi.hi<maskw(w)) side.push_back(Z3_mk_bvule(z,r,num(w,vi.hi))); break; }
        case SUM: { r=nullptr; for(u32 i=0;i<e->n;i++){ Z3_ast x=tr(e->t[i].e); if(e->t[i].c!=1) x=Z3_mk_bvmul(z,num(w,e->t[i].c),x); r=r?Z3_mk_bvadd(z,r,x):x; } if(e->k) r=Z3_mk_bvadd(z,r,num(w,e->k)); break; }
        case MUL: r=Z3_mk_bvmul(z,tr(e->a),tr(e->b)); break; case UDIV: r=Z3_mk_bvudiv(z,tr(e->a),tr(e->b)); break; case SDIV: r=Z3_mk_bvsdiv(z,tr(e->a),tr(e->b)); break;
        case UREM: r=Z3_mk_bvurem(z,tr(e->a),tr(e->b)); break; case SREM: r=Z3_mk_bvsrem(z,tr(e->a),tr(e->b)); break;
        case AND: r=Z3_mk_bvand(z,tr(e->a),tr(e->b)); break; case OR: r=Z3_mk_bvor(z,tr(e->a),tr(e->b)); break; case XOR: r=Z3_mk_bvxor(z,tr(e->a),tr(e->b)); break;
        case SHL: r=Z3_mk_bvshl(z,tr(e->a),tr(e->b)); break; case LSHR: r=Z3_mk_bvlshr(z,tr(e->a),tr(e->b)); break; case ASHR: r=Z3_mk_bvashr(z,tr(e->a),tr(e->b)); break;
        case EQ: r=b2v(Z3_mk_eq(z,tr(e->a),tr(e->b))); break; case ULT: r=b2v(Z3_mk_bvult(z,tr(e->a),tr(e->b))); break; case SLT: r=b2v(Z3_mk_bvslt(z,tr(e->a),tr(e->b))); break;
        case ITE: r=Z3_mk_ite(z,Z3_mk_eq(z,tr(e->a),num(1,1)),tr(e->b),tr(e->c)); break;
        case CONCAT: r=tr(e->p[0]); for(u32 i=1;i<e->n;i++) r=Z3_mk_concat(z,tr(e->p[i]),r); break;
        case EXTRACT: r=Z3_mk_extract(z,e->k+w-1,e->k,tr(e->a)); break; case ZEXT: r=Z3_mk_zero_ext(z,w-e->a->w,tr(e->a)); break; case SEXT: r=Z3_mk_sign_ext(z,w-e->a->w,tr(e->a)); break;
      }
      memo[e]=r; return r; };
    for(auto e:conj) Z3_solver_assert(z,s,Z3_mk_eq(z,tr(e),num(1,1)));
    for(auto a:side) Z3_solver_assert(z,s,a);
    Z3_lbool r=Z3_solver_check(z,s); Z3_solver_dec_ref(z,s); Z3_del_context(z); z3time+=now()-t0;
    return r==Z3_L_TRUE?1:r==Z3_L_FALSE?0:-1;
  }
};
