std::string outfile; int exitcode=0; std::string status="ok",detail; std::vector<std::pair<std::string,u64>> cex; std::string vkind;
std::string covstat="not run"; u64 covpaths=0; double covtime=0;
void* worker(void* arg){
  char** av=(char**)arg; std::string bc=av[0];
  tstart=S->now();
  llvm::LLVMContext ctx; llvm::SMDiagnostic err; auto mod=llvm::parseIRFile(bc,err,ctx); if(!mod){ fprintf(stderr,"cannot read %s: %s\n",bc.c_str(),err.getMessage().str().c_str()); exitcode=3; status="error"; detail="cannot read bitcode"; return nullptr; }
  M=mod.get(); DL=&M->getDataLayout(); srcnames.push_back("?"); srcfile.push_back(""); srchit.push_back(0);
  State* s=new State; initmem=&s->mem; s->model=std::make_shared<std::vector<u64>>();
  try {
    for(auto& g:M->globals()) gvaddr(&g); for(auto& f:*M) gvaddr(&f); // every object exists before the first state forks
    for(auto& g:M->globals()) if(g.isDeclaration()&&g.getName().starts_with("_ZTI")){ // type_info of the runtime library: give it its name
      std::string n=g.getName().substr(4).str(); u64 id=nextid++; oname[id]="name of "+n; Obj* o=obj_new(O_GLOBAL,n.size()+1); initmem->put(id,o); o=initmem->getw(id); for(size_t i=0;i<n.size();i++) ((unsigned char*)Mem::pagew(o,i&~7ULL)->d)[i&1023]=n[i];
      Mem::pagew(initmem->getw(oid(gaddr[&g])),8)->d[1]=id<<OFFB; }
    for(auto& g:M->globals()) if(g.hasInitializer()){ if(g.getName()=="llvm.global_ctors"||g.getName()=="llvm.global_dtors"||g.getName()=="llvm.used"||g.getName()=="llvm.compiler.used") continue; initGlobal(gaddr[&g],g.getInitializer()); }
    for(auto& g:M->globals()) if(g.isThreadLocal()||g.getName()=="_ZL9the_errno"||g.getName()=="_ZSt4cerr"||g.getName()=="_ZSt4cout"||g.getName()=="_ZSt4clog") privids.insert(oid(gaddr[&g]));
    for(auto& g:M->globals()) if(g.isConstant()&&g.hasInitializer()) initmem->getw(oid(gaddr[&g]))->ro=true;
    std::vector<std::pair<int,Func*>> ctors;
    if(auto gc=M->getGlobalVariable("llvm.global_ctors")) if(gc->hasInitializer()) if(auto ca=llvm::dyn_cast<llvm::ConstantArray>(gc->getInitializer())) for(auto& o:ca->operands()){ auto cs=llvm::cast<llvm::ConstantStruct>(o); int pr=llvm::cast<llvm::ConstantInt>(cs->getOperand(0))->getZExtValue(); if(auto f=llvm::dyn_cast<llvm::Function>(cs->getOperand(1)->stripPointerCasts())) ctors.push_back({pr,getFunc(f)}); }
    std::stable_sort(ctors.begin(),ctors.end(),[](auto&a,auto&b){ return a.first<b.first; });
    auto mainf=M->getFunction("__sym_main"); if(!mainf||mainf->isDeclaration()) eerr("no __sym_main");
    for(auto&c:ctors){ pushFrame(s,c.second,-1,nullptr,0); std::vector<State*> out; run(s,1,-1,out); if(out.size()!=1) eerr("static initialisation forked"); s=out[0]; }
    pushFrame(s,getFunc(mainf),-1,nullptr,0);
    // top level: process finished states as they come to bound memory
    std::vector<State*> out; 
    { std::vector<State*> work; run(s,1,-1,out); }
    nfinished+=out.size(); for(auto x:out){ donepc.push_back(x->pc); delete x; }
    // completeness: every input (within the ranges of the variables) follows one of the ended paths
    if(!concmode&&!nassert_unknown){ std::vector<Expr*> q; bool triv=false; u64 lits=0; for(auto&p:donepc){ if(p.empty()){ triv=true; break; } lits+=p.size(); Expr* d=C.F; for(auto e:p) d=C.lor(d,C.lnot(e)); q.push_back(d); }
      covpaths=donepc.size(); double t0=S->now();
      if(triv) covstat="whole input space on one path"; else if(lits>3000000) covstat="skipped (too many paths)";
      else { std::vector<u64> m; int r=S->solve(q,m,std::min(60.0,std::max(2.0,deadline-S->now()))); covstat=r==0?"unsat":r==1?"sat":"unknown"; if(r==1) eerr("the explored paths do not cover all inputs"); }
      covtime=S->now()-t0; }
    if(nassert_unknown){ status="inconclusive"; detail="undecided assertions: "+std::to_string(nassert_unknown); exitcode=4; }
  } catch(Violation& v){ status="violation"; vkind=v.kind; detail=v.msg; exitcode=1; mfix(v.model); for(size_t i=0;i<C.vars.size();i++) cex.push_back({C.vars[i].name,v.model[i]}); if(concmode) for(auto&x:concvals) cex.push_back({x.first,x.second}); }
  catch(EngineErr& e){ status="error"; detail=e.msg; exitcode=3; }
  catch(Inconclusive& e){ status="inconclusive"; detail=e.msg; exitcode=4; }
  return nullptr;
}
void report(){
  FILE* o=outfile.empty()?stdout:fopen(outfile.c_str(),"w"); if(!o) o=stdout;
  struct rusage ru; getrusage(RUSAGE_SELF,&ru);
  fprintf(o,"{\"status\":\"%s\",\"kind\":\"%s\",\"detail\":\"%s\",\n",status.c_str(),vkind.c_str(),jesc(detail).c_str());
  fprintf(o,"\"steps\":%llu,\"states\":%llu,\"forks\":%llu,\"merges\":%llu,\"finished\":%llu,\"assume_dead\":%llu,\n",(unsigned long long)nsteps,(unsigned long long)nstates,(unsigned long long)nforks,(unsigned long long)nmerges,(unsigned long long)nfinished,(unsigned long long)nassume_dead);
  fprintf(o,"\"asserts\":%llu,\"asserts_by_rewriting\":%llu,\"asserts_by_solver\":%llu,\"asserts_unknown\":%llu,\n",(unsigned long long)nassert,(unsigned long long)nassert_triv,(unsigned long long)nassert_solver,(unsigned long long)nassert_unknown);
  fprintf(o,"\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"query_cache_hits\":%llu,\"model_hits\":%llu,\"solver_time\":%.3f,\"max_query_ms\":%llu,\"ext_queries\":%llu,\"ext_sat\":%llu,\"ext_unsat\":%llu,\"ext_time\":%.3f,\"z3_queries\":%llu,\"z3_agree\":%llu,\"z3_unknown\":%llu,\"z3_time\":%.3f,\n",(unsigned long long)S->nq,(unsigned long long)S->nsat,(unsigned long long)S->nunsat,(unsigned long long)S->nunk,(unsigned long long)S->cachehits,(unsigned long long)S->modelhits,S->total,(unsigned long long)S->maxms,(unsigned long long)S->extn,(unsigned long long)S->extsat,(unsigned long long)S->extunsat,S->exttime,(unsigned long long)S->z3n,(unsigned long long)S->z3agree,(unsigned long long)S->z3unk,S->z3time);
  fprintf(o,"\"domain_decisions\":%llu,\"folded\":%llu,\"symbolic_loads\":%llu,\"symbolic_stores\":%llu,\"exprs\":%zu,\"vars\":%zu,\"var_bits\":%llu,\"time\":%.3f,\"rss_mb\":%ld,\n",(unsigned long long)ndomq,(unsigned long long)nfold,(unsigned long long)nsymload,(unsigned long long)nsymstore,C.all.size(),C.vars.size(),[&]{ unsigned long long b=0; for(auto&v:C.vars) b+=v.w; return b; }(),S->now()-tstart,ru.ru_maxrss/1024);
  fprintf(o,"\"path_cover\":\"%s\",\"path_cover_paths\":%llu,\"path_cover_time\":%.3f,\n",covstat.c_str(),(unsigned long long)covpaths,covtime);
  fprintf(o,"\"covers\":["); bool f=true; for(auto&c:covers){ fprintf(o,"%s\"%s\"",f?"":",",jesc(c).c_str()); f=false; } fprintf(o,"],\n\"assertions\":{"); f=true; for(auto&a:assertnames){ fprintf(o,"%s\"%s\":%llu",f?"":",",jesc(a.first).c_str(),(unsigned long long)a.second); f=false; }
  fprintf(o,"},\n\"summaries_used\":{"); f=true; for(auto&a:summused){ fprintf(o,"%s\"%s\":%llu",f?"":",",jesc(a.first).c_str(),(unsigned long long)a.second); f=false; }
  fprintf(o,"},\n\"functions\":["); f=true; std::set<std::string> fs; for(size_t i=1;i<srcnames.size();i++) if(srchit[i]&&(srcfile[i].find("sdsl")!=std::string::npos||srcfile[i].find("/repo/")!=std::string::npos)&&srcfile[i].find("/verif/")==std::string::npos){ fs.insert(llvm::demangle(srcnames[i])); } for(auto&n:fs){ fprintf(o,"%s\"%s\"",f?"":",",jesc(n).c_str()); f=false; }
  fprintf(o,"],\n\"values\":{"); f=true; for(auto&v:cex){ fprintf(o,"%s\"%s\":%llu",f?"":",",jesc(v.first).c_str(),(unsigned long long)v.second); f=false; } fprintf(o,"},\n\"notes\":["); f=true; for(auto&n:warned){ fprintf(o,"%s\"%s\"",f?"":",",jesc(n).c_str()); f=false; } fprintf(o,"]}\n");
  if(o!=stdout) fclose(o); else fflush(stdout);
}
int main(int ac,char** av){
  S=new Solver(C); { const char* e=getenv("IRSYM_CADICAL"); for(const char* c:{e?e:"","/app/toolchains/lean-4.33.0-linux/bin/cadical","/root/.kani/kani-0.68.0/bin/kissat"}) if(*c&&access(c,X_OK)==0){ S->extbin=c; break; } } std::string bc; double tl=0;
  for(int i=1;i<ac;i++){ std::string a=av[i]; if(a=="-v") verbose=true; else if(a=="-o") outfile=av[++i]; else if(a=="-t") tl=atof(av[++i]); else if(a=="-q") qlimit=atof(av[++i]); else if(a=="-z") z3budget=atof(av[++i]); else if(a=="-M") maxrss_kb=atol(av[++i])*1024; else if(a=="-g") g_garbage=atoi(av[++i]); else if(a=="-S") maxstates=atoll(av[++i]);
    else if(a=="-c"){ std::string k=av[++i]; auto p=k.find('='); cfg[k.substr(0,p)]=strtoull(k.c_str()+p+1,0,0); }
    else if(a=="-V"){ concmode=true; FILE* f=fopen(av[++i],"r"); char nm[512]; unsigned long long v; if(f){ while(fscanf(f,"%500s %llu",nm,&v)==2) concvals[nm]=v; fclose(f); } }
    else if(a=="-s"){ std::string k=av[++i]; auto p=k.find('='); summ[k.substr(0,p)]=atoi(k.c_str()+p+1); } else if(a=="-O"){ obsf=fopen(av[++i],"w"); } else bc=a; }
  if(tl>0) deadline=S->now()+tl;
  char* arg[1]={strdup(bc.c_str())}; pthread_attr_t at; pthread_attr_init(&at); size_t sz=16ULL<<30; void* st=mmap(0,sz,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); pthread_attr_setstack(&at,st,sz); pthread_t th; if(pthread_create(&th,&at,worker,arg)){ perror("thread"); return 3; } pthread_join(th,0);
  if(obsf) fclose(obsf); if(verbose){ std::vector<std::pair<double,std::string>> v; for(auto&q:qprof) v.push_back({q.second.second,std::to_string(q.second.first)+" "+q.first}); std::sort(v.rbegin(),v.rend()); for(size_t i=0;i<v.size()&&i<12;i++) fprintf(stderr,"%.2fs %s\n",v[i].first,v[i].second.c_str()); } report(); _exit(exitcode);
}
