// Symbolic executor for LLVM-18 bitcode.  See DESIGN.md.
#include "state.hpp"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <cmath>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <unistd.h>
u8 g_garbage=0xCD; u64 g_npages=0;
enum IOp : u8 { I_ADD,I_SUB,I_MUL,I_UDIV,I_SDIV,I_UREM,I_SREM,I_SHL,I_LSHR,I_ASHR,I_AND,I_OR,I_XOR,I_ICMP,I_SELECT,I_TRUNC,I_ZEXT,I_SEXT,I_MOV,I_GEP,I_LOAD,I_STORE,I_ALLOCA,I_CALL,I_CALLI,I_BR,I_CBR,I_SWITCH,I_RET,I_UNREACH,I_RESUME,I_LPAD,I_COPY,I_FBIN,I_FNEG,I_FCMP,I_FCAST,I_CMPXCHG,I_RMW,I_NOP,I_INTR,I_UNSUP };
enum Intr { N_CTPOP,N_CTLZ,N_CTTZ,N_BSWAP,N_BITREV,N_FSHL,N_FSHR,N_UMIN,N_UMAX,N_SMIN,N_SMAX,N_ABS,N_UADDO,N_USUBO,N_UMULO,N_SADDO,N_SSUBO,N_SMULO,N_UADDS,N_USUBS,N_MEMCPY,N_MEMSET,N_TYPEID,N_ZERO,N_ARG0,N_TRAP,N_FP,N_OBJSIZE,N_PTRMASK,N_FMULADD };
enum Bi { B_MALLOC,B_CALLOC,B_REALLOC,B_FREE,B_NEW,B_DELETE,B_NEWA,B_DELETEA,B_POSIX_MEMALIGN,B_ALIGNED,B_MEMCMP,B_STRLEN,B_MEMCHR,B_STRCMP,B_CXA_ALLOC,B_CXA_FREE,B_CXA_THROW,B_CXA_RETHROW,B_CXA_BEGIN,B_CXA_END,B_NOP0,B_LOCK,B_UNLOCK,B_SYM_FREEZE,B_SYM_TID,B_GUARD_ABORT,B_GUARD_ACQ,B_GUARD_REL,B_ABORT,B_TERMINATE,B_FP1,B_FP2,B_SYM_U,B_SYM_RANGE,B_SYM_ASSUME,B_SYM_ASSERT,B_SYM_CONC,B_SYM_MERGE,B_SYM_CFG,B_SYM_OBS,B_SYM_COVER,B_SYM_ISSYM,B_UNCAUGHT,B_MEMCPY,B_MEMSET,B_RETARG,B_SYM_PRINT,B_SYM_ACTIVE,B_SYM_GARBAGE,B_THROW_STD,B_CNTSUM,B_CXA_EXCPTR,B_FPI };
struct Violation { std::string kind,msg; std::vector<u64> model; State* st; };
struct EngineErr { std::string msg; };
struct Inconclusive { std::string msg; };
struct NeedConc { Expr* e; int cap; };

ExprCtx C; Solver* S;
llvm::Module* M; const llvm::DataLayout* DL;
std::unordered_map<const llvm::Function*,Func*> funcs;
std::unordered_map<const llvm::GlobalValue*,u64> gaddr;
std::map<u64,std::string> oname;
u64 nextid=1; Mem* initmem;
std::vector<std::string> srcnames; std::unordered_map<const void*,u32> srcidx; std::vector<char> srchit; std::vector<std::string> srcfile;
// statistics
u64 nsteps=0,nforks=0,nmerges=0,nmergefail=0,nstates=1,nfinished=0,nassert=0,nassert_triv=0,nassert_solver=0,nassert_unknown=0,nassume_dead=0,npathq=0,nsymload=0,nsymstore=0;
std::set<std::string> covers; std::map<std::string,u64> assertnames;
double deadline=1e18,tstart; double qlimit=60,z3budget=0,z3limit=20;
std::map<std::string,int> summ; std::map<std::string,u64> summused; bool concmode=false; std::map<std::string,u64> concvals; std::map<std::string,u64> cfg; std::set<std::string> cfgused; FILE* obsf=nullptr; bool verbose=false; u64 maxstates=2000000; long maxrss_kb=3500000;
std::map<std::string,Expr*> varbyname;
std::map<std::string,u64> cnts;
std::string jesc(const std::string& s){ std::string o; for(char c:s){ if(c=='"'||c=='\\'){ o+='\\'; o+=c; } else if((unsigned char)c<32) o+=' '; else o+=c; } return o; }
[[noreturn]] void eerr(const std::string& m){ throw EngineErr{m}; }

static inline V vc(u64 x){ V v; v.lo=x; return v; }
State* curs=nullptr; u64 nfold=0;
static bool covered(Dom& d,Expr* e){ auto it=d.cov.find(e->vs); if(it!=d.cov.end()) return it->second; bool r=true; for(u32 v:e->vs->v) if(v>=d.kn.size()||!d.kn[v]){ r=false; break; } d.cov[e->vs]=r; return r; }
static u128 domeval(Dom& d,Expr* e){ if(d.val.size()<C.vars.size()) d.val.resize(C.vars.size(),0); C.evbegin(); return C.eval(e,d.val); }
static inline V vmk(Expr* e){ V v; if(e->op==CONST){ v.lo=e->k; v.hi=e->k2; } else if(curs&&curs->dom&&curs->dom->nk&&covered(*curs->dom,e)){ u128 x=domeval(*curs->dom,e); v.lo=(u64)x; v.hi=(u64)(x>>64); nfold++; } else v.e=e; return v; }
static inline Expr* X(const V& v,unsigned w){ return v.e?v.e:C.constant(w,((u128)v.hi<<64)|v.lo); }
static inline u128 cat(const V& v){ return ((u128)v.hi<<64)|v.lo; }
static inline V vcw(u128 x,unsigned w){ x&=mask128(w); V v; v.lo=(u64)x; v.hi=(u64)(x>>64); return v; }

// ---------------------------------------------------------------- decoding
unsigned tw(llvm::Type* t){ if(t->isIntegerTy()) return t->getIntegerBitWidth(); if(t->isPointerTy()) return 64; if(t->isFloatTy()) return 32; if(t->isDoubleTy()) return 64; if(t->isX86_FP80Ty()) return 80; return 0; }
void leavesOf(llvm::Type* t,u64 off,std::vector<std::pair<u16,u32>>& out){
  if(auto st=llvm::dyn_cast<llvm::StructType>(t)){ auto sl=DL->getStructLayout(st); for(unsigned i=0;i<st->getNumElements();i++) leavesOf(st->getElementType(i),off+sl->getElementOffset(i),out); return; }
  if(auto at=llvm::dyn_cast<llvm::ArrayType>(t)){ u64 es=DL->getTypeAllocSize(at->getElementType()); for(unsigned i=0;i<at->getNumElements();i++) leavesOf(at->getElementType(),off+i*es,out); return; }
  if(auto vt=llvm::dyn_cast<llvm::FixedVectorType>(t)){ unsigned ew=tw(vt->getElementType()); for(unsigned i=0;i<vt->getNumElements();i++) out.push_back({(u16)ew,(u32)(off+i*(ew/8))}); return; }
  unsigned w=tw(t); if(!w||w>128){ std::string s; llvm::raw_string_ostream o(s); t->print(o); eerr("unsupported type "+o.str()); } out.push_back({(u16)w,(u32)off});
}
unsigned nleaves(llvm::Type* t){ if(t->isVoidTy()) return 0; std::vector<std::pair<u16,u32>> l; leavesOf(t,0,l); return l.size(); }
Func* getFunc(const llvm::Function* f);
u64 gvaddr(const llvm::GlobalValue* g){
  if(auto a=llvm::dyn_cast<llvm::GlobalAlias>(g)){ auto o=llvm::dyn_cast<llvm::GlobalValue>(a->getAliasee()->stripPointerCasts()); if(!o) eerr("alias"); return gvaddr(o); }
  auto it=gaddr.find(g); if(it!=gaddr.end()) return it->second;
  if(g->hasExternalWeakLinkage()) return gaddr[g]=0;
  u64 id=nextid++; u64 a=id<<OFFB; gaddr[g]=a; oname[id]=g->getName().str();
  if(auto f=llvm::dyn_cast<llvm::Function>(g)){ Obj* o=obj_new(O_FUNC,0); o->aux=getFunc(f); ((Func*)o->aux)->addr=a; initmem->put(id,o); }
  else { auto v=llvm::cast<llvm::GlobalVariable>(g); u64 sz= v->getValueType()->isSized()?DL->getTypeAllocSize(v->getValueType()):64; if(v->isDeclaration()&&sz<256) sz=256; initmem->put(id,obj_new(O_GLOBAL,sz)); }
  return a;
}
void constVal(const llvm::Constant* c,std::vector<V>& out){
  using namespace llvm; llvm::Type* t=c->getType();
  if(auto ci=dyn_cast<ConstantInt>(c)){ APInt a=ci->getValue(); if(a.getBitWidth()>128) eerr("wide const"); V v; v.lo=a.getRawData()[0]; if(a.getBitWidth()>64) v.hi=a.getRawData()[1]; out.push_back(v); return; }
  if(auto cf=dyn_cast<ConstantFP>(c)){ APInt a=cf->getValueAPF().bitcastToAPInt(); V v; v.lo=a.getRawData()[0]; if(a.getBitWidth()>64) v.hi=a.getRawData()[1]; out.push_back(v); return; }
  if(isa<ConstantPointerNull>(c)){ out.push_back(vc(0)); return; }
  if(isa<UndefValue>(c)||isa<ConstantAggregateZero>(c)){ unsigned n=nleaves(t); for(unsigned i=0;i<n;i++) out.push_back(vc(0)); return; }
  if(auto g=dyn_cast<GlobalValue>(c)){ out.push_back(vc(gvaddr(g))); return; }
  if(auto ca=dyn_cast<ConstantAggregate>(c)){ for(auto& o:ca->operands()) constVal(cast<Constant>(o),out); return; }
  if(auto cd=dyn_cast<ConstantDataSequential>(c)){ for(unsigned i=0;i<cd->getNumElements();i++) constVal(cd->getElementAsConstant(i),out); return; }
  if(auto ce=dyn_cast<ConstantExpr>(c)){
    auto op=[&](unsigned i){ std::vector<V> v; constVal(ce->getOperand(i),v); return v[0].lo; };
    unsigned w=tw(t);
    switch(ce->getOpcode()){
      case Instruction::GetElementPtr: { APInt off(64,0); auto gep=cast<GEPOperator>(ce); if(!gep->accumulateConstantOffset(*DL,off)) eerr("const gep"); out.push_back(vc(op(0)+off.getZExtValue())); return; }
      case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::Trunc: case Instruction::AddrSpaceCast: case Instruction::ZExt: out.push_back(vc(op(0)&maskw(w))); return;
      case Instruction::Add: out.push_back(vc((op(0)+op(1))&maskw(w))); return; case Instruction::Sub: out.push_back(vc((op(0)-op(1))&maskw(w))); return;
      case Instruction::And: out.push_back(vc(op(0)&op(1))); return; case Instruction::Or: out.push_back(vc(op(0)|op(1))); return; case Instruction::Xor: out.push_back(vc(op(0)^op(1))); return;
      case Instruction::Mul: out.push_back(vc((op(0)*op(1))&maskw(w))); return;
      case Instruction::ICmp: { u64 a=op(0),b=op(1); bool r; switch(ce->getPredicate()){ case CmpInst::ICMP_EQ: r=a==b;break; case CmpInst::ICMP_NE: r=a!=b;break; case CmpInst::ICMP_ULT: r=a<b;break; case CmpInst::ICMP_UGT: r=a>b;break; case CmpInst::ICMP_ULE: r=a<=b;break; case CmpInst::ICMP_UGE: r=a>=b;break; default: eerr("const icmp"); } out.push_back(vc(r)); return; }
      default: eerr(std::string("const expr ")+ce->getOpcodeName());
    } }
  if(isa<BlockAddress>(c)) eerr("blockaddress");
  std::string s; llvm::raw_string_ostream o(s); c->print(o); eerr("constant "+o.str());
}
void initGlobal(u64 a,const llvm::Constant* c){
  using namespace llvm;
  if(isa<ConstantAggregateZero>(c)||isa<UndefValue>(c)||isa<ConstantPointerNull>(c)) return;
  llvm::Type* t=c->getType();
  auto wr=[&](u64 addr,u64 v,unsigned n){ Obj* o=initmem->getw(oid(addr)); for(unsigned i=0;i<n;i++){ u64 f=ooff(addr)+i; Page* p=Mem::pagew(o,f); u64& d=p->d[(f>>3)&(PC-1)]; d=(d&~(255ULL<<(8*(f&7))))|((v&255)<<(8*(f&7))); v>>=8; } };
  if(auto cs=dyn_cast<ConstantStruct>(c)){ auto sl=DL->getStructLayout(cs->getType()); for(unsigned i=0;i<cs->getNumOperands();i++) initGlobal(a+sl->getElementOffset(i),cs->getOperand(i)); return; }
  if(auto ca=dyn_cast<ConstantArray>(c)){ u64 es=DL->getTypeAllocSize(ca->getType()->getElementType()); for(unsigned i=0;i<ca->getNumOperands();i++) initGlobal(a+i*es,ca->getOperand(i)); return; }
  if(auto cd=dyn_cast<ConstantDataSequential>(c)){ u64 es=DL->getTypeAllocSize(cd->getElementType()); for(unsigned i=0;i<cd->getNumElements();i++) initGlobal(a+i*es,cd->getElementAsConstant(i)); return; }
  std::vector<V> v; constVal(c,v); unsigned n=DL->getTypeStoreSize(t); wr(a,v[0].lo,std::min(n,8u)); if(n>8) wr(a+8,v[0].hi,n-8);
}
static const std::map<std::string,int>& builtins(){
  static std::map<std::string,int> b={ {"malloc",B_MALLOC},{"calloc",B_CALLOC},{"realloc",B_REALLOC},{"free",B_FREE},{"_Znwm",B_NEW},{"_Znam",B_NEWA},{"_ZnwmRKSt9nothrow_t",B_NEW},{"_ZnamRKSt9nothrow_t",B_NEWA},{"_ZdlPv",B_DELETE},{"_ZdlPvm",B_DELETE},{"_ZdaPv",B_DELETEA},{"_ZdaPvm",B_DELETEA},{"_ZdlPvRKSt9nothrow_t",B_DELETE},
   {"posix_memalign",B_POSIX_MEMALIGN},{"aligned_alloc",B_ALIGNED},{"memcmp",B_MEMCMP},{"bcmp",B_MEMCMP},{"strlen",B_STRLEN},{"memchr",B_MEMCHR},{"strcmp",B_STRCMP},{"memcpy",B_MEMCPY},{"memmove",B_MEMCPY},{"memset",B_MEMSET},
   {"__cxa_allocate_exception",B_CXA_ALLOC},{"__cxa_free_exception",B_CXA_FREE},{"__cxa_throw",B_CXA_THROW},{"__cxa_rethrow",B_CXA_RETHROW},{"__cxa_begin_catch",B_CXA_BEGIN},{"__cxa_end_catch",B_CXA_END},{"__cxa_get_exception_ptr",B_CXA_EXCPTR},
   {"__cxa_atexit",B_NOP0},{"atexit",B_NOP0},{"__cxa_thread_atexit",B_NOP0},{"__cxa_guard_acquire",B_GUARD_ACQ},{"__cxa_guard_release",B_GUARD_REL},{"__cxa_guard_abort",B_GUARD_ABORT},{"abort",B_ABORT},{"__assert_fail",B_ABORT},{"exit",B_ABORT},{"_exit",B_ABORT},{"__cxa_pure_virtual",B_ABORT},{"_ZSt9terminatev",B_TERMINATE},{"__clang_call_terminate",B_TERMINATE},{"__cxa_call_unexpected",B_TERMINATE},
   {"log",B_FP1},{"log2",B_FP1},{"log10",B_FP1},{"exp",B_FP1},{"sqrt",B_FP1},{"ceil",B_FP1},{"floor",B_FP1},{"round",B_FP1},{"fabs",B_FP1},{"ceilf",B_FP1},{"floorf",B_FP1},{"pow",B_FP2},{"ldexp",B_FP2},{"fmod",B_FP2},{"fmin",B_FP2},{"fmax",B_FP2},
   {"sym_freeze",B_SYM_FREEZE},{"pthread_mutex_lock",B_LOCK},{"pthread_mutex_unlock",B_UNLOCK},{"pthread_mutex_init",B_NOP0},{"pthread_mutex_destroy",B_NOP0},{"pthread_once",B_NOP0},{"pthread_mutex_trylock",B_LOCK},
   {"printf",B_NOP0},{"fprintf",B_NOP0},{"puts",B_NOP0},{"putchar",B_NOP0},{"fflush",B_NOP0},{"time",B_NOP0},{"clock",B_NOP0},{"getpid",B_NOP0},{"fputs",B_NOP0},{"fwrite",B_NOP0},{"fputc",B_NOP0},{"usleep",B_NOP0},{"perror",B_NOP0},
   {"_ZNSt6chrono3_V212steady_clock3nowEv",B_NOP0},{"_ZNSt6chrono3_V212system_clock3nowEv",B_NOP0},{"_ZSt18uncaught_exceptionv",B_UNCAUGHT},{"_ZSt19uncaught_exceptionsv",B_UNCAUGHT},
   {"sym_u",B_SYM_U},{"sym_range",B_SYM_RANGE},{"sym_assume",B_SYM_ASSUME},{"sym_assert_",B_SYM_ASSERT},{"sym_conc",B_SYM_CONC},{"sym_merge",B_SYM_MERGE},{"sym_cfg",B_SYM_CFG},{"sym_obs",B_SYM_OBS},{"sym_cover",B_SYM_COVER},{"sym_issym",B_SYM_ISSYM},{"sym_print",B_SYM_PRINT},{"sym_active",B_SYM_ACTIVE},{"sym_tid",B_SYM_TID},{"sym_garbage",B_SYM_GARBAGE},{"__sym_popcount",B_CNTSUM} };
  return b; }
static bool excDtorOrCtor(const std::string& n){ // standard exception constructors/destructors: no observable state
  static const char* cls[]={"St9exception","St11logic_error","St13runtime_error","St12out_of_range","St12length_error","St16invalid_argument","St12domain_error","St11range_error","St14overflow_error","St15underflow_error","St9bad_alloc","St8bad_cast","St12system_error","NSt8ios_base7failureB5cxx11E"};
  if(n.compare(0,4,"_ZNS")!=0&&n.compare(0,4,"_ZNK")!=0) return false;
  for(auto c:cls){ std::string p=std::string("_ZN")+(c[0]=='N'?c+1:c); if(c[0]=='N') p=p.substr(0,p.size()-1); if(n.compare(0,p.size(),p)==0){ std::string r=n.substr(p.size()); if(r[0]=='C'||r[0]=='D'||r.compare(0,2,"aS")==0) return true; } }
  return false; }
Func* getFunc(const llvm::Function* f){
  auto it=funcs.find(f); if(it!=funcs.end()) return it->second;
  Func* r=new Func; r->llvm=(void*)f; r->name=f->getName().str(); r->isdecl=f->isDeclaration(); funcs[f]=r;
  if(summ.count(r->name)) r->summ=summ[r->name];
  r->isrm=r->name.rfind("_ZN4sdsl6ram_fs6removeE",0)==0||r->name.rfind("_ZN4sdsl6removeE",0)==0;
  auto& b=builtins(); auto bi=b.find(r->name); if(bi!=b.end()) r->builtin=bi->second; else if(r->isdecl&&excDtorOrCtor(r->name)) r->builtin=B_RETARG;
  return r;
}
u32 srcOf(const llvm::DILocation* l){ const llvm::DISubprogram* sp=l->getScope()->getSubprogram(); if(!sp) return 0; auto it=srcidx.find(sp); if(it!=srcidx.end()) return it->second;
  std::string fn=sp->getFilename().str(); std::string n=sp->getLinkageName().str(); if(n.empty()) n=sp->getName().str(); u32 id=srcnames.size(); srcnames.push_back(n); srcfile.push_back(fn); srchit.push_back(0); srcidx[sp]=id; return id; }

void decode(Func* F){
  using namespace llvm; F->decoded=true; const Function* f=(const Function*)F->llvm;
  std::unordered_map<const Value*,int> reg; std::unordered_map<const BasicBlock*,int> bid; std::unordered_map<const Constant*,int> cidx;
  int nr=0; auto newreg=[&](const Value* v){ unsigned n=nleaves(v->getType()); std::vector<std::pair<u16,u32>> l; if(n) leavesOf(v->getType(),0,l); reg[v]=nr; for(auto&x:l) F->regw.push_back(x.first); nr+=n; };
  for(auto& a:f->args()){ newreg(&a); std::vector<std::pair<u16,u32>> l; leavesOf(a.getType(),0,l); for(unsigned i=0;i<l.size();i++){ F->argregs.push_back(reg[&a]+i); F->argw.push_back(l[i].first);} if(a.hasByValAttr()) F->byval.push_back({reg[&a],DL->getTypeAllocSize(a.getParamByValType())}); }
  for(auto& b:*f){ bid[&b]=F->blocks.size(); Block B; B.visited=false; B.ipdom=-1; B.reachRet=false; B.start=0; B.name=b.getName().str(); F->blocks.push_back(B); for(auto& i:b) if(!i.getType()->isVoidTy()&&!i.getType()->isTokenTy()&&!i.getType()->isMetadataTy()) newreg(&i); }
  F->nregs=nr;
  // operand lookup, leaf k
  auto opn=[&](const Value* v,unsigned k=0)->int{ if(auto c=dyn_cast<Constant>(v)){ auto it=cidx.find(c); int base; if(it!=cidx.end()) base=it->second; else { base=F->consts.size(); cidx[c]=base; std::vector<V> o; constVal(c,o); for(auto&x:o) F->consts.push_back(x); if(o.empty()) F->consts.push_back(vc(0)); } return ~(base+(int)k); } 
    if(isa<MetadataAsValue>(v)||isa<InlineAsm>(v)){ F->consts.push_back(vc(0)); return ~((int)F->consts.size()-1);} auto it=reg.find(v); if(it==reg.end()) eerr("operand"); return it->second+k; };
  auto edge=[&](const BasicBlock* from,const BasicBlock* to){ Edge e; e.target=bid[to]; for(auto& ph:to->phis()){ const Value* v=ph.getIncomingValueForBlock(from); unsigned n=nleaves(ph.getType()); for(unsigned k=0;k<n;k++) if(!isa<UndefValue>(v)||true) e.moves.push_back({reg[&ph]+(int)k,opn(v,k)}); } return e; };
  for(auto& b:*f){ Block& B=F->blocks[bid[&b]]; B.start=F->code.size(); std::set<u32> srcs;
    for(auto& in:b){
      if(isa<PHINode>(in)) continue; if(isa<DbgInfoIntrinsic>(in)) continue;
      Inst I{}; I.op=I_UNSUP; I.dst=-1; I.w=0; if(reg.count(&in)) I.dst=reg[&in];
      if(auto dl=in.getDebugLoc()){ const DILocation* L=dl.get(); I.line=L->getLine(); I.src=srcOf(L); while(L){ srcs.insert(srcOf(L)); L=L->getInlinedAt(); } }
      llvm::Type* T=in.getType(); if(I.dst>=0&&nleaves(T)) I.w=F->regw[I.dst];
      bool vec=false; if(T->isVectorTy()) vec=true; for(auto& o:in.operands()) if(o->getType()->isVectorTy()) vec=true;
      if(vec&&!isa<LoadInst>(in)&&!isa<StoreInst>(in)&&!isa<CallBase>(in)&&!isa<ReturnInst>(in)){ 
        // element-wise vector operations
        if(auto bo=dyn_cast<BinaryOperator>(&in)){ if(T->getScalarType()->isIntegerTy()){ static std::map<unsigned,int> m={{Instruction::Add,I_ADD},{Instruction::Sub,I_SUB},{Instruction::Mul,I_MUL},{Instruction::And,I_AND},{Instruction::Or,I_OR},{Instruction::Xor,I_XOR},{Instruction::Shl,I_SHL},{Instruction::LShr,I_LSHR},{Instruction::AShr,I_ASHR}}; if(m.count(bo->getOpcode())){ unsigned n=nleaves(T); for(unsigned k=0;k<n;k++){ Inst J=I; J.op=m[bo->getOpcode()]; J.dst=I.dst+k; J.a=opn(bo->getOperand(0),k); J.b=opn(bo->getOperand(1),k); F->code.push_back(J);} continue; } } }
        if(auto ee=dyn_cast<ExtractElementInst>(&in)) if(auto ci=dyn_cast<ConstantInt>(ee->getIndexOperand())){ I.op=I_MOV; I.a=opn(ee->getVectorOperand(),ci->getZExtValue()); F->code.push_back(I); continue; }
        if(auto ie=dyn_cast<InsertElementInst>(&in)) if(auto ci=dyn_cast<ConstantInt>(ie->getOperand(2))){ unsigned n=nleaves(T); I.op=I_COPY; for(unsigned k=0;k<n;k++) I.ops.push_back(k==ci->getZExtValue()?opn(ie->getOperand(1)):opn(ie->getOperand(0),k)); F->code.push_back(I); continue; }
        if(auto sv=dyn_cast<ShuffleVectorInst>(&in)){ unsigned n1=nleaves(sv->getOperand(0)->getType()); I.op=I_COPY; for(int m:sv->getShuffleMask()){ if(m<0) I.ops.push_back(opn(sv->getOperand(0),0)); else if((unsigned)m<n1) I.ops.push_back(opn(sv->getOperand(0),m)); else I.ops.push_back(opn(sv->getOperand(1),m-n1)); } F->code.push_back(I); continue; }
        I.op=I_UNSUP; I.p=strdup("vector instruction"); F->code.push_back(I); continue; }
      switch(in.getOpcode()){
        case Instruction::Add: I.op=I_ADD; goto bin; case Instruction::Sub: I.op=I_SUB; goto bin; case Instruction::Mul: I.op=I_MUL; goto bin; case Instruction::UDiv: I.op=I_UDIV; goto bin; case Instruction::SDiv: I.op=I_SDIV; goto bin; case Instruction::URem: I.op=I_UREM; goto bin; case Instruction::SRem: I.op=I_SREM; goto bin;
        case Instruction::Shl: I.op=I_SHL; goto bin; case Instruction::LShr: I.op=I_LSHR; goto bin; case Instruction::AShr: I.op=I_ASHR; goto bin; case Instruction::And: I.op=I_AND; goto bin; case Instruction::Or: I.op=I_OR; goto bin; case Instruction::Xor: I.op=I_XOR;
        bin: I.a=opn(in.getOperand(0)); I.b=opn(in.getOperand(1)); break;
        case Instruction::ICmp: { auto ci=cast<ICmpInst>(&in); I.op=I_ICMP; I.sub=ci->getPredicate(); I.w=tw(ci->getOperand(0)->getType()); I.a=opn(ci->getOperand(0)); I.b=opn(ci->getOperand(1)); break; }
        case Instruction::Select: { unsigned n=nleaves(T); I.op=I_SELECT; I.a=opn(in.getOperand(0)); if(n==1){ I.b=opn(in.getOperand(1)); I.c=opn(in.getOperand(2)); } else { for(unsigned k=0;k<n;k++){ Inst J=I; J.dst=I.dst+k; J.w=F->regw[J.dst]; J.b=opn(in.getOperand(1),k); J.c=opn(in.getOperand(2),k); if(k+1<n) F->code.push_back(J); else I=J; } } break; }
        case Instruction::Trunc: I.op=I_TRUNC; I.a=opn(in.getOperand(0)); I.w2=tw(in.getOperand(0)->getType()); break;
        case Instruction::ZExt: I.op=I_ZEXT; I.a=opn(in.getOperand(0)); I.w2=tw(in.getOperand(0)->getType()); break;
        case Instruction::SExt: I.op=I_SEXT; I.a=opn(in.getOperand(0)); I.w2=tw(in.getOperand(0)->getType()); break;
        case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::Freeze: { unsigned n=nleaves(T); I.a=opn(in.getOperand(0)); if(n>1){ I.op=I_COPY; for(unsigned k=0;k<n;k++) I.ops.push_back(opn(in.getOperand(0),k)); break; } I.w2=tw(in.getOperand(0)->getType()); I.op=I.w2==I.w?I_MOV:I.w<I.w2?I_TRUNC:I_ZEXT; break; }
        case Instruction::GetElementPtr: { I.op=I_GEP; I.a=opn(in.getOperand(0)); u64 off=0; auto gi=gep_type_begin(in); for(unsigned k=1;k<in.getNumOperands();k++,++gi){ const Value* ix=in.getOperand(k); if(auto st=gi.getStructTypeOrNull()) off+=DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); else { u64 es=DL->getTypeAllocSize(gi.getIndexedType()); if(auto ci=dyn_cast<ConstantInt>(ix)) off+=es*(u64)ci->getSExtValue(); else { I.gep.push_back({opn(ix),es}); I.cases.push_back(tw(ix->getType())); } } } I.imm=off; break; }
        case Instruction::Load: { I.op=I_LOAD; I.sub=llvm::cast<llvm::LoadInst>(in).isAtomic(); I.a=opn(in.getOperand(0)); leavesOf(T,0,I.leaves); break; }
        case Instruction::Store: { I.op=I_STORE; I.sub=llvm::cast<llvm::StoreInst>(in).isAtomic(); I.a=opn(in.getOperand(1)); leavesOf(in.getOperand(0)->getType(),0,I.leaves); for(unsigned k=0;k<I.leaves.size();k++) I.ops.push_back(opn(in.getOperand(0),k)); break; }
        case Instruction::Alloca: { auto ai=cast<AllocaInst>(&in); I.op=I_ALLOCA; I.imm=DL->getTypeAllocSize(ai->getAllocatedType()); I.a=opn(ai->getArraySize()); break; }
        case Instruction::Br: { auto bi=cast<BranchInst>(&in); if(bi->isConditional()){ I.op=I_CBR; I.a=opn(bi->getCondition()); I.edges.push_back(edge(&b,bi->getSuccessor(0))); I.edges.push_back(edge(&b,bi->getSuccessor(1))); if(bi->getSuccessor(0)==bi->getSuccessor(1)) I.op=I_BR; } else { I.op=I_BR; I.edges.push_back(edge(&b,bi->getSuccessor(0))); } break; }
        case Instruction::Switch: { auto si=cast<SwitchInst>(&in); I.op=I_SWITCH; I.a=opn(si->getCondition()); I.w=tw(si->getCondition()->getType()); I.edges.push_back(edge(&b,si->getDefaultDest())); for(auto& c:si->cases()){ I.cases.push_back(c.getCaseValue()->getZExtValue()); I.edges.push_back(edge(&b,c.getCaseSuccessor())); } break; }
        case Instruction::Ret: { I.op=I_RET; auto ri=cast<ReturnInst>(&in); if(ri->getReturnValue()){ unsigned n=nleaves(ri->getReturnValue()->getType()); for(unsigned k=0;k<n;k++) I.ops.push_back(opn(ri->getReturnValue(),k)); } break; }
        case Instruction::Unreachable: I.op=I_UNREACH; break;
        case Instruction::Resume: I.op=I_RESUME; I.a=opn(in.getOperand(0),0); break;
        case Instruction::LandingPad: { auto lp=cast<LandingPadInst>(&in); I.op=I_LPAD; I.imm=lp->isCleanup(); for(unsigned k=0;k<lp->getNumClauses();k++){ if(lp->isCatch(k)){ I.ops.push_back(opn(lp->getClause(k))); I.cases.push_back(0); } else { I.cases.push_back(1); auto* ar=lp->getClause(k); I.ops.push_back(0); if(auto ca=dyn_cast<ConstantAggregate>(ar)) I.ops.back()=ca->getNumOperands(); } } break; }
        case Instruction::ExtractValue: { auto ev=cast<ExtractValueInst>(&in); llvm::Type* t=ev->getAggregateOperand()->getType(); unsigned k=0; for(unsigned ix:ev->indices()){ if(auto st=dyn_cast<StructType>(t)){ for(unsigned j=0;j<ix;j++) k+=nleaves(st->getElementType(j)); t=st->getElementType(ix); } else { auto at=cast<ArrayType>(t); k+=ix*nleaves(at->getElementType()); t=at->getElementType(); } } I.op=I_COPY; unsigned n=nleaves(T); for(unsigned j=0;j<n;j++) I.ops.push_back(opn(ev->getAggregateOperand(),k+j)); break; }
        case Instruction::InsertValue: { auto iv=cast<InsertValueInst>(&in); llvm::Type* t=T; unsigned k=0; for(unsigned ix:iv->indices()){ if(auto st=dyn_cast<StructType>(t)){ for(unsigned j=0;j<ix;j++) k+=nleaves(st->getElementType(j)); t=st->getElementType(ix); } else { auto at=cast<ArrayType>(t); k+=ix*nleaves(at->getElementType()); t=at->getElementType(); } } I.op=I_COPY; unsigned n=nleaves(T),m=nleaves(iv->getInsertedValueOperand()->getType()); for(unsigned j=0;j<n;j++) I.ops.push_back(j>=k&&j<k+m?opn(iv->getInsertedValueOperand(),j-k):opn(iv->getAggregateOperand(),j)); break; }
        case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: I.op=I_FBIN; I.sub=in.getOpcode(); I.a=opn(in.getOperand(0)); I.b=opn(in.getOperand(1)); break;
        case Instruction::FNeg: I.op=I_FNEG; I.a=opn(in.getOperand(0)); break;
        case Instruction::FCmp: I.op=I_FCMP; I.sub=cast<FCmpInst>(&in)->getPredicate(); I.w=tw(in.getOperand(0)->getType()); I.a=opn(in.getOperand(0)); I.b=opn(in.getOperand(1)); break;
        case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPExt: case Instruction::FPTrunc: I.op=I_FCAST; I.sub=in.getOpcode(); I.w2=tw(in.getOperand(0)->getType()); I.a=opn(in.getOperand(0)); break;
        case Instruction::AtomicCmpXchg: { I.op=I_CMPXCHG; I.a=opn(in.getOperand(0)); I.b=opn(in.getOperand(1)); I.c=opn(in.getOperand(2)); I.w=tw(in.getOperand(1)->getType()); break; }
        case Instruction::AtomicRMW: { auto rm=cast<AtomicRMWInst>(&in); I.op=I_RMW; I.sub=rm->getOperation(); I.a=opn(in.getOperand(0)); I.b=opn(in.getOperand(1)); break; }
        case Instruction::Fence: I.op=I_NOP; break;
        case Instruction::Call: case Instruction::Invoke: {
          auto cb=cast<CallBase>(&in); if(isa<InlineAsm>(cb->getCalledOperand())){ I.op=I_NOP; auto ia=cast<InlineAsm>(cb->getCalledOperand()); if(!ia->getAsmString().empty()){ I.op=I_UNSUP; I.p=strdup("inline asm"); } break; }
          const Function* cf=dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts()); if(!cf) if(auto ga=dyn_cast<GlobalAlias>(cb->getCalledOperand()->stripPointerCasts())) cf=dyn_cast<Function>(ga->getAliasee()->stripPointerCasts());
          bool nop=false;
          if(cf&&cf->isIntrinsic()){
            I.op=I_INTR; I.w2=cb->arg_size()&&tw(cb->getArgOperand(0)->getType())?tw(cb->getArgOperand(0)->getType()):0;
            switch(cf->getIntrinsicID()){
              case Intrinsic::ctpop: I.sub=N_CTPOP; break; case Intrinsic::ctlz: I.sub=N_CTLZ; break; case Intrinsic::cttz: I.sub=N_CTTZ; break; case Intrinsic::bswap: I.sub=N_BSWAP; break; case Intrinsic::bitreverse: I.sub=N_BITREV; break; case Intrinsic::fshl: I.sub=N_FSHL; break; case Intrinsic::fshr: I.sub=N_FSHR; break;
              case Intrinsic::umin: I.sub=N_UMIN; break; case Intrinsic::umax: I.sub=N_UMAX; break; case Intrinsic::smin: I.sub=N_SMIN; break; case Intrinsic::smax: I.sub=N_SMAX; break; case Intrinsic::abs: I.sub=N_ABS; break;
              case Intrinsic::uadd_with_overflow: I.sub=N_UADDO; break; case Intrinsic::usub_with_overflow: I.sub=N_USUBO; break; case Intrinsic::umul_with_overflow: I.sub=N_UMULO; break; case Intrinsic::sadd_with_overflow: I.sub=N_SADDO; break; case Intrinsic::ssub_with_overflow: I.sub=N_SSUBO; break; case Intrinsic::smul_with_overflow: I.sub=N_SMULO; break;
              case Intrinsic::uadd_sat: I.sub=N_UADDS; break; case Intrinsic::usub_sat: I.sub=N_USUBS; break;
              case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: I.sub=N_MEMCPY; break; case Intrinsic::memset: case Intrinsic::memset_inline: I.sub=N_MEMSET; break;
              case Intrinsic::eh_typeid_for: I.sub=N_TYPEID; break; case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::threadlocal_address: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy: I.sub=N_ARG0; break;
              case Intrinsic::stacksave: case Intrinsic::is_constant: case Intrinsic::invariant_start: I.sub=N_ZERO; break; case Intrinsic::objectsize: I.sub=N_OBJSIZE; break; case Intrinsic::trap: case Intrinsic::ubsantrap: I.sub=N_TRAP; break; case Intrinsic::ptrmask: I.sub=N_PTRMASK; break;
              case Intrinsic::fabs: case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::sqrt: case Intrinsic::log: case Intrinsic::log2: case Intrinsic::log10: case Intrinsic::exp: case Intrinsic::round: case Intrinsic::trunc: case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::pow: case Intrinsic::exp2: case Intrinsic::copysign: case Intrinsic::minnum: case Intrinsic::maxnum: I.sub=N_FP; I.imm=cf->getIntrinsicID(); break; case Intrinsic::fmuladd: case Intrinsic::fma: I.sub=N_FMULADD; break;
              case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::stackrestore: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch: case Intrinsic::invariant_end: case Intrinsic::donothing: case Intrinsic::sideeffect: case Intrinsic::var_annotation: nop=true; break;
              case Intrinsic::vastart: case Intrinsic::vaend: I.op=I_UNSUP; I.p=strdup("varargs"); break;
              default: I.op=I_UNSUP; I.p=strdup(cf->getName().str().c_str()); }
            if(!nop&&I.op==I_INTR) for(auto& a:cb->args()) I.ops.push_back(opn(a));
          } else { if(cf){ I.op=I_CALL; I.p=getFunc(cf); gvaddr(cf); } else { I.op=I_CALLI; I.a=opn(cb->getCalledOperand()); }
            for(auto& a:cb->args()){ unsigned n=nleaves(a->getType()); for(unsigned k=0;k<n;k++) I.ops.push_back(opn(a,k)); }
            unsigned n=T->isVoidTy()?0:nleaves(T); I.c=n; }
          if(nop) I.op=I_NOP;
          if(auto iv=dyn_cast<InvokeInst>(&in)){ I.edges.push_back(edge(&b,iv->getNormalDest())); I.edges.push_back(edge(&b,iv->getUnwindDest())); if(I.op!=I_CALL&&I.op!=I_CALLI){ F->code.push_back(I); Inst J{}; J.op=I_BR; J.dst=-1; J.edges.push_back(I.edges[0]); F->code.back().edges.clear(); F->code.push_back(J); continue; } }
          break; }
        default: I.op=I_UNSUP; I.p=strdup(in.getOpcodeName());
      }
      if(I.op!=I_NOP) F->code.push_back(I);
    }
    for(u32 s:srcs) B.srcs.push_back(s);
  }
  // post-dominators over normal edges, restricted to blocks that can return
  int n=F->blocks.size(); std::vector<std::vector<int>> succ(n),pred(n); std::vector<int> isret(n,0); int bi=0;
  for(auto& b:*f){ auto t=b.getTerminator(); if(isa<ReturnInst>(t)) isret[bi]=1; if(auto iv=dyn_cast<InvokeInst>(t)) succ[bi].push_back(bid[iv->getNormalDest()]); else if(!isa<ResumeInst>(t)) for(auto s:successors(&b)) succ[bi].push_back(bid[s]); bi++; }
  for(int i=0;i<n;i++) for(int s:succ[i]) pred[s].push_back(i);
  std::vector<int> st; for(int i=0;i<n;i++) if(isret[i]){ F->blocks[i].reachRet=true; st.push_back(i); }
  while(!st.empty()){ int x=st.back(); st.pop_back(); for(int p:pred[x]) if(!F->blocks[p].reachRet){ F->blocks[p].reachRet=true; st.push_back(p); } }
  // reverse post order on reversed graph from virtual exit n
  std::vector<int> order,num(n+1,-1),seen(n,0); std::vector<std::pair<int,size_t>> dfs;
  auto visit=[&](int r){ if(seen[r]) return; seen[r]=1; dfs.push_back({r,0}); while(!dfs.empty()){ int x=dfs.back().first; size_t& i=dfs.back().second; bool ch=false; while(i<pred[x].size()){ int p=pred[x][i++]; if(!seen[p]&&F->blocks[p].reachRet){ seen[p]=1; dfs.push_back({p,0}); ch=true; break; } } if(!ch){ order.push_back(x); dfs.pop_back(); } } };
  for(int i=0;i<n;i++) if(isret[i]) visit(i);
  order.push_back(n); int cnt=order.size(); for(int i=0;i<cnt;i++) num[order[i]]=i;
  std::vector<int> idom(n+1,-1); idom[n]=n; bool ch=true;
  auto inter=[&](int a,int b){ while(a!=b){ while(num[a]<num[b]) a=idom[a]; while(num[b]<num[a]) b=idom[b]; } return a; };
  while(ch){ ch=false; for(int k=cnt-2;k>=0;k--){ int x=order[k]; int nd=-1; auto cons=[&](int s){ if(s<n&&!F->blocks[s].reachRet) return; if(idom[s]<0) return; nd=nd<0?s:inter(nd,s); }; if(isret[x]) cons(n); for(int s:succ[x]) cons(s); if(nd>=0&&idom[x]!=nd){ idom[x]=nd; ch=true; } } }
  for(int i=0;i<n;i++) F->blocks[i].ipdom= F->blocks[i].reachRet? (idom[i]==n?-1:idom[i]) : -2; // -1: function exit, -2: none
  // liveness (live-in after phis)
  int words=(nr+63)/64; std::vector<std::vector<u64>> use(n,std::vector<u64>(words)),def=use; 
  auto setb=[](std::vector<u64>& v,int i){ v[i>>6]|=1ULL<<(i&63); }; auto getb=[](const std::vector<u64>& v,int i){ return v[i>>6]>>(i&63)&1; };
  std::vector<std::vector<std::pair<int,Edge*>>> outs(n);
  for(int i=0;i<n;i++){ F->blocks[i].live.assign(words,0); int e=i+1<n?F->blocks[i+1].start:F->code.size(); for(int k=F->blocks[i].start;k<e;k++){ Inst& I=F->code[k]; auto u=[&](int o){ if(o>=0&&o<nr&&!getb(def[i],o)) setb(use[i],o); };
      switch(I.op){ case I_LPAD: break; case I_MOV: case I_TRUNC: case I_ZEXT: case I_SEXT: case I_LOAD: case I_ALLOCA: case I_CBR: case I_SWITCH: case I_RESUME: case I_FNEG: case I_FCAST: u(I.a); break; case I_SELECT: case I_CMPXCHG: u(I.a);u(I.b);u(I.c); break; case I_GEP: u(I.a); for(auto&g:I.gep) u(g.first); break; case I_STORE: u(I.a); for(int o:I.ops) u(o); break; case I_CALLI: u(I.a); for(int o:I.ops) u(o); break; case I_CALL: case I_RET: case I_COPY: case I_INTR: for(int o:I.ops) u(o); break; case I_BR: case I_UNREACH: case I_NOP: case I_UNSUP: break; default: u(I.a); u(I.b); }
      if(I.dst>=0){ int nd=1; if(I.op==I_LOAD) nd=I.leaves.size(); else if(I.op==I_COPY) nd=I.ops.size(); else if(I.op==I_CALL||I.op==I_CALLI) nd=I.c; else if(I.op==I_LPAD||I.op==I_CMPXCHG||(I.op==I_INTR&&I.sub>=N_UADDO&&I.sub<=N_SMULO)) nd=2; for(int j=0;j<nd;j++) setb(def[i],I.dst+j); }
      for(auto&e2:I.edges) outs[i].push_back({e2.target,&e2}); } }
  ch=true; while(ch){ ch=false; for(int i=n-1;i>=0;i--){ std::vector<u64> lo(words); for(auto&o:outs[i]){ auto L=F->blocks[o.first].live; // registers live at target after phi moves: remove move dsts, add move srcs
        for(auto&m:o.second->moves) L[m.first>>6]&=~(1ULL<<(m.first&63)); for(auto&m:o.second->moves) if(m.second>=0) setb(L,m.second); for(int k=0;k<words;k++) lo[k]|=L[k]; }
      for(int k=0;k<words;k++){ u64 v=use[i][k]|(lo[k]&~def[i][k]); if(v!=F->blocks[i].live[k]){ F->blocks[i].live[k]=v; ch=true; } } } }
}
#include "run.hpp"
