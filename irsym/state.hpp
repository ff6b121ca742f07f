#pragma once
#include "mem.hpp"
#include "solver.hpp"
#include <memory>
#include <set>
struct V { u64 lo=0, hi=0; Expr* e=nullptr; };
struct Inst; struct Func;
struct Edge { int target; std::vector<std::pair<int,int>> moves; };
struct Inst {
  u8 op; u8 sub; u16 w; u16 w2; int dst,a,b,c; u64 imm; void* p; std::vector<int> ops; std::vector<std::pair<int,u64>> gep; std::vector<std::pair<u16,u32>> leaves; // leaf (width, byte offset)
  std::vector<Edge> edges; std::vector<u64> cases; u32 line; u32 src;
};
struct Block { int start; bool visited; std::vector<u32> srcs; int ipdom; bool reachRet; std::vector<u64> live; std::string name; };
struct Func { void* llvm; std::string name; bool decoded=false; int nregs=0; std::vector<Inst> code; std::vector<Block> blocks; std::vector<V> consts; std::vector<int> argregs; std::vector<u16> argw; std::vector<std::pair<int,u64>> byval; int builtin=-1; int summ=0; bool isrm=false; u64 addr=0; bool isdecl=false; std::vector<u16> regw; int retn=0; u64 calls=0; };
struct Frame { int ref; Func* f; int bb; int ip; std::vector<V> r; std::vector<u64> allocas; int retdst=-1; };
struct Exc { u64 ptr; u64 type; };
// Values that the path condition fixes: variables with few candidates are filtered by every clause in which they
// are the only unfixed variable; a variable with one candidate left is a constant on this path.
struct Dom { std::vector<u8> kn; std::vector<u64> val; u32 nk=0; std::map<u32,std::vector<u64>> cand; std::unordered_map<const void*,bool> cov; };
struct State {
  Mem mem; std::vector<Frame*> fr; std::vector<Expr*> pc; std::shared_ptr<std::vector<u64>> model;
  bool merge=true; std::shared_ptr<Dom> dom; std::vector<Exc> caught; Exc cur{0,0}; int uncaught=0; u64 frz=0; int frzlock=0; bool frzr=false,norm=false; int tidn=0; std::shared_ptr<std::set<u64>> lw,lr; // objects below frz are shared with other threads; writes need a lock
  ~State(){ for(auto f:fr) if(--f->ref==0) delete f; }
  Frame* top(){ return fr.back(); }
  State* clone(){ State* n=new State; n->mem.share(mem); n->fr=fr; for(auto f:fr) f->ref++; n->own(); own(); n->pc=pc; n->dom=dom; n->model=model; n->merge=merge; n->caught=caught; n->cur=cur; n->uncaught=uncaught; n->frz=frz; n->frzlock=frzlock; n->frzr=frzr; n->norm=norm; n->tidn=tidn; if(lw) n->lw=std::make_shared<std::set<u64>>(*lw); if(lr) n->lr=std::make_shared<std::set<u64>>(*lr); return n; }
  void own(){ if(fr.empty()) return; Frame*& f=fr.back(); if(f->ref>1){ Frame* g=new Frame(*f); g->ref=1; f->ref--; f=g; } }
};
