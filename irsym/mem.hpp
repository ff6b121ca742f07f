// Object memory: 64-bit address = (object id << 36) | offset ; persistent copy-on-write tables.
#pragma once
#include "expr.hpp"
enum { OFFB=36 };
static inline u64 oid(u64 a){ return a>>OFFB; }
static inline u64 ooff(u64 a){ return a&((1ULL<<OFFB)-1); }
enum { PC=128 }; // cells per page
struct Page { int ref; Expr** sym; u64 d[PC]; };
enum OKind : u8 { O_HEAP, O_STACK, O_GLOBAL, O_FUNC };
struct Obj { int ref; OKind kind; bool freed, ro; u8 fam; u64 size; u32 np; Page** pg; void* aux; };
enum { FAN=256 };
struct Node { int ref; void* ch[FAN]; };
extern u8 g_garbage;
extern u64 g_npages;
inline Page* page_new(u64 fill){ Page* p=(Page*)malloc(sizeof(Page)); g_npages++; p->ref=1; p->sym=nullptr; for(int i=0;i<PC;i++) p->d[i]=fill; return p; }
inline Page* page_copy(Page* q){ Page* p=(Page*)malloc(sizeof(Page)); g_npages++; memcpy(p->d,q->d,sizeof p->d); p->ref=1; p->sym=nullptr; if(q->sym){ p->sym=(Expr**)malloc(sizeof(Expr*)*PC); memcpy(p->sym,q->sym,sizeof(Expr*)*PC); } return p; }
inline void page_unref(Page* p){ if(p&&--p->ref==0){ free(p->sym); free(p); g_npages--; } }
inline void obj_drop_pages(Obj* o){ for(u32 i=0;i<o->np;i++) page_unref(o->pg[i]); free(o->pg); o->pg=nullptr; o->np=0; }
inline void obj_unref(Obj* o){ if(o&&--o->ref==0){ obj_drop_pages(o); free(o); } }
inline Obj* obj_new(OKind k,u64 size,bool ro=false){ Obj* o=(Obj*)calloc(1,sizeof(Obj)); o->ref=1; o->kind=k; o->size=size; o->ro=ro; o->np=k==O_FUNC?0:(size+8*PC-1)/(8*PC); o->pg=o->np?(Page**)calloc(o->np,sizeof(Page*)):nullptr; return o; }
inline Obj* obj_copy(Obj* q){ Obj* o=(Obj*)malloc(sizeof(Obj)); *o=*q; o->ref=1; o->pg=o->np?(Page**)malloc(sizeof(Page*)*o->np):nullptr; for(u32 i=0;i<o->np;i++){ o->pg[i]=q->pg[i]; if(o->pg[i]) o->pg[i]->ref++; } return o; }
inline u64 fillword(const Obj* o){ if(o->kind==O_GLOBAL) return 0; u64 g=o->kind==O_STACK?0xAA:g_garbage; g|=g<<8; g|=g<<16; g|=g<<32; return g; }

struct Mem {
  Node* root=nullptr;  // 4 levels of 256 -> 32 bit ids (28 used)
  static constexpr int L=4;
  struct TL { u64 id; Obj* o; bool w; };
  TL tlb[64];
  void flush(){ for(auto&t:tlb){ t.id=~0ULL; t.o=nullptr; t.w=false; } }
  Mem(){ flush(); }
  static void node_unref(Node* n,int lev){ if(!n||--n->ref) return; for(int i=0;i<FAN;i++) if(n->ch[i]){ if(lev==L-1) obj_unref((Obj*)n->ch[i]); else node_unref((Node*)n->ch[i],lev+1); } free(n); }
  ~Mem(){ node_unref(root,0); }
  void share(Mem& from){ root=from.root; if(root) root->ref++; flush(); from.flush(); }
  static Node* own(Node*& slot,int lev){ if(!slot){ slot=(Node*)calloc(1,sizeof(Node)); slot->ref=1; return slot; } if(slot->ref>1){ Node* n=(Node*)malloc(sizeof(Node)); *n=*slot; n->ref=1; for(int i=0;i<FAN;i++) if(n->ch[i]){ if(lev==L-1) ((Obj*)n->ch[i])->ref++; else ((Node*)n->ch[i])->ref++; } slot->ref--; slot=n; } return slot; }
  Obj* look(u64 id){ Node* n=root; for(int l=0;l<L-1&&n;l++) n=(Node*)n->ch[(id>>(8*(L-1-l)))&255]; return n?(Obj*)n->ch[id&255]:nullptr; }
  Obj* get(u64 id){ auto& t=tlb[id&63]; if(t.id==id) return t.o; if(id>>32) return nullptr; Obj* o=look(id); if(o){ t.id=id; t.o=o; t.w=false; } return o; }
  Obj** slot(u64 id){ Node* n=own(root,0); for(int l=0;l<L-1;l++){ Node*& c=(Node*&)n->ch[(id>>(8*(L-1-l)))&255]; n=own(c,l+1); } return (Obj**)&n->ch[id&255]; }
  void put(u64 id,Obj* o){ Obj** s=slot(id); if(*s) obj_unref(*s); *s=o; auto&t=tlb[id&63]; t.id=id; t.o=o; t.w=true; }
  Obj* getw(u64 id){ auto& t=tlb[id&63]; if(t.id==id&&t.w) return t.o; Obj** s=slot(id); if(!*s) return nullptr; if((*s)->ref>1){ Obj* n=obj_copy(*s); (*s)->ref--; *s=n; } t.id=id; t.o=*s; t.w=true; return *s; }
  static Page* pagew(Obj* o,u64 off){ Page*& p=o->pg[off>>10]; if(!p) p=page_new(fillword(o)); else if(p->ref>1){ Page* n=page_copy(p); p->ref--; p=n; } return p; }
};
