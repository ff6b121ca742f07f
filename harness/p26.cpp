// P26: copies, moves, swaps and assignments of every structure keep the answers.
#include "kinds.hpp"
static void same(const D& a,const D& b,const char* w){ sym_assert(a.size()==b.size(),w); for(uint64_t i=0;i<a.size();i++) sym_assert(a[i]==b[i],w); }
template<class T> static void run(void(*mk)(T&,int),D(*dump)(const T&)){ uint64_t op=sym_conc(sym_range("op",0,13)); sym_assume((sym_cfg("ops",0x3fff)>>op)&1); T* x=new T; mk(*x,0); T* z=new T; mk(*z,1); const D d0=dump(*x),d1=dump(*z); T* y=0;
  switch(op){
  case 0: y=new T(*x); same(dump(*y),d0,"copy"); same(dump(*x),d0,"source of a copy"); delete x; x=0; same(dump(*y),d0,"copy after the source is gone"); break;
  case 1: *z=*x; same(dump(*z),d0,"assigned"); same(dump(*x),d0,"source of an assignment"); delete x; x=0; same(dump(*z),d0,"assigned, source gone"); break;
  case 2: y=new T; *y=*x; *x=*z; same(dump(*y),d0,"assigned to a fresh object"); same(dump(*x),d1,"source after a change"); delete z; z=0; same(dump(*x),d1,"source after a change"); break;
  case 3: y=new T(std::move(*x)); same(dump(*y),d0,"moved"); delete x; x=0; same(dump(*y),d0,"moved, source gone"); break;
  case 4: *z=std::move(*x); same(dump(*z),d0,"move assigned"); delete x; x=0; same(dump(*z),d0,"move assigned, source gone"); break;
  case 5: y=new T; *y=std::move(*x); delete x; x=0; same(dump(*y),d0,"move assigned to a fresh object"); *y=*z; same(dump(*y),d1,"assigned again"); break;
  case 6: x->swap(*z); same(dump(*x),d1,"swapped"); same(dump(*z),d0,"swapped"); delete x; x=0; same(dump(*z),d0,"swapped, other gone"); break;
  case 7: { T& r=*x; *x=r; same(dump(*x),d0,"self assignment"); break; }
  case 8: y=new T(*x); *x=*z; same(dump(*y),d0,"copy after the source changed"); *z=*y; same(dump(*x),d1,"copy after the source changed"); same(dump(*z),d0,"copied back"); delete y; y=0; same(dump(*z),d0,"copied back, source gone"); break;
  case 9: { std::vector<T>* v=new std::vector<T>; v->push_back(*x); v->push_back(*z); v->push_back(std::move(*x)); v->push_back(*z); v->push_back((*v)[0]); same(dump((*v)[0]),d0,"in a vector"); same(dump((*v)[1]),d1,"in a vector"); same(dump((*v)[2]),d0,"in a vector"); same(dump((*v)[4]),d0,"in a vector"); v->erase(v->begin()); same(dump((*v)[0]),d1,"in a vector after erase"); same(dump((*v)[1]),d0,"in a vector after erase"); delete v; break; }
  case 10: { T e; T f(e); f=*x; same(dump(f),d0,"assigned to a copy of an empty object"); T g(std::move(e)); *z=g; *z=*x; same(dump(*z),d0,"assigned after an empty object"); break; }
  case 11: { y=new T; y->swap(*x); same(dump(*y),d0,"swapped with a fresh object"); x->swap(*z); same(dump(*x),d1,"swapped twice"); z->swap(*y); same(dump(*z),d0,"swapped thrice"); delete y; y=0; same(dump(*z),d0,"swapped, empty gone"); break; }
  case 12: { T* s=new T; mk(*s,2); const D d2=dump(*s); *x=std::move(*s); same(dump(*x),d2,"small object move assigned"); delete s; *x=*z; same(dump(*x),d1,"larger object assigned"); std::swap(*x,*z); same(dump(*z),d1,"std::swap"); break; }
  default: { *x=std::move(*z); same(dump(*x),d1,"move assigned"); mk(*z,0); same(dump(*z),d0,"moved-from object filled again"); same(dump(*x),d1,"target after its source is filled again"); break; } }
  delete x; delete y; delete z; sym_cover("value"); }
#include "kindlist.hpp"
extern "C" void __sym_main(){ sym_merge(0); dispatch(sym_cfg("which",0)); }
