// Harness interface.  The same harness source is compiled (a) to LLVM IR and executed symbolically by
// irsym, and (b) natively (rt/native.cpp) to replay counterexamples and compare traces.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdlib>
extern "C" {
uint64_t sym_u(const char* name,int bits);                         // any value of that many bits
uint64_t sym_range(const char* name,uint64_t lo,uint64_t hi);      // lo..hi inclusive
void sym_assume(uint64_t c);
void sym_assert_(uint64_t c,const char* what);
uint64_t sym_conc(uint64_t v);                                     // enumerate all feasible values (no loss)
int sym_merge(int on);                                             // path merging on/off, returns previous
uint64_t sym_cfg(const char* name,uint64_t dflt);                  // bound chosen by the driver
void sym_obs(const char* tag,uint64_t v);                          // trace for native/engine comparison
void sym_cover(const char* what);                                  // reachability witness
int sym_issym(uint64_t v);
void sym_print(const char* what,uint64_t v);
int sym_active(void);
void sym_freeze(int k);                                            // 1: from here on memory that exists now is shared with other threads (engine); 2: unlocked reads of it count, too; 3: and files are not removed, so a second run meets those of the first; 0: alone again
int sym_tid(void);                                                 // which of the parallel threads runs (native)
uint64_t sym_threads(uint64_t(*f)(void*),void* a);                  // native: f(a) in two threads at once
void __sym_main(void);
}
#define sym_assert(c,what) sym_assert_((uint64_t)(c),what)
#define REQUIRE(c) sym_assert_((uint64_t)(bool)(c),#c)
// the same code in several threads: the executor runs it once and refuses any access that another thread could collide with
template<class F> __attribute__((noinline)) static uint64_t sym_thunk(void* a){ return (*(F*)a)(); }
template<class F> static inline uint64_t sym_parallel(int k,F f){
#ifdef SYM_ENGINE
  sym_freeze(k); uint64_t r=sym_thunk<F>(&f); if(k==3){ sym_freeze(3); r|=sym_thunk<F>(&f); } sym_freeze(0); return r;
#else
  return sym_threads(&sym_thunk<F>,&f);
#endif
}
// indexed names
struct symname { char b[64]; symname(const char* n,uint64_t i){ size_t k=0; while(n[k]&&k<40){ b[k]=n[k]; k++; } b[k++]='['; char t[24]; int m=0; do { t[m++]='0'+i%10; i/=10; } while(i); while(m) b[k++]=t[--m]; b[k++]=']'; b[k]=0; } };
static inline uint64_t sym_ui(const char* n,uint64_t i,int bits){ symname s(n,i); return sym_u(s.b,bits); }
static inline uint64_t sym_rangei(const char* n,uint64_t i,uint64_t lo,uint64_t hi){ symname s(n,i); return sym_range(s.b,lo,hi); }
