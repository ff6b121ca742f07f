// P30: the huge page allocator behind memory_manager against a list of live blocks.
#include "sym.h"
#include <sdsl/int_vector.hpp>
#include <sys/mman.h>
#include <system_error>
#include <cstring>
using namespace sdsl;
#ifndef SYM_ENGINE
#include <sys/syscall.h>
#include <unistd.h>
// There are no huge pages in the sandbox: normal pages stand in, behind them nothing is mapped.
extern "C" void* mmap(void* a,size_t n,int p,int f,int fd,off_t o) noexcept { if(!(f&MAP_HUGETLB)) return (void*)syscall(SYS_mmap,a,n,p,f,fd,o); char* m=(char*)syscall(SYS_mmap,0,n+4096,p,MAP_ANONYMOUS|MAP_PRIVATE,-1,0L); if(m!=(char*)-1) syscall(SYS_munmap,m+(n+4095)/4096*4096,4096); return m==(char*)-1?m:m+((n+4095)/4096*4096-n)/8*8; }
#endif
enum { K=4 };
static uint8_t* blk[K]; static uint64_t sz[K],val[K]; static uint64_t POOL; static uint8_t* base; static bool resized;
static void fill(int k){ for(uint64_t i=0;i<sz[k]/8;i++) memcpy(blk[k]+8*i,&val[k],8); for(uint64_t i=sz[k]/8*8;i<sz[k];i++) blk[k][i]=(uint8_t)(val[k]>>(8*(i%8))); }
static void same(int k,uint64_t n,const char* w){ for(uint64_t i=0;i<n/8;i++){ uint64_t x; memcpy(&x,blk[k]+8*i,8); sym_assert(x==val[k],w); } for(uint64_t i=n/8*8;i<n;i++) sym_assert(blk[k][i]==(uint8_t)(val[k]>>(8*(i%8))),w); }
static void inv(){ for(int k=0;k<K;k++) if(blk[k]){ sym_assert(((uintptr_t)blk[k])%8==0,"aligned"); sym_assert(blk[k]>=base&&blk[k]+sz[k]<=base+POOL,"inside the pool"); for(int j=0;j<k;j++) if(blk[j]) sym_assert(blk[j]+sz[j]<=blk[k]||blk[k]+sz[k]<=blk[j],"disjoint"); same(k,sz[k],"contents kept"); } }
// room: the largest gap the blocks leave (each block may hold up to SLACK more bytes than asked for)
static uint64_t gap(int skip){ uint64_t best=0; uint8_t* at=base; bool used[K]={false}; for(;;){ int m=-1; for(int k=0;k<K;k++) if(k!=skip&&blk[k]&&!used[k]&&(m<0||blk[k]<blk[m])) m=k; uint8_t* e= m<0?base+POOL:blk[m]; uint64_t g=e>at?e-at:0; if(g>best) best=g; if(m<0) break; used[m]=true; at=blk[m]+sz[m]; } return best; }
static uint64_t sizes(uint64_t q){ static const uint64_t t[]={8,0,16,24,40,64,104,200}; return q<8?t[q]:17+8*(q-8); }
static void raw(){ uint64_t L=sym_cfg("L",4),qs=sym_cfg("qs",6),odd=sym_cfg("odd",0); POOL=sym_cfg("pool",4096); base=(uint8_t*)memory_manager::alloc_mem(0)-8; memory_manager::free_mem((uint64_t*)(base+8));
  uint64_t pre=sym_cfg("pre",0); for(uint64_t k=0;k<pre;k++){ uint64_t q=sym_conc(sym_rangei("pre",k,0,3)); sym_assume(q<sym_cfg("preq",3)); static const uint64_t t[]={8,104,40,400}; try { blk[k]=(uint8_t*)memory_manager::alloc_mem(t[q]); } catch(const std::system_error&){ sym_assume(0); } sz[k]=t[q]; val[k]= sym_cfg("con",0)?0x0101010101010101ULL*(k+1):sym_ui("pv",k,64); fill((int)k); inv(); }
  for(uint64_t s=0;s<L;s++){ int k=(int)sym_conc(sym_rangei("k",s,0,K-1)); uint64_t op=sym_conc(sym_rangei("op",s,0,2)); uint64_t q=sym_rangei("q",s,0,9); uint64_t v= sym_cfg("con",0)?0x0101010101010101ULL*(s+9):sym_ui("v",s,64); uint64_t slack=K*32+16;
    if(op==0){ sym_assume(!blk[k]); for(int j=0;j<k;j++) sym_assume(blk[j]!=0||s>=sym_cfg("free_order",2)); q=sym_conc(q); sym_assume(q<qs||(odd&&q>=8)); uint64_t n=sizes(q); uint8_t* p=0; try { p=(uint8_t*)memory_manager::alloc_mem(n); } catch(const std::system_error&){} if(!p){ if(!resized) sym_assert(gap(-1)<n+slack,"refused although there is room"); } else { blk[k]=p; sz[k]=n; val[k]=v; fill(k); } }
    else if(op==1){ sym_assume(q==0&&blk[k]); memory_manager::free_mem((uint64_t*)blk[k]); blk[k]=0; }
    else { sym_assume(blk[k]!=0); q=sym_conc(q); sym_assume((q<qs&&q!=1)||(odd&&q>=8)); uint64_t n=sizes(q),o=sz[k]; resized=true; uint8_t* p=0; try { p=(uint8_t*)memory_manager::realloc_mem((uint64_t*)blk[k],n); } catch(const std::system_error&){} if(p){ blk[k]=p; sz[k]=n; same(k,o<n?o:n,"contents kept by realloc"); val[k]=v; fill(k); } }
    inv(); }
  for(int k=0;k<K;k++) if(blk[k]){ if(k==1&&sz[k]) { sym_assert(memory_manager::realloc_mem((uint64_t*)blk[k],0)==nullptr,"realloc to nothing"); } else memory_manager::free_mem((uint64_t*)blk[k]); blk[k]=0; inv(); }
  uint64_t* all=0; try { all=memory_manager::alloc_mem(POOL/8*8-16); } catch(const std::system_error&){} sym_assert(all&&(uint8_t*)all==base+8,"all memory is available again"); memory_manager::free_mem(nullptr); memory_manager::free_mem(all); }
static void vecs(){ uint64_t L=sym_cfg("L",4); uint64_t w=sym_cfg("w",13); enum { M=64 }; int_vector<> a(0,0,(uint8_t)w),b(0,0,(uint8_t)w); uint64_t A[M],B[M]; uint64_t n=0,m=0; uint64_t mk= w==64?~0ULL:((1ULL<<w)-1);
  for(uint64_t s=0;s<L;s++){ uint64_t op=sym_conc(sym_rangei("op",s,0,6)); uint64_t q=sym_rangei("q",s,0,9); uint64_t v=sym_ui("v",s,64)&mk;
    switch(op){ case 0: { q=sym_conc(q); sym_assume(q<5); uint64_t t=q==0?0:q==1?3:q==2?n+1:q==3?n+11:40; sym_assume(t<=M); uint64_t o=n; a.resize(t); for(uint64_t i=o;i<t;i++){ a[i]=v; A[i]=v; } n=t; break; }
      case 1: { q=sym_conc(q); sym_assume(q<3); uint64_t t=q==0?0:q==1?5:33; b=int_vector<>(t,v,(uint8_t)w); for(uint64_t i=0;i<t;i++) B[i]=v; m=t; break; }
      case 2: sym_assume(q==0); a.swap(b); for(int i=0;i<M;i++) std::swap(A[i],B[i]); std::swap(n,m); break;
      case 3: sym_assume(q==0); b=a; for(uint64_t i=0;i<n;i++) B[i]=A[i]; m=n; break;
      case 4: { sym_assume(q==0); int_vector<> c(b); a=std::move(c); for(uint64_t i=0;i<m;i++) A[i]=B[i]; n=m; break; }
      case 5: sym_assume(q==0&&n); a[n/2]=v; A[n/2]=v; break;
      default:{ sym_assume(q==0); int_vector<> c(std::move(a)); a=int_vector<>(2,v,(uint8_t)w); sym_assert(c.size()==n,"moved"); for(uint64_t i=0;i<n;i++) sym_assert((uint64_t)c[i]==A[i],"moved value"); n=2; A[0]=A[1]=v; break; } }
    sym_assert(a.size()==n&&b.size()==m,"sizes"); for(uint64_t i=0;i<n;i++) sym_assert((uint64_t)a[i]==A[i],"value in a"); for(uint64_t i=0;i<m;i++) sym_assert((uint64_t)b[i]==B[i],"value in b"); } }
extern "C" void __sym_main(){ uint64_t before=sym_cfg("before",0); uint64_t* o=0; if(before){ o=memory_manager::alloc_mem(24); o[0]=o[2]=77; sym_assert(o[1]==0,"zeroed"); }
  memory_manager::use_hugepages(sym_cfg("pool",4096)); if(before==2){ o=memory_manager::realloc_mem(o,48); } if(before){ sym_assert(o[0]==77&&o[2]==77,"older block kept"); memory_manager::free_mem(o); }
  if(sym_cfg("vec",0)) vecs(); else raw(); sym_cover("heap"); }
