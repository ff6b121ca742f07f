// Native implementation of the harness interface: values come from a file "name value".
#include "sym.h"
#include <cstdio>
#include <cstring>
#include <map>
#include <string>
#include <thread>
#include <atomic>
static thread_local int tid=0;
static std::map<std::string,uint64_t>& vals(){ static std::map<std::string,uint64_t> v; return v; }
static std::map<std::string,uint64_t>& cfgs(){ static std::map<std::string,uint64_t> v; return v; }
static bool rnd=false; static unsigned long long rs=1; static std::map<std::string,uint64_t>& gen(){ static std::map<std::string,uint64_t> v; return v; }
static unsigned long long rn(){ rs+=0x9e3779b97f4a7c15ULL; unsigned long long z=rs; z=(z^(z>>30))*0xbf58476d1ce4e5b9ULL; z=(z^(z>>27))*0x94d049bb133111ebULL; return z^(z>>31); }
static uint64_t rv(int b){ uint64_t v=rn(); switch(rn()%6){ case 0: v=rn()%4; break; case 1: v&=rn(); break; case 2: v|=rn(); break; case 3: v=~(rn()%3); break; } return v; }
static FILE* obs=nullptr; static const char* wfile=nullptr; static const char* exitfile=nullptr;
static void done(int rc,const char* what){ if(wfile){ FILE* f=fopen(wfile,"w"); for(auto&x:gen()) fprintf(f,"%s %llu\n",x.first.c_str(),(unsigned long long)x.second); fclose(f); } fflush(stdout); if(obs) fclose(obs); fprintf(stderr,"%s\n",what); _Exit(rc); }
extern "C" {
uint64_t sym_u(const char* n,int b){ auto i=vals().find(n); uint64_t v=i==vals().end()?0:i->second; if(rnd){ auto g=gen().find(n); if(g==gen().end()) gen()[n]=b>=64?rv(b):rv(b)&((1ULL<<b)-1); v=gen()[n]; } return b>=64?v:v&((1ULL<<b)-1); }
uint64_t sym_range(const char* n,uint64_t lo,uint64_t hi){ if(lo>hi) done(0,"ASSUME-FAILED (empty range)"); auto i=vals().find(n); uint64_t v=i==vals().end()?lo:i->second; if(rnd){ auto g=gen().find(n); if(g==gen().end()) gen()[n]= hi-lo==~0ULL?rn(): rn()%5==0?lo: rn()%5==0?hi: lo+rn()%(hi-lo+1); v=gen()[n]; } if(v<lo||v>hi) v=lo; return v; }
void sym_assume(uint64_t c){ if(!c&&tid<2) done(0,"ASSUME-FAILED"); }
void sym_assert_(uint64_t c,const char* w){ if(obs&&tid<2) fprintf(obs,"A %s %d\n",w,(int)!!c); if(!c){ fprintf(stderr,"ASSERTION-VIOLATED: %s\n",w); done(77,"violated"); } }
uint64_t sym_conc(uint64_t v){ return v; }
int sym_merge(int on){ return 1; }
uint64_t sym_cfg(const char* n,uint64_t d){ auto i=cfgs().find(n); return i==cfgs().end()?d:i->second; }
void sym_obs(const char* t,uint64_t v){ if(obs&&tid<2) fprintf(obs,"%s %llu\n",t,(unsigned long long)v); }
void sym_cover(const char*){}
int sym_issym(uint64_t){ return 0; }
void sym_print(const char* w,uint64_t v){ fprintf(stderr,"[print] %s = %llu (0x%llx)\n",w,(unsigned long long)v,(unsigned long long)v); }
int sym_active(){ return 0; }
void sym_freeze(int){}
int sym_tid(){ return tid; }
uint64_t sym_threads(uint64_t(*f)(void*),void* a){ std::atomic<int> go(0); uint64_t r[2]={0,0}; auto body=[&](int t){ tid=t+1; for(int k=1;k<=4;k++){ go++; while(go<2*k){} r[t]|=f(a); } tid=0; }; std::thread o([&]{ body(1); }); body(0); o.join(); return r[0]|r[1]; }
}
int main(int ac,char** av){
  for(int i=1;i<ac;i++){ if(!strcmp(av[i],"-V")){ FILE* f=fopen(av[++i],"r"); char n[512]; unsigned long long v; if(f){ while(fscanf(f,"%500s %llu",n,&v)==2) vals()[n]=v; fclose(f);} }
    else if(!strcmp(av[i],"-R")){ rnd=true; rs=strtoull(av[++i],0,0)*7919+13; } else if(!strcmp(av[i],"-W")) wfile=av[++i]; else if(!strcmp(av[i],"-O")) obs=fopen(av[++i],"w"); else if(!strcmp(av[i],"-c")){ std::string k=av[++i]; auto p=k.find('='); cfgs()[k.substr(0,p)]=strtoull(k.c_str()+p+1,0,0); } }
  __sym_main(); done(0,"COMPLETED");
}
