// Models of the C++ runtime that is not available as IR (libstdc++.so, libc, libdivsufsort).
// Compiled to bitcode and linked with the harness.  Every model is listed in DESIGN.md.
#include <list>
#include <exception>
#include <stdexcept>
#include <new>
#include <iostream>
#include <cstring>
#include <map>
#include <unordered_map>
#include <sstream>
#include <fstream>
#include <cstdlib>
#include <sys/stat.h>
#include <ext/hash_map>
namespace std {
void __throw_length_error(const char* s){ throw length_error(s); }
void __throw_out_of_range(const char* s){ throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s,...){ throw out_of_range(s); }
void __throw_logic_error(const char* s){ throw logic_error(s); }
void __throw_invalid_argument(const char* s){ throw invalid_argument(s); }
void __throw_runtime_error(const char* s){ throw runtime_error(s); }
void __throw_bad_alloc(){ throw bad_alloc(); }
void __throw_bad_array_new_length(){ throw bad_alloc(); }
void __throw_bad_cast(){ throw bad_cast(); }
void __throw_bad_function_call(){ throw runtime_error("bad_function_call"); }
void __throw_system_error(int){ throw runtime_error("system_error"); }
void __throw_ios_failure(const char*){ throw runtime_error("ios_failure"); }
}
// ---- red-black tree: an unbalanced binary search tree has the same meaning (all new nodes black, header red)
namespace std {
static _Rb_tree_node_base* t_inc(_Rb_tree_node_base* x){ if(x->_M_right){ x=x->_M_right; while(x->_M_left) x=x->_M_left; } else { _Rb_tree_node_base* y=x->_M_parent; while(x==y->_M_right){ x=y; y=y->_M_parent; } if(x->_M_right!=y) x=y; } return x; }
static _Rb_tree_node_base* t_dec(_Rb_tree_node_base* x){ if(x->_M_color==_S_red&&x->_M_parent->_M_parent==x) x=x->_M_right; else if(x->_M_left){ _Rb_tree_node_base* y=x->_M_left; while(y->_M_right) y=y->_M_right; x=y; } else { _Rb_tree_node_base* y=x->_M_parent; while(x==y->_M_left){ x=y; y=y->_M_parent; } x=y; } return x; }
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw(){ return t_inc(x); }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw(){ return t_inc(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw(){ return t_dec(x); }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw(){ return t_dec(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left,_Rb_tree_node_base* x,_Rb_tree_node_base* p,_Rb_tree_node_base& h) throw(){
  x->_M_parent=p; x->_M_left=0; x->_M_right=0; x->_M_color=_S_black;
  if(left){ p->_M_left=x; if(p==&h){ h._M_parent=x; h._M_right=x; } else if(p==h._M_left) h._M_left=x; }
  else { p->_M_right=x; if(p==h._M_right) h._M_right=x; } }
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z,_Rb_tree_node_base& h) throw(){
  _Rb_tree_node_base* c; auto repl=[&](_Rb_tree_node_base* o,_Rb_tree_node_base* n){ if(h._M_parent==o) h._M_parent=n; else if(o->_M_parent->_M_left==o) o->_M_parent->_M_left=n; else o->_M_parent->_M_right=n; if(n) n->_M_parent=o->_M_parent; };
  _Rb_tree_node_base* nl= h._M_left==z?t_inc(z):h._M_left; _Rb_tree_node_base* nr= h._M_right==z?t_dec(z):h._M_right;
  if(z->_M_left&&z->_M_right){ _Rb_tree_node_base* y=z->_M_right; while(y->_M_left) y=y->_M_left; if(y!=z->_M_right){ repl(y,y->_M_right); y->_M_right=z->_M_right; y->_M_right->_M_parent=y; } repl(z,y); y->_M_left=z->_M_left; y->_M_left->_M_parent=y; }
  else { c=z->_M_left?z->_M_left:z->_M_right; repl(z,c); }
  if(!h._M_parent){ h._M_left=&h; h._M_right=&h; } else { h._M_left=nl; h._M_right=nr; }
  return z; }
namespace __detail {
std::size_t _Prime_rehash_policy::_M_next_bkt(std::size_t n) const { size_t p=11; while(p<n) p=2*p+1; _M_next_resize=p; return p; }
std::pair<bool,std::size_t> _Prime_rehash_policy::_M_need_rehash(std::size_t b,std::size_t e,std::size_t i) const { if(e+i>_M_next_resize){ size_t n=e+i>2*b?e+i:2*b; return std::make_pair(true,_M_next_bkt(n)); } return std::make_pair(false,(size_t)0); }
}
size_t _Hash_bytes(const void* p,size_t n,size_t seed){ size_t h=seed; for(size_t i=0;i<n;i++) h=(h^((const unsigned char*)p)[i])*0x100000001b3ULL; return h; }
// ---- streams: no locale
ios_base::ios_base() throw():_M_precision(),_M_width(),_M_flags(),_M_exception(),_M_streambuf_state(),_M_callbacks(0),_M_word_zero(),_M_word_size(_S_local_word_size),_M_word(_M_local_word),_M_ios_locale(){}
ios_base::~ios_base(){}
void ios_base::_M_init() throw(){ _M_precision=6; _M_width=0; _M_flags=skipws|dec; }
ios_base::Init::Init(){}
ios_base::Init::~Init(){}
locale::locale() throw():_M_impl(0){}
locale::locale(const locale&) throw():_M_impl(0){}
locale::~locale() throw(){}
const locale& locale::operator=(const locale&) throw(){ return *this; }
template<> void basic_ios<char>::_M_cache_locale(const locale&){}
template<> char basic_ios<char>::widen(char c) const { return c; }
template<> char basic_ios<char>::fill() const { return ' '; }
template<> char basic_ios<char>::fill(char c){ return ' '; }
static void putnum(ostream& o,unsigned long long v,bool neg){ char t[24]; int m=0; unsigned long long B=(o.flags()&ios_base::basefield)==ios_base::hex?16:10; if(B==16&&neg){ v=0-v; neg=false; } do { t[m++]="0123456789abcdef"[v%B]; v/=B; } while(v); if(neg) t[m++]='-'; bool left=(o.flags()&ios_base::adjustfield)==ios_base::left; long pad=o.width()-m; o.width(0); if(o.rdbuf()){ if(!left) for(;pad>0;pad--) o.rdbuf()->sputc(' '); while(m) { char c=t[--m]; o.rdbuf()->sputc(c); } for(;pad>0;pad--) o.rdbuf()->sputc(' '); } }
template<> template<> ostream& ostream::_M_insert(unsigned long v){ if(good()) putnum(*this,v,false); return *this; }
template<> template<> ostream& ostream::_M_insert(unsigned long long v){ if(good()) putnum(*this,v,false); return *this; }
template<> template<> ostream& ostream::_M_insert(long v){ if(good()) putnum(*this,v<0?0-(unsigned long long)v:v,v<0); return *this; }
template<> template<> ostream& ostream::_M_insert(long long v){ if(good()) putnum(*this,v<0?0-(unsigned long long)v:v,v<0); return *this; }
template<> template<> ostream& ostream::_M_insert(bool v){ if(good()) putnum(*this,v,false); return *this; }
template<> template<> ostream& ostream::_M_insert(double v){ return *this; }
template<> template<> ostream& ostream::_M_insert(const void* v){ return *this; }
template<> template<> istream& istream::_M_extract(unsigned long& v){ // decimal digits, no sign
  if(!good()||!rdbuf()){ setstate(failbit); return *this; } int c=rdbuf()->sgetc(); while(c==' '||(c>=9&&c<=13)) c=rdbuf()->snextc(); if(c==EOF){ setstate(eofbit|failbit); return *this; }
  unsigned long x=0; bool any=false; while(c>='0'&&c<='9'){ x=x*10+(unsigned long)(c-'0'); any=true; c=rdbuf()->snextc(); } v=x; if(c==EOF) setstate(eofbit); if(!any) setstate(failbit); return *this; }
ostream cout(0),cerr(0),clog(0);
istream cin(0);
}
namespace __cxxabiv1 { extern "C" char* __cxa_demangle(const char* n,char* b,size_t* s,int* st){ *st=-2; return 0; } }
static int the_errno=0; extern "C" int* __errno_location() throw(){ return &the_errno; }

// ---- C library pieces used by util
extern "C" {
size_t strlen(const char*);
char* strdup(const char* s){ size_t n=strlen(s); char* r=(char*)malloc(n+1); for(size_t i=0;i<=n;i++) r[i]=s[i]; return r; }
char* __strdup(const char* s){ return strdup(s); }
static char dot_[2]={'.',0},slash_[2]={'/',0};
char* __xpg_basename(char* p){ if(!p||!*p) return dot_; size_t n=strlen(p); while(n>1&&p[n-1]=='/') p[--n]=0; if(n==1&&p[0]=='/') return p; char* q=p+n; while(q>p&&q[-1]!='/') q--; return q; }
char* dirname(char* p){ if(!p||!*p) return dot_; size_t n=strlen(p); while(n>1&&p[n-1]=='/') p[--n]=0; while(n>0&&p[n-1]!='/') n--; if(n==0) return dot_; size_t f=n; while(n>1&&p[n-1]=='/') n--; if(n==1&&p[0]=='/'&&f==2) n=2; p[n]=0; if(n==1&&p[0]=='/') return slash_; return p; }
char* strerror(int){ return dot_; }
}
// ---- C library pieces that changed code may come to use (exercised by harness/t_std.cpp)
extern "C" {
char* strcpy(char* d,const char* s) noexcept { char* r=d; while((*d++=*s++)); return r; }
char* strcat(char* d,const char* s) noexcept { char* r=d; while(*d) d++; while((*d++=*s++)); return r; }
char* strncpy(char* d,const char* s,size_t n) noexcept { size_t i=0; for(;i<n&&s[i];i++) d[i]=s[i]; for(;i<n;i++) d[i]=0; return d; }
char* m_strchr(const char* s,int c) noexcept __asm__("strchr"); char* m_strchr(const char* s,int c) noexcept { for(;;s++){ if(*s==(char)c) return (char*)s; if(!*s) return 0; } }
char* m_strrchr(const char* s,int c) noexcept __asm__("strrchr"); char* m_strrchr(const char* s,int c) noexcept { const char* r=0; for(;;s++){ if(*s==(char)c) r=s; if(!*s) return (char*)r; } }
char* m_strstr(const char* s,const char* t) noexcept __asm__("strstr"); char* m_strstr(const char* s,const char* t) noexcept { for(;;s++){ size_t i=0; while(t[i]&&s[i]==t[i]) i++; if(!t[i]) return (char*)s; if(!*s) return 0; } }
void* m_memchr(const void* p,int c,size_t n) noexcept __asm__("memchr"); void* m_memchr(const void* p,int c,size_t n) noexcept { const unsigned char* s=(const unsigned char*)p; for(size_t i=0;i<n;i++) if(s[i]==(unsigned char)c) return (void*)(s+i); return 0; }
void qsort(void* b,size_t n,size_t w,int(*c)(const void*,const void*)){ char* p=(char*)b; for(size_t i=1;i<n;i++) for(size_t j=i;j>0&&c(p+(j-1)*w,p+j*w)>0;j--) for(size_t k=0;k<w;k++){ char t=p[j*w+k]; p[j*w+k]=p[(j-1)*w+k]; p[(j-1)*w+k]=t; } }
lldiv_t lldiv(long long a,long long b) noexcept { lldiv_t r; r.quot=a/b; r.rem=a%b; return r; }
ldiv_t ldiv(long a,long b) noexcept { ldiv_t r; r.quot=a/b; r.rem=a%b; return r; }
div_t div(int a,int b) noexcept { div_t r; r.quot=a/b; r.rem=a%b; return r; }
int isdigit(int c) noexcept { return c>='0'&&c<='9'; } int isupper(int c) noexcept { return c>='A'&&c<='Z'; } int islower(int c) noexcept { return c>='a'&&c<='z'; }
int isalpha(int c) noexcept { return isupper(c)||islower(c); } int isalnum(int c) noexcept { return isalpha(c)||isdigit(c); } int isspace(int c) noexcept { return c==' '||(c>=9&&c<=13); } int isprint(int c) noexcept { return c>=32&&c<127; }
int toupper(int c) noexcept { return islower(c)?c-32:c; } int tolower(int c) noexcept { return isupper(c)?c+32:c; }
static unsigned long long m_num(const char* s,char** e,int b,bool& neg){ const char* p=s; while(isspace(*p)) p++; neg=*p=='-'; if(*p=='-'||*p=='+') p++; if((b==0||b==16)&&p[0]=='0'&&(p[1]|32)=='x'){ p+=2; b=16; } else if(b==0) b=p[0]=='0'?8:10; unsigned long long x=0; bool any=false; for(;;p++){ int d=isdigit(*p)?*p-'0':isalpha(*p)?tolower(*p)-'a'+10:99; if(d>=b) break; x=x*b+d; any=true; } if(e) *e=(char*)(any?p:s); return any?x:0; }
#define NUM_(T,N,M) T N(const char* s,char** e,int b) noexcept __asm__(M); T N(const char* s,char** e,int b) noexcept { bool n; unsigned long long x=m_num(s,e,b,n); return (T)(n?0-x:x); }
NUM_(unsigned long,m_su1,"strtoul") NUM_(unsigned long,m_su2,"__isoc23_strtoul") NUM_(unsigned long long,m_su3,"strtoull") NUM_(unsigned long long,m_su4,"__isoc23_strtoull")
NUM_(long,m_sl1,"strtol") NUM_(long,m_sl2,"__isoc23_strtol") NUM_(long long,m_sl3,"strtoll") NUM_(long long,m_sl4,"__isoc23_strtoll")
int m_atoi(const char* s) noexcept __asm__("atoi"); int m_atoi(const char* s) noexcept { bool n; unsigned long long x=m_num(s,0,10,n); return (int)(n?0-x:x); }
}
namespace std {
template<> template<> istream& istream::_M_extract(long& v){ int c; if(good()&&rdbuf()){ while(isspace(c=rdbuf()->sgetc())) rdbuf()->sbumpc(); bool n=c=='-'; if(n||c=='+') rdbuf()->sbumpc(); unsigned long x=0; *this>>x; v=n?0-x:x; } else setstate(failbit); return *this; }
template<> template<> istream& istream::_M_extract(unsigned long long& v){ unsigned long x=0; _M_extract(x); v=x; return *this; }
template<> template<> istream& istream::_M_extract(long long& v){ long x=0; _M_extract(x); v=x; return *this; }
template<> template<> istream& istream::_M_extract(unsigned int& v){ unsigned long x=0; _M_extract(x); v=x; return *this; }
template<> template<> istream& istream::_M_extract(unsigned short& v){ unsigned long x=0; _M_extract(x); v=x; return *this; }
template<> istream& istream::operator>>(int& v){ long x=0; _M_extract(x); v=(int)x; return *this; }
template<> istream& istream::operator>>(short& v){ long x=0; _M_extract(x); v=(short)x; return *this; }
template<> istream& operator>>(istream& i,string& s){ s.clear(); if(!i.good()||!i.rdbuf()){ i.setstate(ios_base::failbit); return i; } int c=i.rdbuf()->sgetc(); while(c!=EOF&&isspace(c)) c=i.rdbuf()->snextc(); while(c!=EOF&&!isspace(c)){ s.push_back((char)c); c=i.rdbuf()->snextc(); } if(c==EOF) i.setstate(ios_base::eofbit); if(s.empty()) i.setstate(ios_base::failbit); return i; }
template<> istream& operator>>(istream& i,char& v){ if(!i.good()||!i.rdbuf()){ i.setstate(ios_base::failbit); return i; } int c=i.rdbuf()->sgetc(); while(c!=EOF&&isspace(c)) c=i.rdbuf()->snextc(); if(c==EOF) i.setstate(ios_base::eofbit|ios_base::failbit); else { v=(char)c; i.rdbuf()->sbumpc(); } return i; }
template<> istream& getline(istream& i,string& s,char d){ s.clear(); if(!i.good()||!i.rdbuf()){ i.setstate(ios_base::failbit); return i; } bool any=false; for(;;){ int c=i.rdbuf()->sbumpc(); if(c==EOF){ i.setstate(any?ios_base::eofbit:ios_base::eofbit|ios_base::failbit); break; } any=true; if((char)c==d) break; s.push_back((char)c); } return i; }
template<> istream& getline(istream& i,string& s){ return getline(i,s,'\n'); }
template<> istream& istream::get(char& v){ if(!good()||!rdbuf()){ setstate(failbit); return *this; } int c=rdbuf()->sbumpc(); if(c==EOF){ _M_gcount=0; setstate(eofbit|failbit); } else { _M_gcount=1; v=(char)c; } return *this; }
}
// ---- std::list nodes
namespace std { namespace __detail {
void _List_node_base::_M_hook(_List_node_base* p) noexcept { _M_next=p; _M_prev=p->_M_prev; p->_M_prev->_M_next=this; p->_M_prev=this; }
void _List_node_base::_M_unhook() noexcept { _M_prev->_M_next=_M_next; _M_next->_M_prev=_M_prev; }
void _List_node_base::_M_transfer(_List_node_base* f,_List_node_base* l) noexcept { if(this!=l){ l->_M_prev->_M_next=this; f->_M_prev->_M_next=l; this->_M_prev->_M_next=f; _List_node_base* t=this->_M_prev; this->_M_prev=l->_M_prev; l->_M_prev=f->_M_prev; f->_M_prev=t; } }
void _List_node_base::_M_reverse() noexcept { _List_node_base* t=this; do { std::swap(t->_M_next,t->_M_prev); t=t->_M_prev; } while(t!=this); }
void _List_node_base::swap(_List_node_base& x,_List_node_base& y) noexcept { if(x._M_next!=&x){ if(y._M_next!=&y){ std::swap(x._M_next,y._M_next); std::swap(x._M_prev,y._M_prev); x._M_next->_M_prev=x._M_prev->_M_next=&x; y._M_next->_M_prev=y._M_prev->_M_next=&y; } else { y._M_next=x._M_next; y._M_prev=x._M_prev; y._M_next->_M_prev=y._M_prev->_M_next=&y; x._M_next=x._M_prev=&x; } } else if(y._M_next!=&y){ x._M_next=y._M_next; x._M_prev=y._M_prev; x._M_next->_M_prev=x._M_prev->_M_next=&x; y._M_next=y._M_prev=&y; } }
} }
// ---- libdivsufsort (external library): its contract, the suffix array of a byte string
template<class I> static void sufsort_(const unsigned char* t,I* s,I n){ auto lt=[&](I a,I b){ while(a<n&&b<n){ if(t[a]!=t[b]) return t[a]<t[b]; a++; b++; } return a>b; }; for(I i=0;i<n;i++) s[i]=i; I* tmp=(I*)malloc(sizeof(I)*(n+1)); for(I w=1;w<n;w*=2){ for(I l=0;l<n;l+=2*w){ I m=l+w<n?l+w:n,r=l+2*w<n?l+2*w:n,i=l,j=m,k=l; while(i<m||j<r) tmp[k++]=(j>=r||(i<m&&lt(s[i],s[j])))?s[i++]:s[j++]; } for(I i=0;i<n;i++) s[i]=tmp[i]; } free(tmp); }
extern "C" int divsufsort(const unsigned char* t,int* s,int n){ if(!t||!s||n<0) return -1; sufsort_<int>(t,s,n); return 0; }
extern "C" long divsufsort64(const unsigned char* t,long* s,long n){ if(!t||!s||n<0) return -1; sufsort_<long>(t,s,n); return 0; }
#include "disk.inc"
