// ---- disk: a flat directory of files with content; the C and POSIX calls and std::filebuf used by the library on top of it.
// std::filebuf: writes stay in a pending buffer until sync, seek, close or 8191 bytes; reads take up to 8191 bytes at once; a seek drops the read buffer.
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>
struct dfile_{ char* d; size_t n,cap; int maps; };
struct dent_{ char name[256]; dfile_* f; };
enum { DMAX=64 };
static dent_ d_tab[DMAX]; static struct { dfile_* f; int fl; } d_fd[DMAX]; static struct { char* p; size_t len; dfile_* f; } d_map[DMAX];
extern "C" void model_limit_disk();
static void d_cpy(char* a,const char* b){ while((*a++=*b++)); }
static const char* d_norm(const char* s){ while(s[0]=='.'&&s[1]=='/'){ s+=2; while(*s=='/') s++; } return s; }
static dent_* d_find(const char* s){ s=d_norm(s); for(int i=0;i<DMAX;i++) if(d_tab[i].f&&!strcmp(d_tab[i].name,s)) return &d_tab[i]; return 0; }
static bool d_name(const char* s){ s=d_norm(s); size_t n=strlen(s); if(!n||n>255) return false; for(size_t i=0;i<n;i++) if(s[i]=='/'){ if(i==1&&s[0]=='.') continue; if(i==4&&s[0]==47&&s[1]==116&&s[2]==109&&s[3]==112) continue; if(i==0&&s[1]==116&&s[2]==109&&s[3]==112&&s[4]==47) continue; return false; } return true; }
static dent_* d_create(const char* s){ if(!d_name(s)) return 0; for(int i=0;i<DMAX;i++) if(!d_tab[i].f){ d_cpy(d_tab[i].name,d_norm(s)); dfile_* f=(dfile_*)malloc(sizeof(dfile_)); f->d=0; f->n=f->cap=0; f->maps=0; d_tab[i].f=f; return &d_tab[i]; } model_limit_disk(); return 0; }
static void d_cap(dfile_* f,size_t c){ if(c<=f->cap) return; if(f->maps) model_limit_disk(); if(c<2*f->cap) c=2*f->cap; char* p=(char*)malloc(c); memcpy(p,f->d,f->n); free(f->d); f->d=p; f->cap=c; }
static void d_trunc(dfile_* f,size_t n){ if(n>f->n){ d_cap(f,n); memset(f->d+f->n,0,n-f->n); } f->n=n; }
static void d_write(dfile_* f,size_t pos,const char* s,size_t n){ if(!n) return; if(pos+n>f->n) d_trunc(f,pos+n); memcpy(f->d+pos,s,n); }
extern "C" {
int remove(const char* s) noexcept { dent_* e=d_find(s); if(!e){ the_errno=2; return -1; } e->f=0; return 0; }
int unlink(const char* s) noexcept { return remove(s); }
int rename(const char* a,const char* b) noexcept { dent_* e=d_find(a); if(!e||!d_name(b)){ the_errno=2; return -1; } if(!strcmp(a,b)) return 0; dent_* o=d_find(b); if(o) o->f=0; d_cpy(e->name,d_norm(b)); return 0; }
int stat(const char* s,struct stat* st) noexcept { dent_* e=d_find(s); if(!e){ the_errno=2; return -1; } memset(st,0,sizeof *st); st->st_size=e->f->n; st->st_mode=S_IFREG|0644; return 0; }
int open(const char* s,int fl,...){ dent_* e=d_find(s); if(!e){ if(!(fl&O_CREAT)||!(e=d_create(s))){ the_errno=2; return -1; } } if(fl&O_TRUNC) e->f->n=0; for(int i=3;i<DMAX;i++) if(!d_fd[i].f){ d_fd[i].f=e->f; d_fd[i].fl=fl; return i; } model_limit_disk(); return -1; }
int close(int i){ if(i<3||i>=DMAX||!d_fd[i].f){ the_errno=9; return -1; } d_fd[i].f=0; return 0; }
int ftruncate(int i,off_t n) noexcept { if(i<3||i>=DMAX||!d_fd[i].f||n<0||(d_fd[i].fl&3)==0){ the_errno=9; return -1; } d_trunc(d_fd[i].f,n); return 0; }
int mkstemps(char* t,int sl){ size_t n=strlen(t); for(int k=0;k<26;k++){ for(int j=0;j<6;j++) t[n-sl-6+j]='a'+(j?0:k); if(!d_find(t)) return open(t,O_CREAT|O_RDWR|O_EXCL,0600); } return -1; }
void* mmap(void*,size_t len,int prot,int fl,int fd,off_t off) noexcept { if(!len||off){ the_errno=22; return MAP_FAILED; } int k=0; while(k<DMAX&&d_map[k].p) k++; if(k==DMAX) model_limit_disk();
  if(fl&MAP_ANONYMOUS){ char* p=(char*)calloc(len,1); d_map[k].p=p; d_map[k].len=len; d_map[k].f=0; return p; }
  if(fd<3||fd>=DMAX||!d_fd[fd].f){ the_errno=9; return MAP_FAILED; } dfile_* f=d_fd[fd].f; if((prot&PROT_WRITE)&&(d_fd[fd].fl&3)!=O_RDWR){ the_errno=13; return MAP_FAILED; } if(fl&MAP_PRIVATE) model_limit_disk();
  size_t pg=(len+4095)/4096*4096; if(pg>f->cap){ d_cap(f,pg); } memset(f->d+f->n,0,f->cap-f->n); f->maps++; d_map[k].p=f->d; d_map[k].len=len; d_map[k].f=f; return f->d; }
int munmap(void* p,size_t len) noexcept { for(int k=0;k<DMAX;k++) if(d_map[k].p==(char*)p&&p){ if(d_map[k].len!=len) model_limit_disk(); if(d_map[k].f) d_map[k].f->maps--; else free(p); d_map[k].p=0; return 0; } the_errno=22; return -1; }
int sym_disk_open(){ int n=0; for(int i=0;i<DMAX;i++) n+=(d_fd[i].f!=0)+(d_map[i].p!=0); return n; }
}
namespace std {
struct dbuf_{ dfile_* f; size_t pos; char* pend; size_t pn; bool app; };
__basic_file<char>::__basic_file(__c_lock*) throw():_M_cfile(0),_M_cfile_created(false){}
__basic_file<char>::~__basic_file(){}
bool __basic_file<char>::is_open() const throw(){ return _M_cfile!=0; }
__c_file* __basic_file<char>::file() throw(){ return _M_cfile; }
__basic_file<char>* __basic_file<char>::sys_open(__c_file* f,ios_base::openmode){ _M_cfile=f; return this; }
__basic_file<char>* __basic_file<char>::close(){ _M_cfile=0; return this; }
#define DB_ ((dbuf_*)_M_file.file())
static void db_flush(dbuf_* h){ if(h->pn){ if(h->app) h->pos=h->f->n; d_write(h->f,h->pos,h->pend,h->pn); h->pos+=h->pn; h->pn=0; } }
static void db_put(dbuf_* h,const char* s,size_t n){ if(h->pn+n>8191){ db_flush(h); if(n>1024){ if(h->app) h->pos=h->f->n; d_write(h->f,h->pos,s,n); h->pos+=n; return; } } if(!h->pend) h->pend=(char*)malloc(8192); memcpy(h->pend+h->pn,s,n); h->pn+=n; }
template<> basic_filebuf<char>::basic_filebuf():basic_streambuf<char>(),_M_lock(),_M_file(&_M_lock),_M_mode(ios_base::openmode(0)),_M_state_beg(),_M_state_cur(),_M_state_last(),_M_buf(0),_M_buf_size(BUFSIZ),_M_buf_allocated(false),_M_reading(false),_M_writing(false),_M_pback(),_M_pback_cur_save(0),_M_pback_end_save(0),_M_pback_init(false),_M_codecvt(0),_M_ext_buf(0),_M_ext_buf_size(0),_M_ext_next(0),_M_ext_end(0){}
template<> basic_filebuf<char>* basic_filebuf<char>::open(const char* s,ios_base::openmode m){ if(_M_file.is_open()) return 0; const ios_base::openmode in=ios_base::in,out=ios_base::out,tr=ios_base::trunc,app=ios_base::app; ios_base::openmode q=m&(in|out|tr|app); bool cr,t=false,a=false;
  if(q==out||q==(out|tr)){ cr=true; t=true; } else if(q==(out|app)||q==app||q==(in|out|app)||q==(in|app)){ cr=true; a=true; } else if(q==in||q==(in|out)) cr=false; else if(q==(in|out|tr)){ cr=true; t=true; } else return 0;
  dent_* e=d_find(s); if(!e){ if(!cr) return 0; e=d_create(s); if(!e) return 0; } if(t) e->f->n=0; dbuf_* h=(dbuf_*)malloc(sizeof(dbuf_)); h->f=e->f; h->pos=(m&ios_base::ate)?e->f->n:0; h->pend=0; h->pn=0; h->app=a; _M_mode=m|(a?out:ios_base::openmode(0)); _M_file.sys_open((__c_file*)h,m); this->setg(0,0,0); this->setp(0,0); return this; }
template<> basic_filebuf<char>* basic_filebuf<char>::close(){ if(!_M_file.is_open()) return 0; dbuf_* h=DB_; db_flush(h); free(h->pend); free(h); free(_M_buf); _M_buf=0; this->setg(0,0,0); this->setp(0,0); _M_file.close(); _M_mode=ios_base::openmode(0); return this; }
template<> streamsize basic_filebuf<char>::showmanyc(){ if(!(_M_mode&ios_base::in)||!_M_file.is_open()) return -1; dbuf_* h=DB_; return (egptr()-gptr())+(h->f->n>h->pos?h->f->n-h->pos:0); }
template<> basic_filebuf<char>::int_type basic_filebuf<char>::underflow(){ if(!(_M_mode&ios_base::in)||!_M_file.is_open()) return traits_type::eof(); if(gptr()<egptr()) return traits_type::to_int_type(*gptr()); dbuf_* h=DB_; db_flush(h); if(h->pos>=h->f->n) return traits_type::eof(); size_t k=h->f->n-h->pos; if(k>8191) k=8191; free(_M_buf); _M_buf=(char*)malloc(k); memcpy(_M_buf,h->f->d+h->pos,k); h->pos+=k; setg(_M_buf,_M_buf,_M_buf+k); return traits_type::to_int_type(*gptr()); }
template<> basic_filebuf<char>::int_type basic_filebuf<char>::pbackfail(int_type c){ if(gptr()&&eback()<gptr()){ gbump(-1); if(!traits_type::eq_int_type(c,traits_type::eof())) *gptr()=traits_type::to_char_type(c); return traits_type::not_eof(c); } return traits_type::eof(); }
static void db_drop(dbuf_* h,char* g,char* e){ h->pos-=e-g; }
template<> basic_filebuf<char>::int_type basic_filebuf<char>::overflow(int_type c){ if(!(_M_mode&ios_base::out)||!_M_file.is_open()) return traits_type::eof(); dbuf_* h=DB_; if(gptr()<egptr()) db_drop(h,gptr(),egptr()); setg(0,0,0); if(traits_type::eq_int_type(c,traits_type::eof())) db_flush(h); else { char ch=traits_type::to_char_type(c); db_put(h,&ch,1); } return traits_type::not_eof(c); }
template<> streamsize basic_filebuf<char>::xsputn(const char* s,streamsize n){ if(!(_M_mode&ios_base::out)||!_M_file.is_open()) return 0; dbuf_* h=DB_; if(gptr()<egptr()) db_drop(h,gptr(),egptr()); setg(0,0,0); if(n>0) db_put(h,s,n); return n; }
template<> streamsize basic_filebuf<char>::xsgetn(char* s,streamsize n){ return basic_streambuf<char>::xsgetn(s,n); }
template<> basic_streambuf<char>* basic_filebuf<char>::setbuf(char*,streamsize){ return this; }
template<> basic_filebuf<char>::pos_type basic_filebuf<char>::seekoff(off_type off,ios_base::seekdir way,ios_base::openmode){ if(!_M_file.is_open()) return pos_type(off_type(-1)); dbuf_* h=DB_; long cur=(long)h->pos-(egptr()-gptr())+(long)h->pn; if(way==ios_base::cur&&off==0&&!h->pn) return pos_type(cur); db_flush(h); long t= way==ios_base::beg?off: way==ios_base::cur?cur+off:(long)h->f->n+off; if(t<0) return pos_type(off_type(-1)); setg(0,0,0); h->pos=t; return pos_type(t); }
template<> basic_filebuf<char>::pos_type basic_filebuf<char>::seekpos(pos_type p,ios_base::openmode){ return seekoff(off_type(p),ios_base::beg,ios_base::in|ios_base::out); }
template<> int basic_filebuf<char>::sync(){ if(_M_file.is_open()) db_flush(DB_); return 0; }
template<> void basic_filebuf<char>::imbue(const locale&){}
}
// std::system_error as libstdc++ defines it (the message text is not the real one)
#include <system_error>
namespace std { inline namespace _V2 {
error_category::~error_category() noexcept {}
error_condition error_category::default_error_condition(int i) const noexcept { return error_condition(i,*this); }
bool error_category::equivalent(int i,const error_condition& c) const noexcept { return default_error_condition(i)==c; }
bool error_category::equivalent(const error_code& c,int i) const noexcept { return *this==c.category()&&c.value()==i; }
__cow_string error_category::_M_message(int) const { __builtin_trap(); }
struct syscat_: error_category { const char* name() const noexcept override { return "system"; } string message(int) const override { return string("error"); } };
const error_category& system_category() noexcept { static syscat_ c; return c; }
}
system_error::~system_error() noexcept {} }
