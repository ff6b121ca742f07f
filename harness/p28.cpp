// P28: file streams of the library on RAM files and on disk files against an array of bytes; rename, remove, store; cache and plain files.
#include "sym.h"
#include <sdsl/int_vector.hpp>
#include <sdsl/sfstream.hpp>
#include <sdsl/io.hpp>
#include <sdsl/util.hpp>
#include <sdsl/bit_vectors.hpp>
using namespace sdsl;
struct FM { bool ex; uint8_t c[96]; long n; FM():ex(false),n(0){} };
static const char *F0,*F1; static const char* nm(bool q){ return q?F1:F0; }
static bool exists(const char* f){ isfstream z(f,std::ios::in|std::ios::binary); return z.is_open(); }
static void same(const char* f,const FM& m,const char* what){ sym_assert(exists(f)==m.ex,"existence"); if(!m.ex) return; sym_assert(util::file_size(f)==(size_t)m.n,"file size"); isfstream z(f,std::ios::in|std::ios::binary); char b[96]; z.read(b,m.n); sym_assert(z.gcount()==m.n,"readable"); for(long i=0;i<m.n;i++) sym_assert((uint8_t)b[i]==m.c[i],what); sym_assert(z.get()==-1,"end of file"); }
static void init(const char* f,FM& m,uint64_t n,const char* v){ osfstream o(f,std::ios::out|std::ios::binary|std::ios::trunc); m.ex=true; for(uint64_t i=0;i<n;i++){ m.c[i]=(uint8_t)sym_ui(v,i,8); char ch=(char)m.c[i]; o.write(&ch,1); m.n=i+1; } o.close(); }
struct wr { osfstream s; bool open,app; long pos; wr():open(false),app(false),pos(0){} };
struct rd { isfstream s; bool open,eof; long pos; rd():open(false),eof(false),pos(0){} };
static void put(wr& w,FM& m,uint8_t b){ if(w.app) w.pos=m.n; while(m.n<w.pos) m.c[m.n++]=0; m.c[w.pos++]=b; if(w.pos>m.n) m.n=w.pos; }
static void streams(){ uint64_t L=sym_cfg("L",3),n0=sym_cfg("n0",3),base=sym_cfg("base",0); uint64_t ops=sym_cfg("ops",0xffff); FM m; if(n0<100) init(F0,m,n0,"v"); wr w; rd r; bool dirty=false,flushed=true; uint64_t w0=sym_cfg("w0",1); if(w0){ w.s.open(F0,std::ios::in|std::ios::out|std::ios::binary); w.open=m.ex; sym_assert(w.s.is_open()==m.ex,"open for update"); if(!m.ex) return; } if(sym_cfg("r0",1)){ r.s.open(F0,std::ios::in|std::ios::binary); r.open=m.ex; }
  std::ostream& os=w.s; std::istream& is=r.s;
  for(uint64_t st=0;st<L;st++){ uint64_t op=sym_conc(sym_rangei("op",st,0,13)); sym_assume((ops>>op)&1); uint64_t q=sym_rangei("q",st,0,5); uint8_t b[3]; { uint64_t x=sym_ui("x",st,24); b[0]=(uint8_t)x; b[1]=(uint8_t)(x>>8); b[2]=(uint8_t)(x>>16); }
    switch(op){
    case 0: { sym_assume(!w.open); uint64_t k=sym_conc(q); const std::ios::openmode in=std::ios::in,out=std::ios::out; std::ios::openmode md[6]={out,out|std::ios::trunc,in|out,out|std::ios::app,in|out|std::ios::ate,in|out|std::ios::trunc}; bool must=k==2||k==4; w.s.open(F0,md[k]|std::ios::binary); bool ok=m.ex||!must; sym_assert(w.s.is_open()==ok,"opened or not"); sym_assert((bool)w.s.fail()==!ok,"state after open"); if(!ok){ w.s.clear(); break; } if(!m.ex){ m.ex=true; m.n=0; } if(k==0||k==1||k==5) m.n=0,dirty=true; w.open=true; w.app=k==3; w.pos=(k==4)?m.n:0; if(w.app) w.pos=m.n; break; }
    case 1: { sym_assume(w.open); uint64_t k=1+sym_conc(q); sym_assume(k<=3); w.s.write((char*)b,k); for(uint64_t i=0;i<k;i++) put(w,m,b[i]); sym_assert(w.s.good(),"write ok"); dirty=true; flushed=false; break; }
    case 2: { sym_assume(w.open&&q==0); w.s.put((char)b[0]); put(w,m,b[0]); sym_assert(w.s.good(),"put ok"); dirty=true; flushed=false; break; }
    case 3: { sym_assume(w.open&&!w.app); uint64_t k=sym_conc(q); long p= k==0?0: k==1?m.n: k==2?m.n/2: k==3?m.n+2: k==4?w.pos:-3; if(k==5){ if(base) os.seekp(p); else w.s.seekp(p); sym_assert(w.s.fail()||base,"seek before the begin of the file"); w.s.clear(); if(base) w.s.seekp(w.pos); break; }
      if(base) os.seekp(p); else w.s.seekp(p); sym_assert(w.s.good(),"seek ok"); w.pos=p; flushed=true; if(k==3){ w.s.put((char)b[0]); put(w,m,b[0]); dirty=true; flushed=false; } break; }
    case 4: { sym_assume(w.open&&!w.app); uint64_t k=sym_conc(q); long off= k==0?0: k==1?-1: k==2?1: k==3?-1: k==4?0:-2; std::ios::seekdir d= k<=1||k==5?std::ios::cur: k==2?std::ios::beg:std::ios::end; long p=(d==std::ios::cur?w.pos:d==std::ios::beg?0:m.n)+off; bool ok=p>=0&&p<=m.n; sym_assume(p<=m.n); if(base) os.seekp(off,d); else w.s.seekp(off,d); sym_assert(w.s.good()==ok,"relative seek"); if(ok) w.pos=p; else w.s.clear(); flushed=true; break; }
    case 5: sym_assume(w.open&&q==0); w.s.flush(); flushed=true; sym_assert(w.s.good(),"flush ok"); break;
    case 6: { sym_assume(w.open&&q<=1); w.s.close(); w.open=false; flushed=true; sym_assert(!w.s.is_open()&&!w.s.fail(),"closed"); if(sym_conc(q)){ w.s.put('x'); sym_assert(w.s.fail(),"writing to a closed file"); w.s.clear(); } break; }
    case 7: { sym_assume(q==0); if(r.open) r.s.close(); r.s.open(F0,std::ios::in|std::ios::binary); r.open=m.ex; sym_assert(r.s.is_open()==m.ex&&(bool)r.s.fail()!=m.ex,"reader opened"); if(!m.ex) r.s.clear(); r.pos=0; r.eof=false; dirty=!flushed; break; }
    case 8: { sym_assume(r.open&&q<=3); if(!flushed){ w.s.flush(); flushed=true; } if(dirty){ r.s.clear(); r.s.seekg(r.pos); dirty=false; r.eof=false; sym_assume(r.pos<=m.n); } if(r.eof){ r.s.clear(); r.eof=false; } long k=1+(long)sym_conc(q); char t[4]; r.s.read(t,k); long have=r.pos<m.n?m.n-r.pos:0,got=k<have?k:have; sym_assert(r.s.gcount()==got,"bytes read"); for(long i=0;i<got;i++) sym_assert((uint8_t)t[i]==m.c[r.pos+i],"byte read"); r.pos+=got; sym_assert((bool)r.s.eof()==(got<k)&&(bool)r.s.fail()==(got<k),"state after read"); if(got<k) r.s.clear(); break; }
    case 9: { sym_assume(r.open&&q<=1&&!dirty&&flushed&&!r.eof); uint64_t k=sym_conc(q); int c= k?r.s.peek():r.s.get(); int e= r.pos<m.n?(int)m.c[r.pos]:-1; sym_assert(c==e,"character read"); sym_assert((bool)r.s.eof()==(e<0),"end of file noticed"); if(!k&&e>=0) r.pos++; r.eof= e<0; if(!k&&e<0){ r.s.clear(); r.eof=false; } break; }
    case 10:{ sym_assume(r.open&&q<=2); if(!flushed){ w.s.flush(); flushed=true; } dirty=false; uint64_t k=sym_conc(q); long p= k==0?0: k==1?m.n/2:m.n; if(base) is.seekg(p); else r.s.seekg(p); sym_assert(r.s.good(),"seekg"); r.eof=false; r.pos=p; sym_assert((base?is.tellg():r.s.tellg())==std::streampos(p),"tellg"); break; }
    case 11:{ sym_assume(r.open&&!dirty&&flushed&&!r.eof); uint64_t k=sym_conc(q); long off= k==0?0: k==1?-1: k==2?1: k==3?-1: k==4?0:1; std::ios::seekdir d= k<=1||k==5?std::ios::cur: k==2?std::ios::beg:std::ios::end; long p=(d==std::ios::cur?r.pos:d==std::ios::beg?0:m.n)+off; sym_assume(p<=m.n); bool ok=p>=0; if(base) is.seekg(off,d); else r.s.seekg(off,d); sym_assert(r.s.good()==ok,"relative seek of the reader"); if(ok) r.pos=p; else r.s.clear(); sym_assert(r.s.tellg()==std::streampos(r.pos),"tellg after relative seek"); break; }
    case 12:{ sym_assume(r.open&&!dirty&&flushed&&!r.eof&&q<=1); uint64_t k=sym_conc(q); long p= k?-2:m.n+3; if(base) is.seekg(p); else r.s.seekg(p); if(k&&!base) sym_assert(r.s.fail(),"seekg before the begin"); char t; r.s.read(&t,1); sym_assert(r.s.gcount()==0&&r.s.fail(),"nothing to read outside the file"); r.s.clear(); r.s.seekg(r.pos); break; }
    default:{ sym_assume(w.open&&!w.app&&q==0); sym_assert((base?os.tellp():w.s.tellp())==std::streampos(w.pos),"tellp"); break; }
    } }
  if(w.open) w.s.close(); if(r.open) r.s.close(); same(F0,m,"byte in the file"); sdsl::remove(F0); m.ex=false; same(F0,m,""); }
// names: a and b; store, rename, remove, rewrite
static void names(){ FM m[2]; uint64_t L=sym_cfg("L",3); bool ram=sym_cfg("disk",0)==0; uint64_t e=sym_cfg("e",1); if(e&1) init(F0,m[0],2,"a"); if(e&2) init(F1,m[1],3,"b");
  for(uint64_t s=0;s<L;s++){ uint64_t op=sym_conc(sym_rangei("op",s,0,6)); uint64_t i=sym_conc(sym_rangei("i",s,0,1)); uint8_t x=(uint8_t)sym_ui("x",s,8);
    switch(op){
    case 0: { int r=sdsl::rename(nm(i),nm(!i)); sym_assert((r==0)==m[i].ex,"result of rename"); if(m[i].ex){ m[!i]=m[i]; m[i].ex=false; } break; }
    case 1: { int r=sdsl::rename(nm(i),nm(i)); sym_assert((r==0)==m[i].ex,"result of rename to itself"); break; }
    case 2: { int r=sdsl::remove(nm(i)); sym_assert(r==0||!m[i].ex,"result of remove"); m[i].ex=false; break; }
    case 3: { osfstream o(nm(i),std::ios::out|std::ios::binary); o.put((char)x); m[i].ex=true; m[i].n=1; m[i].c[0]=x; break; }
    case 4: { std::string t("t\0",2); t.push_back((char)x); sym_assert(store_to_file(t,nm(i)),"store string"); m[i].ex=true; m[i].n=3; m[i].c[0]='t'; m[i].c[1]=0; m[i].c[2]=x; break; }
    case 5: { x=(x&1)?255:1; x=(uint8_t)sym_conc(x); char t[3]={'a',(char)x,0}; sym_assert(store_to_file((const char*)t,nm(i)),"store characters"); m[i].ex=true; m[i].n=2; m[i].c[0]='a'; m[i].c[1]=x; break; }
    default:{ if(ram){ ram_fs::content_type c(2); c[0]=(char)x; c[1]=7; ram_fs::store(nm(i),c); m[i].ex=true; m[i].n=2; m[i].c[0]=x; m[i].c[1]=7; sym_assert(ram_fs::file_size(nm(i))==2&&ram_fs::exists(nm(i))&&ram_fs::content(nm(i))==c,"ram_fs"); } else { osfstream o(nm(i),std::ios::in|std::ios::out|std::ios::binary); sym_assert(o.is_open()==m[i].ex,"update"); if(m[i].ex){ o.put((char)x); m[i].c[0]=x; if(!m[i].n) m[i].n=1; } } }
    } for(int k=0;k<2;k++) same(nm(k),m[k],"byte after an operation"); }
  sdsl::remove(F0); sdsl::remove(F1);
  if(ram){ sym_assert(is_ram_file(F0)&&!is_ram_file("")&&!is_ram_file("x@")&&ram_file_name("x")=="@x"&&ram_file_name("@x")=="@x"&&disk_file_name("@x")=="x"&&disk_file_name("x")=="x","names of RAM files"); sym_assert(sdsl::rename("@nope","nope2")!=0,"rename across"); }
  else { sym_assert(!is_ram_file(F0),"not a RAM file"); } }
// plain arrays, vectors and the cache
static void plain(){ uint64_t n=sym_cfg("n",3),k=sym_cfg("k",1),w=sym_cfg("w",8); uint64_t v[64]; uint64_t mask=w==64?~0ULL:((1ULL<<w)-1); int_vector<> x(n,0,(uint8_t)w); for(uint64_t i=0;i<n;i++) x[i]=v[i]=sym_ui("v",i,(int)w)&mask; uint64_t by= k==0?1:k; uint64_t km= by==8?~0ULL:((1ULL<<(8*by))-1);
  { int_vector<> y; sym_assert(!load_from_file(y,F0),"load a missing file"); sym_assert(!load_vector_from_file(y,F0,(uint8_t)by),"load a missing plain file"); }
  bool ok=false; switch(by){ case 1: ok=store_to_plain_array<uint8_t>(x,F0); break; case 2: ok=store_to_plain_array<uint16_t>(x,F0); break; case 4: ok=store_to_plain_array<uint32_t>(x,F0); break; default: ok=store_to_plain_array<uint64_t>(x,F0); } sym_assert(ok,"plain array stored"); sym_assert(util::file_size(F0)==n*by,"plain size");
  { int_vector<> y(5,3,9); sym_assert(load_vector_from_file(y,F0,(uint8_t)by),"plain loaded"); sym_assert(y.size()==n,"plain vector size"); for(uint64_t i=0;i<n;i++) sym_assert(y[i]==(v[i]&km),"plain value"); if(n) sym_assert(y.width()==8*by,"plain width"); }
  if(by==1){ int_vector<8> y; sym_assert(load_vector_from_file(y,F0,1)&&y.size()==n,"bytes loaded"); for(uint64_t i=0;i<n;i++) sym_assert(y[i]==(v[i]&km),"byte"); }
  if(by==8){ int_vector<64> y; sym_assert(load_vector_from_file(y,F0,8)&&y.size()==n,"words loaded"); for(uint64_t i=0;i<n;i++) sym_assert(y[i]==v[i],"word"); }
  if(by==4){ int_vector<> y; sym_assert(load_vector_from_file(y,F0,4,20)&&y.size()==n,"narrow"); for(uint64_t i=0;i<n;i++) sym_assert(y[i]==(v[i]&km&0xfffff),"narrow value"); }
  if(by>1&&n){ { osfstream o(F0,std::ios::in|std::ios::out|std::ios::binary); o.seekp(0,std::ios::end); o.put('z'); } bool thrown=false; int_vector<> y; try { load_vector_from_file(y,F0,(uint8_t)by); } catch(const std::logic_error&){ thrown=true; } sym_assert(thrown,"size not a multiple"); }
  sdsl::remove(F0);
  sym_assert(store_to_file(x,F0),"stored"); { int_vector<> y(2,1,3); sym_assert(load_from_file(y,F0)&&y==x&&y.width()==w,"loaded"); int_vector<> z; sym_assert(load_vector_from_file(z,F0,0)&&z==x,"load_vector_from_file 0"); }
  if(w==8){ int_vector<8> b(n); for(uint64_t i=0;i<n;i++) b[i]=v[i]; sym_assert(store_to_file(b,F0),"fixed width"); int_vector<8> c; sym_assert(load_from_file(c,F0)&&c==b,"fixed width loaded"); sym_assert(store_to_file(b,F0,true),"fixed as variable"); int_vector<> d; sym_assert(load_from_file(d,F0)&&d==x,"fixed as variable loaded"); sym_assert(store_to_checked_file(b,F0),"checked"); int_vector<8> g; sym_assert(load_from_checked_file(g,F0)&&g==b,"checked loaded"); std::string cf=std::string(F0)+"_check"; sdsl::remove(cf); }
  sdsl::remove(F0);
  { std::string s; for(uint64_t i=0;i<n;i++) s.push_back((char)v[i]); std::vector<uint64_t> q(n); for(uint64_t i=0;i<n;i++) q[i]=v[i]; { osfstream o(F0,std::ios::out|std::ios::binary); uint64_t a=write_member(s,o); sym_assert(a==8+n,"string size"); a=serialize(q,o); sym_assert(a==8+8*n,"std::vector size"); write_member(v[0],o); } isfstream i(F0,std::ios::in|std::ios::binary); std::string s2("zz"); read_member(s2,i); sym_assert(s2==s,"string"); std::vector<uint64_t> q2; load(q2,i); sym_assert(q2==q,"std::vector"); uint64_t z; read_member(z,i); sym_assert(z==v[0],"member"); sym_assert(i.get()==-1,"all read"); }
  sdsl::remove(F0);
  { std::string dir=sym_cfg("disk",0)?".":"@"; cache_config c(false,dir,"p28"); sym_assert(!cache_file_exists("k",c),"not in the cache"); register_cache_file("k",c); sym_assert(c.file_map.count("k")==0,"not registered"); { int_vector<> y; sym_assert(!load_from_cache(y,"k",c),"not in the cache yet"); } sym_assert(store_to_cache(x,"k",c),"to cache"); sym_assert(cache_file_exists("k",c)&&c.file_map.count("k")==1,"in the cache"); { int_vector<> y; sym_assert(load_from_cache(y,"k",c)&&y==x,"from cache"); }
    cache_config d(false,dir,"p28"); sym_assert(cache_file_exists("k",d),"other configuration with the same id"); register_cache_file("k",d); sym_assert(d.file_map.count("k")==1,"registered"); cache_config e2(false,dir,"other"); sym_assert(!cache_file_exists("k",e2),"other id");
    cache_config g(true,dir,"p28",d.file_map); sym_assert(cache_file_exists("k",g),"file map"); std::string f=cache_file_name("k",c); e2.file_map["k"]=f; { int_vector<> y; sym_assert(load_from_cache(y,"k",e2)&&y==x,"mapped name"); }
    int_vector<> x2(n+1,1,5); sym_assert(store_to_cache(x2,"k",c),"again"); { int_vector<> y; sym_assert(load_from_cache(y,"k",d)&&y==x2,"replaced"); }
    bit_vector bv(n,1); sym_assert(store_to_cache(bv,"k",c,true)&&store_to_cache(x,"k",c,true),"with type"); { bit_vector y; sym_assert(load_from_cache(y,"k",c,true)&&y==bv,"typed"); int_vector<> z; sym_assert(load_from_cache(z,"k",c,true)&&z==x,"typed 2"); sym_assert(load_from_cache(z,"k",c)&&z==x2,"untyped"); sym_assert(cache_file_exists<bit_vector>("k",c)&&!cache_file_exists<int_vector<16> >("k",c),"typed existence"); }
    util::delete_all_files(c.file_map); sym_assert(!cache_file_exists("k",c)&&!exists(f.c_str()),"deleted"); std::string t1=tmp_file(c,"_x"),t2=tmp_file(c,"_x"); sym_assert(t1!=t2,"temporary names differ"); } }
extern "C" void __sym_main(){ if(sym_cfg("disk",0)){ F0="p28_a"; F1="p28_b"; } else { F0="@a"; F1="@b"; } switch(sym_cfg("kind",0)){ case 0: streams(); break; case 1: names(); break; default: plain(); } sym_cover("files"); }
