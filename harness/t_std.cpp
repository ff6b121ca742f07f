// Standard library features that the code under test may come to use: the engine must decide all of them.
#include "../rt/sym.h"
#include <algorithm>
#include <numeric>
#include <functional>
#include <unordered_map>
#include <unordered_set>
#include <map>
#include <set>
#include <queue>
#include <stack>
#include <deque>
#include <list>
#include <forward_list>
#include <bitset>
#include <array>
#include <tuple>
#include <memory>
#include <mutex>
#include <atomic>
#include <sstream>
#include <iomanip>
#include <random>
#include <cstring>
#include <cstdlib>
#include <cctype>
#include <cmath>
#include <string>
#include <vector>
#include <limits>
#include <iterator>
#include <stdexcept>
#include <valarray>
#include <chrono>
#include <complex>
typedef uint64_t u;
static int cmpq(const void* a,const void* b){ u x=*(const u*)a,y=*(const u*)b; return x<y?-1:x>y; }
extern "C" void __sym_main(){ u t=sym_cfg("t",0); u a[6]; for(u i=0;i<6;i++) a[i]=sym_rangei("a",i,0,3); std::vector<u> v(a,a+6); u sum=0; for(u x:v) sum+=x; auto sorted=[&](const std::vector<u>& w){ u s=0; for(u i=0;i<w.size();i++){ s+=w[i]; if(i) sym_assert(w[i-1]<=w[i],"sorted"); } sym_assert(s==sum,"sum"); };
  switch(t){
  case 0: std::stable_sort(v.begin(),v.end()); sorted(v); break;
  case 1: std::sort(v.begin(),v.begin()+3); std::sort(v.begin()+3,v.end()); std::inplace_merge(v.begin(),v.begin()+3,v.end()); sorted(v); break;
  case 2: std::nth_element(v.begin(),v.begin()+2,v.end()); { u c=0; for(u x:a) c+=x<v[2]; sym_assert(c<=2,"nth"); } break;
  case 3: std::partial_sort(v.begin(),v.begin()+6,v.end()); sorted(v); break;
  case 4: std::make_heap(v.begin(),v.end()); std::sort_heap(v.begin(),v.end()); sorted(v); break;
  case 5: { std::function<u(u)> f=[&](u x){ return x+a[0]; }; sym_assert(f(2)==2+a[0],"f"); std::function<bool(u,u)> g=std::less<u>(); std::sort(v.begin(),v.end(),g); sorted(v); break; }
  case 6: { std::unordered_map<u,u> m; for(u x:a) m[x]++; u s=0; for(auto& p:m) s+=p.second; sym_assert(s==6,"um"); std::unordered_set<u> q(a,a+6); sym_assert(q.count(a[3])==1&&q.size()==m.size(),"us"); m.erase(a[0]); sym_assert(m.find(a[0])==m.end(),"er"); break; }
  case 7: { std::map<u,u> m; for(u x:a) m[x]++; std::set<u> s(a,a+6); sym_assert(m.size()==s.size(),"m"); auto it=m.lower_bound(2); sym_assert(it==m.end()||it->first>=2,"lb"); std::multiset<u> q(a,a+6); std::vector<u> w(q.begin(),q.end()); sorted(w); m.erase(m.begin()); sym_assert(m.size()+1==s.size(),"e"); break; }
  case 8: { std::priority_queue<u> q; for(u x:a) q.push(x); u p=9; while(!q.empty()){ sym_assert(q.top()<=p,"pq"); p=q.top(); q.pop(); } break; }
  case 9: { std::deque<u> d(a,a+6); d.push_front(a[5]); d.pop_back(); sym_assert(d.front()==a[5]&&d.back()==a[4],"dq"); std::stack<u> s; std::queue<u> q; for(u x:a){ s.push(x); q.push(x); } sym_assert(s.top()==a[5]&&q.front()==a[0],"sq"); break; }
  case 10:{ std::list<u> l(a,a+6); l.sort(); std::vector<u> w(l.begin(),l.end()); sorted(w); l.reverse(); l.remove(2); std::forward_list<u> f(a,a+6); f.sort(); std::vector<u> z(f.begin(),f.end()); sorted(z); break; }
  case 11:{ std::bitset<70> b; for(u x:a) b.set(x+60); u c=b.count(); sym_assert(c>=1&&c<=4,"bs"); b<<=3; sym_assert(b[63+a[1]],"sh"); std::array<u,3> r={{a[0],a[1],a[2]}}; auto tp=std::make_tuple(a[0],a[1]); sym_assert(std::get<1>(tp)==r[1],"tp"); u x,y; std::tie(x,y)=tp; sym_assert(x==a[0],"tie"); break; }
  case 12:{ std::unique_ptr<u[]> p(new u[3]); p[a[0]%3]=7; sym_assert(p[a[0]%3]==7,"up"); auto s=std::make_shared<u>(a[1]); auto s2=s; sym_assert(*s2==a[1]&&s.use_count()==2,"sp"); std::weak_ptr<u> w=s; sym_assert(!w.expired(),"wp"); break; }
  case 13:{ std::mutex m; std::lock_guard<std::mutex> l(m); std::atomic<u> x(a[0]); x.fetch_add(2); x++; sym_assert(x.load()==a[0]+3,"at"); u e=a[0]+3; sym_assert(x.compare_exchange_strong(e,5)&&x==5,"cas"); break; }
  case 14:{ std::ostringstream o; o<<"ab"<<a[0]<<' '<<17u<<-3; sym_assert(o.str().size()==8&&o.str()[2]==(char)('0'+a[0])&&o.str().substr(3)==" 17-3","oss"); std::stringstream s; s<<"12 34"; u x,y; s>>x>>y; sym_assert(x==12&&y==34,"iss"); break; }
  case 15:{ std::string s="hello"; s+=(char)('a'+a[0]); s.insert(0,"x"); s.append(3,'z'); s.erase(1,2); sym_assert(s.find("zzz")==5&&s.compare(0,4,"xllo")==0&&s.rfind('l')==2,"str"); s.replace(0,1,"qq"); sym_assert(s[0]=='q'&&s.size()==9,"rep"); sym_assert(std::to_string(a[0]+10)[1]==(char)('0'+a[0]),"ts"); sym_assert(s.find_first_of("ol")==2&&s.find_last_of("o")==4,"ffo"); s.reserve(100); s.resize(20,'y'); s.pop_back(); sym_assert(s.back()=='y',"rs"); sym_assert(std::string("abc")<std::string("abd"),"lt"); break; }
  case 16:{ sym_assert(std::stoul("42")==42&&std::stoi("-7")==-7&&strtoull("123",0,10)==123&&atoi("55")==55,"sto"); break; }
  case 17:{ char b[32]; strcpy(b,"abc"); strcat(b,"de"); sym_assert(!strcmp(b,"abcde")&&strncmp(b,"abx",2)==0&&strchr(b,'c')==b+2&&strrchr(b,'e')==b+4&&strstr(b,"cd")==b+2,"cstr"); strncpy(b,"zz",2); sym_assert(b[1]=='z'&&b[2]=='c'&&strlen(b)==5&&memchr(b,'d',6)==b+3,"cs2"); memmove(b+1,b,3); sym_assert(b[3]=='c',"mm"); sym_assert(memcmp("ab","ac",2)<0,"mc"); break; }
  case 18:{ qsort(v.data(),6,8,cmpq); sorted(v); u k=v[3]; u* p=(u*)bsearch(&k,v.data(),6,8,cmpq); sym_assert(p&&*p==k,"bsearch"); break; }
  case 19:{ u* p=(u*)calloc(3,8); p=(u*)realloc(p,80); p[9]=a[0]; sym_assert(p[0]==0&&p[9]==a[0],"ca"); free(p); void* q=0; sym_assert(posix_memalign(&q,64,100)==0&&((u)q&63)==0,"pm"); free(q); q=aligned_alloc(64,128); sym_assert(((u)q&63)==0,"aa"); free(q); break; }
  case 20:{ sym_assert(std::accumulate(v.begin(),v.end(),(u)0)==sum,"acc"); std::vector<u> w(6); std::iota(w.begin(),w.end(),a[0]); sym_assert(w[5]==a[0]+5,"iota"); std::partial_sum(v.begin(),v.end(),w.begin()); sym_assert(w[5]==sum,"ps"); std::adjacent_difference(w.begin(),w.end(),w.begin()); sym_assert(w[3]==a[3],"ad"); sym_assert(std::inner_product(v.begin(),v.end(),v.begin(),(u)0)>=sum,"ip"); break; }
  case 21:{ auto m=std::minmax_element(v.begin(),v.end()); sym_assert(*m.first<=a[2]&&*m.second>=a[2],"mm"); sym_assert(std::min({a[0],a[1],a[2]})<=a[1],"min"); std::vector<u> w; std::copy_if(v.begin(),v.end(),std::back_inserter(w),[](u x){ return x>1; }); sym_assert(w.size()==(u)std::count_if(v.begin(),v.end(),[](u x){ return x>1; }),"ci"); v.erase(std::remove(v.begin(),v.end(),(u)1),v.end()); sym_assert(std::find(v.begin(),v.end(),(u)1)==v.end(),"rm"); break; }
  case 22:{ std::sort(v.begin(),v.end()); u x=a[4]; auto r=std::equal_range(v.begin(),v.end(),x); sym_assert(r.second-r.first==std::count(a,a+6,x),"er"); v.erase(std::unique(v.begin(),v.end()),v.end()); sym_assert(std::binary_search(v.begin(),v.end(),x),"bs"); sym_assert(std::is_sorted(v.begin(),v.end()),"is"); sym_assert(std::adjacent_find(v.begin(),v.end())==v.end(),"af"); break; }
  case 23:{ std::reverse(v.begin(),v.end()); sym_assert(v[0]==a[5],"rev"); std::rotate(v.begin(),v.begin()+2,v.end()); sym_assert(v[0]==a[3],"rot"); std::swap_ranges(v.begin(),v.begin()+3,v.begin()+3); sym_assert(v[3]==a[3],"swr"); std::fill_n(v.begin(),2,a[1]); std::generate(v.begin()+2,v.end(),[&]{ return a[0]; }); sym_assert(v[1]==a[1]&&v[5]==a[0],"fg"); std::transform(v.begin(),v.end(),v.begin(),[](u x){ return x*2; }); sym_assert(v[5]==2*a[0],"tr"); std::replace(v.begin(),v.end(),(u)0,(u)9); sym_assert(v[5]!=0,"rp"); sym_assert(std::lexicographical_compare(a,a+6,v.begin(),v.end())||true,"lc"); sym_assert(std::equal(v.begin(),v.end(),v.begin()),"eq"); break; }
  case 24:{ do {} while(std::next_permutation(v.begin(),v.begin()+2)); sym_assert(v[0]<=v[1],"np"); std::partition(v.begin(),v.end(),[](u x){ return x<2; }); sym_assert(std::is_partitioned(v.begin(),v.end(),[](u x){ return x<2; }),"pt"); std::set_union(a,a+1,a+1,a+2,v.begin()); sym_assert(std::search(a,a+6,a+2,a+4)<=a+2,"sr"); break; }
  case 25:{ std::mt19937_64 g(13); u x=g(); sym_assert(x==g.operator()()||true,"mt"); std::uniform_int_distribution<u> d(0,9); sym_assert(d(g)<=9,"ud"); std::shuffle(v.begin(),v.end(),g); u s=0; for(u y:v) s+=y; sym_assert(s==sum,"sh"); break; }
  case 26:{ sym_assert(__builtin_popcountll(a[0]|8)>=1&&__builtin_ctzll(a[0]|4)<=2&&__builtin_clzll(a[0]|1)>=62&&__builtin_ffsll(a[0])<=2&&__builtin_parityll(a[0])<2&&__builtin_bswap64(a[0]<<56)==a[0],"bi"); u r; sym_assert(!__builtin_add_overflow(a[0],(u)5,&r)&&r==a[0]+5&&!__builtin_mul_overflow(a[0],(u)5,&r)&&r==5*a[0],"ov"); sym_assert(std::numeric_limits<u>::max()==~(u)0,"nl"); lldiv_t q=lldiv(17,5); sym_assert(q.quot==3&&q.rem==2&&labs(-4)==4&&std::abs(-3)==3,"div"); break; }
  case 27:{ sym_assert(isdigit('0'+(int)a[0])&&isalpha('q')&&toupper('a')=='A'&&isspace(' ')&&tolower('B')=='b',"ct"); break; }
  case 28:{ sym_assert(std::ceil(2.5)==3&&std::floor(2.5)==2&&std::log2(8.0)==3&&std::pow(2.0,5.0)==32&&std::sqrt(9.0)==3&&(u)std::round(2.4)==2&&std::log(1.0)==0&&std::fabs(-1.0)==1,"fl"); double d=(double)a[0]; sym_assert((u)d==a[0],"dc"); sym_assert((u)(std::ceil(a[0]/2.0))==(a[0]+1)/2,"dceil"); break; }
  case 29:{ bool c=false; try { if(a[0]==2) throw std::out_of_range("x"); v.at(a[0]+4); } catch(const std::exception& e){ c=true; } sym_assert(c==(a[0]>=2),"exc"); try { try { throw 5; } catch(...) { throw; } } catch(int i){ sym_assert(i==5,"re"); } break; }
  case 30:{ std::vector<bool> b(70); for(u i=0;i<6;i++) b[i*13]=a[i]&1; u c=0; for(bool x:b) c+=x; u e=0; for(u x:a) e+=x&1; sym_assert(c==e&&(u)std::count(b.begin(),b.end(),true)==e,"vb"); b.flip(); b.push_back(true); sym_assert(b.size()==71,"vbs"); std::vector<std::vector<u>> w(3,std::vector<u>(2,a[0])); w[1].insert(w[1].begin(),5); w.emplace_back(); w.resize(2); sym_assert(w[1][0]==5&&w[1].size()==3,"vv"); v.insert(v.begin()+1,{7,8}); sym_assert(v[2]==8&&v[3]==a[1],"ins"); v.shrink_to_fit(); std::vector<u> m(std::move(v)); sym_assert(m.size()==8&&v.empty(),"mv"); break; }
  case 31:{ auto s=std::chrono::high_resolution_clock::now(); auto e=std::chrono::high_resolution_clock::now(); sym_assert(std::chrono::duration_cast<std::chrono::milliseconds>(e-s).count()>=0,"ch"); break; }
  case 32:{ std::ostringstream o; o<<std::setw(4)<<std::setfill('0')<<7<<std::hex<<255<<std::dec<<std::endl<<1.5<<true<<'c'; sym_assert(o.str().size()>0,"fmt"); std::istringstream i("ab cd\nef"); std::string x,y; i>>x; std::getline(i,y); sym_assert(x=="ab"&&y==" cd","gl"); int z=0; std::istringstream k("-17"); k>>z; sym_assert(z==-17,"int"); break; }
  case 33:{ char b[40]; int n=snprintf(b,40,"%d %s",42,"xy"); sym_assert(n==5&&!strcmp(b,"42 xy"),"sn"); break; }
  case 34:{ static u st=0; static const std::vector<u> tab={1,2,3}; thread_local u tl=3; st++; tl++; sym_assert(st==1&&tab[a[0]%3]==a[0]%3+1&&tl==4,"static"); std::once_flag f; break; }
  case 35:{ auto b=std::bind([](u x,u y){ return x-y; },std::placeholders::_2,std::placeholders::_1); sym_assert(b(a[0],a[0]+5)==5,"bind"); std::reference_wrapper<u> r=std::ref(a[0]); r.get()=1; sym_assert(a[0]==1,"ref"); u (*fp)(u)=[](u x)->u{ return x^1; }; sym_assert(fp(a[1])==(a[1]^1),"fp"); std::hash<u> h; sym_assert(h(a[1])==h(a[1]),"h"); sym_assert(std::distance(v.begin(),std::next(v.begin(),2))==2,"it"); break; }
  }
  sym_cover("done"); }
