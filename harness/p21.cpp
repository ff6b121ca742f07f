// P21: compressed suffix trees against the naive suffix tree (leaves and LCP intervals of the naively sorted suffixes).
#include "csa.hpp"
#include <sdsl/suffix_trees.hpp>
#ifndef VCST
#define VCST cst_sct3<>
#endif
typedef VCST cst_t; typedef cst_t::node_type node_t; typedef cst_t::char_type ch_t;
struct iv { uint64_t l,r; bool operator==(const iv& o) const { return l==o.l&&r==o.r; } bool operator<(const iv& o) const { return l!=o.l?l<o.l:r>o.r; } };
struct tree { ref r; seq lcp; std::vector<iv> pre; std::vector<uint64_t> par,dep; std::vector<std::vector<uint64_t> > ch; // nodes in preorder
  uint64_t find(uint64_t l,uint64_t rr) const { iv x{l,rr}; return std::lower_bound(pre.begin(),pre.end(),x)-pre.begin(); }
  uint64_t lca(uint64_t a,uint64_t b) const { while(!(pre[a].l<=pre[b].l&&pre[b].r<=pre[a].r)) a=par[a]; return a; } };
static tree mktree(const seq& t){ tree T; T.r=mkref(t); uint64_t n=T.r.n; const seq&a=T.r.a,&e=T.r.e; T.lcp.assign(n,0);
  for(uint64_t i=1;i<n;i++){ uint64_t x=e[i-1],y=e[i],k=0; while(a[x+k]==a[y+k]) k++; T.lcp[i]=k; }
  std::vector<iv> v; for(uint64_t i=0;i<n;i++) v.push_back(iv{i,i}); 
  for(uint64_t i=1;i<n;i++){ uint64_t L=T.lcp[i],l=i-1,r=i; while(l>0&&T.lcp[l]>=L) l--; while(r+1<n&&T.lcp[r+1]>=L) r++; bool first=true; for(uint64_t j=l+1;j<i;j++) if(T.lcp[j]==L) first=false; if(first) v.push_back(iv{l,r}); }
  std::sort(v.begin(),v.end()); T.pre=v; T.par.assign(v.size(),0); T.ch.resize(v.size()); T.dep.assign(v.size(),0); std::vector<uint64_t> st;
  for(uint64_t i=0;i<v.size();i++){ while(!st.empty()&&v[st.back()].r<v[i].l) st.pop_back(); if(!st.empty()){ T.par[i]=st.back(); T.ch[st.back()].push_back(i); } st.push_back(i);
    if(v[i].l==v[i].r) T.dep[i]=n-e[v[i].l]; else { uint64_t m=~0ULL; for(uint64_t j=v[i].l+1;j<=v[i].r;j++) m=std::min(m,T.lcp[j]); T.dep[i]=m; } }
  return T; }
template<class I> static bool same(const bp_interval<I>& a,const bp_interval<I>& b){ return a.i==b.i&&a.j==b.j&&a.ipos==b.ipos&&a.cipos==b.cipos&&a.jp1pos==b.jp1pos; }
template<class N> static bool same(const N& a,const N& b){ return a==b; }
static void is(const cst_t& c,const tree& T,const node_t& w,uint64_t k,const char* what){ const iv& x=T.pre[k]; sym_assert(c.lb(w)==x.l,what); sym_assert(c.rb(w)==x.r,what); sym_assert(same(w,c.node(x.l,x.r)),what); }
static uint64_t look(const tree& T,uint64_t k){ uint64_t n=T.r.n; const iv& x=T.pre[k]; return n<=60||k<=2||tlook(x.l,n)||(x.l<x.r&&tlook(x.r,n))||k%sym_cfg("step",1)==0; }
static uint64_t leafcnt(const tree& T,uint64_t k){ return T.pre[k].r-T.pre[k].l+1; }
static void chk(cst_t& c,const tree& T,int lvl){ const ref& r=T.r; uint64_t n=r.n,N=T.pre.size(); const seq&a=r.a,&e=r.e,&s=r.isa; bool big=n>16;
  sym_assert(c.size()==n,"size"); if(c.size()!=n) return; sym_assert(!c.empty(),"empty"); sym_assert(c.nodes()==N,"nodes"); sym_assert(c.csa.size()==n,"csa size"); sym_assert(c.lcp.size()==n,"lcp size"); is(c,T,c.root(),0,"root");
  for(uint64_t i=0;i<n;i++) if(tlook(i,n)){ sym_assert(c.lcp[i]==T.lcp[i],"LCP"); sym_assert(c.csa[i]==e[i],"SA"); uint64_t k=T.find(i,i); is(c,T,c.select_leaf(i+1),k,"select_leaf"); sym_assert(c.sn(c.select_leaf(i+1))==e[i],"sn"); }
  std::vector<uint64_t> al; for(auto&p:r.cnt) if(al.size()<6||p.first>=250) al.push_back(p.first); { uint64_t ab[]={100,255,1,1000}; for(uint64_t x:ab){ if(IW==8) x&=255; if(!r.cnt.count(x)) al.push_back(x); } }
  std::vector<uint64_t> nd(N,0),ids; for(uint64_t k=1;k<N;k++) nd[k]=nd[T.par[k]]+1;
  for(uint64_t k=0;k<N;k++) if(look(T,k)){ const iv& x=T.pre[k]; node_t v=c.node(x.l,x.r); bool leaf=x.l==x.r; uint64_t D=T.ch[k].size(),d=T.dep[k];
    is(c,T,v,k,"node"); sym_assert(c.is_leaf(v)==leaf,"is_leaf"); sym_assert(c.size(v)==x.r-x.l+1,"size of a node"); if(n>1) sym_assert(c.depth(v)==d,"depth"); sym_assert(c.node_depth(v)==nd[k],"node_depth"); sym_assert(c.degree(v)==D,"degree"); is(c,T,c.parent(v),T.par[k],"parent");
    is(c,T,c.leftmost_leaf(v),T.find(x.l,x.l),"leftmost_leaf"); is(c,T,c.rightmost_leaf(v),T.find(x.r,x.r),"rightmost_leaf");
    for(uint64_t i=1;i<=D;i++) if(D<10||i<=3||i+1>=D) is(c,T,c.select_child(v,i),T.ch[k][i-1],"select_child");
    if(leaf) is(c,T,c.select_child(v,1),0,"select_child of a leaf");
    { uint64_t sb=0; if(k){ const std::vector<uint64_t>& z=T.ch[T.par[k]]; for(uint64_t i=0;i+1<z.size();i++) if(z[i]==k) sb=z[i+1]; is(c,T,c.sibling(v),sb,"sibling"); } }
    for(uint64_t y:al){ uint64_t g=0; for(uint64_t q:T.ch[k]) if(a[e[T.pre[q].l]+d]==y) g=q; is(c,T,c.child(v,(ch_t)y),g,"child");
      if(g){ uint64_t cp=0; is(c,T,c.child(v,(ch_t)y,cp),g,"child with char_pos"); sym_assert(cp<n,"char_pos"); if(cp<n){ bool ok=false; for(uint64_t j=T.pre[g].l;j<=T.pre[g].r;j++) ok|=s[e[j]+d]==cp; sym_assert(ok,"char_pos"); } }
    }
    if(n>1) for(uint64_t i=1;i<=d;i++) if(d<10||i<=3||i+2>d||i%sym_cfg("step",1)==0) sym_assert(c.edge(v,i)==a[e[x.l]+i-1],"edge");
    { uint64_t w=0; if(k){ if(leaf) w=e[x.l]+1<n?T.find(s[e[x.l]+1],s[e[x.l]+1]):0; else w=T.lca(T.find(s[e[x.l]+1],s[e[x.l]+1]),T.find(s[e[x.r]+1],s[e[x.r]+1])); } is(c,T,c.sl(v),w,"sl"); }
#ifdef SADA
    if(k) for(uint64_t i=1;i<=d;i++) if(i<=3||i+1>=d){ uint64_t p=e[x.l]+i,q=e[x.r]+i,w=p>=n||q>=n?0:T.lca(T.find(s[p],s[p]),T.find(s[q],s[q])); is(c,T,c.sl(v,i),w,"sl applied i times"); }
#endif
    if(n>1) for(uint64_t y:al) if(y){ uint64_t lo=~0ULL,hi=0,o=0; for(uint64_t j=x.l;j<=x.r;j++) if(e[j]>0&&a[e[j]-1]==y){ uint64_t q=s[e[j]-1]; lo=std::min(lo,q); hi=std::max(hi,q); o++; } uint64_t w=o?T.find(lo,hi):0; is(c,T,c.wl(v,(ch_t)y),w,"wl"); }
#ifndef FULLY
    { uint64_t id=c.id(v); sym_assert(id<N,"id range"); ids.push_back(id); is(c,T,c.inv_id(id),k,"inv_id"); if(leaf) sym_assert(id==x.l,"id of a leaf"); }
#endif
    { auto cs=c.children(v); uint64_t i=0; sym_assert(cs.size()==D,"children size"); for(auto it=cs.begin();it!=cs.end()&&i<D+2;++it,++i){ if(i<D&&(D<10||i<3)) is(c,T,*it,T.ch[k][i],"children"); } sym_assert(i==D,"children count"); if(D) is(c,T,cs[D-1],T.ch[k][D-1],"children[]"); }
    if(n>1&&k){ auto str=extract(c,v); sym_assert(str.size()==d,"extract length"); if(str.size()==d) for(uint64_t i=0;i<d;i++) if(tlook(i,d)) sym_assert((uint64_t)(ch_t)str[i]==a[e[x.l]+i],"extract"); std::vector<ch_t> buf(d+2,77); uint64_t len=extract(c,v,buf.begin()); sym_assert(len==d,"extract length (iterator)"); for(uint64_t i=0;i<d;i++) if(tlook(i,d)) sym_assert((uint64_t)buf[i]==a[e[x.l]+i],"extract (iterator)"); sym_assert(buf[d+1]==77,"extract writes beyond"); }
    if(lvl){ double h0=0; for(uint64_t q:T.ch[k]){ double p=(double)leafcnt(T,q)/(double)leafcnt(T,k); h0-=p*log2(p); } double g=H0(v,c); sym_assert(g-h0<1e-9&&h0-g<1e-9,"H0"); }
    for(uint64_t q=k;q<N;q++) if(!big||(q-k<5)||(q%sym_cfg("lst",7)==0&&look(T,q))){ node_t w=c.node(T.pre[q].l,T.pre[q].r); uint64_t g=T.lca(k,q); is(c,T,c.lca(v,w),g,"lca"); is(c,T,c.lca(w,v),g,"lca"); } }
  std::sort(ids.begin(),ids.end()); for(uint64_t i=1;i<ids.size();i++) sym_assert(ids[i-1]!=ids[i],"id unique");
  if(lvl){ // traversals
    std::vector<std::pair<uint64_t,int> > ev; struct rec { static void go(const tree& T,uint64_t k,std::vector<std::pair<uint64_t,int> >& o){ o.push_back({k,1}); if(T.ch[k].empty()) return; for(uint64_t q:T.ch[k]) go(T,q,o); o.push_back({k,2}); } }; rec::go(T,0,ev);
    { uint64_t i=0; for(auto it=c.begin();it!=c.end();++it,++i){ if(i>=ev.size()){ i++; break; } if(!big||i%3==0) is(c,T,*it,ev[i].first,"depth first traversal"); sym_assert(it.visit()==ev[i].second,"visit"); } sym_assert(i==ev.size(),"length of the depth first traversal"); }
    { uint64_t i=0; for(auto v:c){ if(i>=ev.size()){ i++; break; } sym_assert(c.lb(v)==T.pre[ev[i].first].l&&c.rb(v)==T.pre[ev[i].first].r,"range for"); i++; } sym_assert(i==ev.size(),"range for"); }
#ifndef FULLY
    { std::vector<uint64_t> bu; for(uint64_t i=0;i<ev.size();i++){ uint64_t k=ev[i].first; if(T.ch[k].empty()||ev[i].second==2) bu.push_back(k); } uint64_t i=0; for(auto it=c.begin_bottom_up();it!=c.end_bottom_up();++it,++i){ if(i>=bu.size()){ i++; break; } is(c,T,*it,bu[i],"bottom up traversal"); } sym_assert(i==bu.size(),"length of the bottom up traversal"); }
    if(!big) for(uint64_t k=0;k<N;k++){ std::vector<std::pair<uint64_t,int> > sv; rec::go(T,k,sv); node_t v=c.node(T.pre[k].l,T.pre[k].r); uint64_t i=0; for(auto it=c.begin(v);it!=c.end(v);++it,++i){ if(i>=sv.size()){ i++; break; } is(c,T,*it,sv[i].first,"traversal of a subtree"); sym_assert(it.visit()==sv[i].second,"visit in a subtree"); } sym_assert(i==sv.size(),"length of the traversal of a subtree"); }
#endif
    { std::vector<uint64_t> q={0}; for(uint64_t i=0;i<q.size();i++) for(uint64_t z:T.ch[q[i]]) q.push_back(z); typedef cst_bfs_iterator<cst_t> bfs; uint64_t i=0; bfs b(&c,c.root()),be(&c,c.root(),true,true); for(;b!=be;++b,++i){ if(i>=q.size()){ i++; break; } if(!big||i%3==0) is(c,T,*b,q[i],"breadth first traversal"); } sym_assert(i==q.size(),"length of the breadth first traversal"); }
    { uint64_t i=0; auto it=c.begin(); auto c1=it; { auto c2=it; ++c2; } ++it; auto c3=it; c3=c1; sym_assert(c3==c1&&*c3==*c1,"copied iterator"); for(;it!=c.end()&&i<3&&i+1<ev.size();++it,++i){ c3=it; is(c,T,*c3,ev[i+1].first,"copied iterator"); } auto u=c.begin(); u.skip_subtree(); ++u; sym_assert(u==c.end()||n==1,"skip_subtree"); }
    for(uint64_t k=0;k<(n<20?4:3)&&k<=n;k++){ double h=0; uint64_t ctx=0; std::map<seq,std::map<uint64_t,uint64_t> > m; for(uint64_t i=0;i+k<n;i++){ seq w(a.begin()+i,a.begin()+i+k); m[w][i+k<n?a[i+k]:~0ULL]++; } if(k&&n>40) break; 
      for(auto&p:m){ double tot=0; for(auto&q:p.second) tot+=q.second; double z=0; for(auto&q:p.second){ double pr=q.second/tot; z-=pr*log2(pr); } h+=tot*z; ctx++; } h/=n; auto g=Hk(c,k); sym_assert(g.first-h<1e-9&&h-g.first<1e-9,"Hk"); (void)ctx; }
    if(n>1){ // pattern search through the tree
      for(uint64_t k=1;k<N;k+=(big?sym_cfg("step",1)+3:1)){ uint64_t d=T.dep[k]; if(d>8) d=8; for(uint64_t x=1;x<=d;x++){ seq p(a.begin()+e[T.pre[k].l],a.begin()+e[T.pre[k].l]+x); uint64_t lo=n,cnt=0; for(uint64_t i=0;i<n;i++){ bool eq=e[i]+x<=n; for(uint64_t j=0;eq&&j<x;j++) eq=a[e[i]+j]==p[j]; if(eq){ lo=std::min(lo,i); cnt++; } }
          node_t v=c.root(); uint64_t cp=0; uint64_t g=forward_search(c,v,0,p.begin(),p.end(),cp); sym_assert(g==cnt,"forward_search"); if(g==cnt) is(c,T,v,T.find(lo,lo+cnt-1),"forward_search locus"); sym_assert(count(c,p.begin(),p.end())==cnt,"count"); auto occ=locate(c,p.begin(),p.end()); sym_assert(occ.size()==cnt,"locate"); std::vector<uint64_t> o1,o2; for(uint64_t i=0;i<occ.size();i++) o1.push_back(occ[i]); for(uint64_t i=lo;i<lo+cnt;i++) o2.push_back(e[i]); std::sort(o1.begin(),o1.end()); std::sort(o2.begin(),o2.end()); sym_assert(o1==o2,"locate");
          p.back()=al.back(); bool oc=false; for(uint64_t i=0;i+x<=n;i++){ bool eq=true; for(uint64_t j=0;eq&&j<x;j++) eq=a[i+j]==p[j]; oc|=eq; } if(!oc){ node_t u=c.root(); uint64_t cq=0; sym_assert(forward_search(c,u,0,p.begin(),p.end(),cq)==0,"forward_search absent"); sym_assert(count(c,p.begin(),p.end())==0,"count absent"); } } } } }
}
extern "C" void __sym_main(){ sym_merge(0); seq t=gentext(); tree T=mktree(t); uint64_t vs=sym_cfg("vs",0);
  { cst_t z; sym_assert(z.size()==0&&z.empty(),"default constructed"); }
  cst_t* x=new cst_t; mk(*x,t,sym_cfg("nb",0)); chk(*x,T,1);
  if(vs){ seq t2={tsym(0,0),tsym(0,2),tsym(0,0)}; tree T2=mktree(t2); cst_t* y=new cst_t; mk(*y,t2,0,"@txt2");
    cst_t* c=new cst_t(*x); cst_t* as=new cst_t; *as=*y; *as=*x; store_to_file(*x,"@cst"); cst_t* l=new cst_t; load_from_file(*l,"@cst"); cst_t* l2=new cst_t(*y); load_from_file(*l2,"@cst");
    cst_t* m=new cst_t(std::move(*x)); delete x; chk(*m,T,0); chk(*c,T,0); chk(*as,T,0); chk(*l,T,0); chk(*l2,T,0);
    m->swap(*y); chk(*y,T,0); chk(*m,T2,0); cst_t* q=new cst_t; *q=std::move(*y); delete y; chk(*q,T,0); q->swap(*m); delete q; chk(*m,T,0); cst_t* em=new cst_t; em->swap(*m); sym_assert(m->empty(),"swap with an empty tree"); delete m; chk(*em,T,1); *l=cst_t(); sym_assert(l->empty(),"assigned an empty tree"); }
  sym_cover("cst"); }
