#include <deque>
#include <list>
#include "models.hpp"
#include "strtk.hpp"
namespace pbt { const char* const property_id="M01";
const char* const rule_text="Sequences of 0..9 distinct elements (and sequences with repeats) in vector, deque, array and string, every k from 0 to n+1, enumerated by stepping, by iterator (pre/post increment, +=, unsorted construction) and by callback (stopping after any number of calls), against subsets listed from bit masks; n-th combinations at every index of small spaces and at sampled indexes of large ones; binomials against exact 128-bit arithmetic. Non-trivial: 0<k<n. Distinct by generated inputs."; }
using namespace model; using pbt::G; typedef std::vector<int> V;
typedef unsigned long long u64;
// All k-subsets of sorted v in lexicographic order (as index-increasing choices; repeated results removed when elements repeat).
static void rec(const V& v,size_t k,size_t from,V& cur,std::vector<V>& out){ if(cur.size()==k){ if(out.empty()||std::find(out.begin(),out.end(),cur)==out.end()) out.push_back(cur); return; } for(size_t i=from;i<v.size();++i){ cur.push_back(v[i]); rec(v,k,i+1,cur,out); cur.pop_back(); } }
static std::vector<V> subsets(const V& v,size_t k){ std::vector<V> o; V c; rec(v,k,0,c,o); std::sort(o.begin(),o.end()); return o; }
static V seq(G& g,bool repeats,size_t max=9){ size_t n=g.below(max+1); std::set<int> s; V v; if(repeats){ for(size_t i=0;i<n;++i) v.push_back((int)g.below(4)); std::sort(v.begin(),v.end()); return v; } while(s.size()<n) s.insert((int)g.below(60)-20); return V(s.begin(),s.end()); }
static V rest(const V& v,const V& c){ V r=v; for(int x:c) r.erase(std::find(r.begin(),r.end(),x)); return r; }
static void step(G& g,bool repeats){
  V v=seq(g,repeats,repeats?8:9); size_t k=g.below(v.size()+1); g.show("seq",v); g.show("k",(unsigned long)k); g.nt(k>0&&k<v.size()); std::vector<V> w=subsets(v,k); V a=v; std::deque<int> d(v.begin(),v.end()); size_t i=0; bool more;
  do{ CHECK(i<w.size(),"more than "<<w.size()<<" combinations"); CHECK_EQ(V(a.begin(),a.begin()+k),w[i],"combination "<<i); V r(a.begin()+k,a.end()); std::sort(r.begin(),r.end()); CHECK_EQ(r,rest(v,w[i]),"the others follow"); ++i; more=g.flip()?strtk::next_combination(a.begin(),a.begin()+k,a.end()):strtk::next_combination(a,k); bool m2=strtk::next_combination(d,k); CHECK_EQ(m2,more,"deque agrees"); CHECK_EQ(V(d.begin(),d.end()),a,"deque agrees"); }while(more);
  CHECK_EQ(i,w.size(),"all visited"); CHECK_EQ(a,v,"back in the first state");
}
FACET(stepping,4000){ step(g,false); }
FACET(stepping_with_repeats,2500){ step(g,true); }
FACET(stepping_text,2500){ std::string s; size_t n=g.below(9); std::set<char> t; while(t.size()<n) t.insert(char('a'+g.below(26))); s.assign(t.begin(),t.end()); size_t k=g.below(n+1); g.show("text",s); g.show("k",(unsigned long)k); g.nt(k>0&&k<n); V v(s.begin(),s.end()); auto w=subsets(v,k); std::string a=s; for(size_t i=0;i<w.size();++i){ CHECK_EQ(V(a.begin(),a.begin()+k),w[i],"combination "<<i); CHECK_EQ(strtk::next_combination(&a[0],&a[0]+k,&a[0]+n),i+1<w.size(),"continues"); } CHECK_EQ(a,s,"first state"); 
  a=s; bool mixed=g.chance(1,3); if(mixed) for(size_t i=a.size();i>1;--i) std::swap(a[i-1],a[g.below(i)]); strtk::combination_iterator<char*> it(k,a,!mixed),e(a); size_t i=0; for(;it!=e;++it,++i){ CHECK(i<w.size(),"too many"); CHECK_EQ(V((*it).first,(*it).second),w[i],"iterated "<<i); } CHECK_EQ(i,n?w.size():0,"iterated all"); }
FACET(iterating,5000){
  V v=seq(g,false); size_t k=g.below(v.size()+1); V u=v; bool sorted=g.flip(); if(!sorted) for(size_t i=u.size();i>1;--i) std::swap(u[i-1],u[g.below(i)]); g.show("seq",u); g.show("k",(unsigned long)k); g.show("sorted",sorted); g.nt(k>0&&k<v.size()); std::vector<V> w=subsets(v,k); if(v.empty()) w.clear(); typedef strtk::combination_iterator<V::iterator> I; unsigned form=(unsigned)g.below(4); g.show("form",form);
  I it=form&1?I(k,u,sorted):I(k,u.begin(),u.end(),sorted); I e=form&2?I(u):I(u.end()); size_t i=0; while(it!=e){ CHECK(i<w.size(),"more than "<<w.size()); CHECK_EQ((size_t)((*it).second-(*it).first),k,"size"); CHECK_EQ(V((*it).first,(*it).second),w[i],"iterated "<<i); switch(g.below(3)){ case 0: ++it; ++i; break; case 1: it++; ++i; break; default: { int d=(int)g.below(5); it+=d; i=std::min(i+d,w.size()); } } } CHECK_EQ(i,w.size(),"visited all"); CHECK(it==e,"end"); if(!w.empty()) CHECK_EQ(u,v,"first state"); ++it; CHECK(it==e,"end is sticky");
}
FACET(callbacks,5000){
  V v=seq(g,false); size_t k=g.below(v.size()+2); g.show("seq",v); g.show("k",(unsigned long)k); g.nt(k>0&&k<v.size()); std::vector<V> w=k<=v.size()?subsets(v,k):std::vector<V>(); V a=v; std::vector<V> got; strtk::for_each_combination(a.begin(),a.end(),k,[&](V::iterator b,V::iterator e){ got.push_back(V(b,e)); }); CHECK_EQ(got,w,"every combination in order"); CHECK_EQ(a,v,"first state");
  got.clear(); strtk::for_each_combination_conditional(a.begin(),a.end(),k,[&](V::iterator b,V::iterator e){ got.push_back(V(b,e)); return true; }); CHECK_EQ(got,w,"unstopped"); CHECK_EQ(a,v,"first state"); size_t stop=1+g.below(w.size()+2); g.show("stop",(unsigned long)stop); got.clear(); strtk::for_each_combination_conditional(a.begin(),a.end(),k,[&](V::iterator b,V::iterator e){ got.push_back(V(b,e)); return got.size()<stop; }); w.resize(std::min(stop,w.size())); CHECK_EQ(got,w,"stops when told"); std::sort(a.begin(),a.end()); CHECK_EQ(a,v,"same elements");
  std::deque<std::string> d; for(int x:v) d.push_back(std::string(30,char('A'+(x+20)%50))); size_t n=0; std::deque<std::string> d0=d; strtk::for_each_combination(d.begin(),d.end(),k,[&](std::deque<std::string>::iterator,std::deque<std::string>::iterator){ ++n; }); CHECK_EQ(n,k<=v.size()?subsets(v,k).size():0,"deque of text"); CHECK(d==d0,"first state");
}
FACET(nth_all,2500){ // every index
  V v=seq(g,false); size_t n=v.size(),k=g.below(n+1); g.show("seq",v); g.show("k",(unsigned long)k); g.nt(k>0&&k<n); bool full=g.flip(); g.show("complete",full); std::vector<V> w=subsets(v,k); V id; for(size_t i=0;i<n;++i) id.push_back((int)i); std::vector<V> wi=subsets(id,k);
  for(size_t i=0;i<w.size();++i){ V x=w[i],y=wi[i]; if(full){ V r=rest(v,x),q=rest(id,y); x.insert(x.end(),r.begin(),r.end()); y.insert(y.end(),q.begin(),q.end()); } V o; strtk::nth_combination_sequence(i,k,v.begin(),v.end(),pbt::slots(o),full); CHECK_EQ(o,x,"combination "<<i); std::vector<std::size_t> s; strtk::nth_combination_sequence(i,n,k,pbt::slots(s),full); CHECK_EQ(V(s.begin(),s.end()),y,"indexes "<<i); std::vector<std::size_t> p(x.size()+1,999); strtk::nth_combination_sequence(i,n,k,p.begin(),full); CHECK_EQ(V(p.begin(),p.end()-1),y,"indexes in place "<<i); CHECK_EQ(p.back(),(size_t)999,"nothing beyond"); }
}
typedef unsigned __int128 u128;
static const u128 BIG=(u128)1<<100;
static u128 choose(u64 n,u64 k){ if(k>n) return 0; k=std::min(k,n-k); u128 r=1; for(u64 i=1;i<=k;++i){ r=r*(n-k+i)/i; if(r>=BIG>>20) return BIG; } return r; }
FACET(nth_large,5000){ // rank of the computed combination is the index asked for
  size_t n=2+g.below(99),k=g.below(std::min<size_t>(n,20)+1); if(g.chance(1,4)) k=n-g.below(std::min<size_t>(n,6)); u128 t=choose(n,k); if(t>=((u128)1<<63)) return; u64 N=(u64)t; u64 i=g.chance(1,4)?(g.flip()?N-1-g.below(std::min<u64>(N,3)):g.below(std::min<u64>(N,3))):g.any64()%N; g.show("n",(unsigned long)n); g.show("k",(unsigned long)k); g.show("index",i); g.nt(k>0&&k<n);
  std::vector<std::size_t> s; strtk::nth_combination_sequence(i,n,k,pbt::slots(s),false); CHECK_EQ(s.size(),k,"size"); u128 rank=0; size_t prev=0; for(size_t j=0;j<k;++j){ CHECK(s[j]<n&&(j==0||s[j]>s[j-1]),"strictly increasing indexes below n"); for(size_t c=prev;c<s[j];++c) rank+=choose(n-c-1,k-j-1); prev=s[j]+1; } CHECK_EQ((u64)rank,i,"rank"); std::vector<std::size_t> f; strtk::nth_combination_sequence(i,n,k,pbt::slots(f),true); CHECK_EQ(f.size(),n,"completed"); CHECK(std::equal(s.begin(),s.end(),f.begin()),"combination first"); CHECK(std::is_sorted(f.begin()+k,f.end()),"rest ascending"); std::set<std::size_t> u(f.begin(),f.end()); CHECK_EQ(u.size(),n,"each index once");
}
FACET(binomials,6000){ u64 n=g.chance(1,5)?g.below(400):g.below(110); u64 k=g.chance(1,3)?g.below(n+2):g.chance(1,2)?g.below(6):n-g.below(std::min<u64>(n,5)+1); u128 w=choose(n,k); g.show("n",n); g.show("k",k); if(w>(u128)(u64)-1) return; g.nt(k>1&&k+1<n); if(g.chance(1,50)) strtk::initialize_n_choose_k(); CHECK_EQ(strtk::n_choose_k(n,k),(u64)w,"n choose k"); if(k<=n) CHECK_EQ(strtk::n_choose_k(n,n-k),(u64)w,"symmetric"); }
FACET(binomial_rows,120){ u64 n=g.below(121); g.show("n",n); g.nt(n>2); for(u64 k=0;k<=n+1;++k){ u128 w=choose(n,k); if(w<=(u128)(u64)-1) CHECK_EQ(strtk::n_choose_k(n,k),(u64)w,n<<" choose "<<k); } }
