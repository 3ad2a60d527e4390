#include <deque>
#include <list>
#include "models.hpp"
#include "strtk.hpp"
namespace pbt { const char* const property_id="M02";
const char* const rule_text="Sequences of 0..7 distinct or repeated elements (vectors, deques, lists, strings) in sorted or any starting order, visited completely or stopped after a chosen number of calls, against std orderings listed independently by insertion; direct indexing at every index of small spaces and at sampled indexes of up to 20 elements, checked through the Lehmer rank. Non-trivial: at least three elements. Distinct by generated inputs."; }
using namespace model; using pbt::G; typedef std::vector<int> V; typedef unsigned long long u64;
static void rec(V left,V cur,std::set<V>& out){ if(left.empty()){ out.insert(cur); return; } for(size_t i=0;i<left.size();++i){ V l=left,c=cur; c.push_back(l[i]); l.erase(l.begin()+i); rec(l,c,out); } }
static std::vector<V> perms(const V& v){ std::set<V> s; rec(v,V(),s); return std::vector<V>(s.begin(),s.end()); }
static V seq(G& g,size_t max){ size_t n=g.below(max+1); V v; if(g.chance(1,4)){ for(size_t i=0;i<n;++i) v.push_back((int)g.below(3)); } else { std::set<int> s; while(s.size()<n) s.insert((int)g.below(50)-20); v.assign(s.begin(),s.end()); for(size_t i=n;i>1;--i) std::swap(v[i-1],v[g.below(i)]); } return v; }
FACET(visiting,1500){
  V u=seq(g,g.chance(1,5)?7:5),v=u; bool sorted=g.chance(2,3); if(sorted) std::sort(v.begin(),v.end()); g.show("seq",v); g.nt(v.size()>2); auto all=perms(v); std::vector<V> w(std::lower_bound(all.begin(),all.end(),v),all.end()); if(sorted) CHECK_EQ(w.size(),all.size(),"model"); V first=v; std::sort(first.begin(),first.end());
  std::vector<V> got; V a=v; strtk::for_each_permutation(a.begin(),a.end(),[&](V::iterator b,V::iterator e){ got.push_back(V(b,e)); }); CHECK_EQ(got,w,"orderings visited"); CHECK_EQ(a,first,"left sorted"); got.clear(); std::deque<int> d(v.begin(),v.end()); bool k=strtk::for_each_permutation_conditional(d.begin(),d.end(),[&](std::deque<int>::iterator b,std::deque<int>::iterator e){ got.push_back(V(b,e)); return true; }); CHECK(k,"ran through"); CHECK_EQ(got,w,"orderings visited");
  size_t stop=1+g.below(w.size()+1); g.show("stop",(unsigned long)stop); got.clear(); std::list<int> l(v.begin(),v.end()); k=strtk::for_each_permutation_conditional(l.begin(),l.end(),[&](std::list<int>::iterator b,std::list<int>::iterator e){ got.push_back(V(b,e)); return got.size()<stop; }); CHECK_EQ(k,stop>w.size(),"reports stopping"); w.resize(std::min(stop,w.size())); CHECK_EQ(got,w,"stops exactly there"); if(!k) CHECK_EQ(V(l.begin(),l.end()),w.back(),"left where stopped");
}
FACET(nth_all,600){
  size_t n=g.below(g.chance(1,4)?8:6); V id; for(size_t i=0;i<n;++i) id.push_back((int)i); std::vector<V> w; V p=id; do w.push_back(p); while(std::next_permutation(p.begin(),p.end())); g.show("n",(unsigned long)n); g.nt(n>2); V v; std::string s; for(size_t i=0;i<n;++i){ v.push_back((int)g.below(100)); s+=char('a'+g.below(26)); } g.show("seq",v); size_t from=w.size()>200?g.below(w.size()-150):0;
  for(size_t i=from;i<w.size()&&i<from+150;++i){ std::vector<std::size_t> o; strtk::nth_permutation_sequence(i,n,pbt::slots(o)); CHECK_EQ(V(o.begin(),o.end()),w[i],"indexes of ordering "<<i); std::vector<std::size_t> q(n+1,777); strtk::nth_permutation_sequence(i,n,q.begin()); CHECK_EQ(V(q.begin(),q.end()-1),w[i],"in place"); CHECK_EQ(q[n],(size_t)777,"nothing beyond"); V x,r; std::string t; for(int k:w[i]){ x.push_back(v[k]); t+=s[k]; } strtk::nth_permutation_sequence(i,v.begin(),v.end(),pbt::slots(r)); CHECK_EQ(r,x,"elements of ordering "<<i); CHECK_EQ(strtk::nth_permutation_sequence(i,s),t,"text of ordering "<<i); }
}
FACET(nth_large,6000){
  size_t n=1+g.below(20); u64 f=1; for(u64 i=2;i<=n;++i) f*=i; u64 i=g.chance(1,4)?(g.flip()?f-1-g.below(std::min<u64>(f,3)):g.below(std::min<u64>(f,3))):g.any64()%f; g.show("n",(unsigned long)n); g.show("index",i); g.nt(n>2); std::vector<std::size_t> o; strtk::nth_permutation_sequence(i,n,pbt::slots(o)); CHECK_EQ(o.size(),n,"size"); std::set<std::size_t> u(o.begin(),o.end()); CHECK(u.size()==n&&*u.rbegin()==n-1,"a permutation"); u64 rank=0; for(size_t a=0;a<n;++a){ f/=n-a; u64 less=0; for(size_t b=a+1;b<n;++b) less+=o[b]<o[a]; rank+=less*f; } CHECK_EQ(rank,i,"rank");
  std::string s; for(size_t a=0;a<n;++a) s+=char('A'+a); std::string t=strtk::nth_permutation_sequence(i,s); CHECK_EQ(t.size(),n,"text"); for(size_t a=0;a<n;++a) CHECK_EQ((size_t)(t[a]-'A'),o[a],"text agrees");
}
FACET(neighbours,5000){ size_t n=2+g.below(18); u64 f=1; for(u64 i=2;i<=n;++i) f*=i; u64 i=g.any64()%(f-1); g.show("n",(unsigned long)n); g.show("index",i); g.nt(n>2); std::string s; for(size_t a=0;a<n;++a) s+=char('A'+a); std::string a=strtk::nth_permutation_sequence(i,s),b=strtk::nth_permutation_sequence(i+1,s); CHECK(std::next_permutation(a.begin(),a.end()),"not the last"); CHECK_EQ(b,a,"successor"); }
