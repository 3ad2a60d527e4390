#include <memory>
#include "models.hpp"
#include "strtk.hpp"
namespace pbt { const char* const property_id="X07";
const char* const rule_text="Integer and string sequences with many equal elements in vector, deque, list, set, multiset, map and multimap, split points and parameters from 0 to beyond the size, arrays of several sizes compared after changing at most one byte, pointer containers with instance counting. Non-trivial: at least two elements. Distinct by generated inputs."; }
using namespace model; using pbt::G;
struct Mod { int m,r; bool operator()(int v) const { return ((v%m)+m)%m==r; } };
static std::vector<int> ints(G& g,size_t max){ size_t n=g.len(max); std::vector<int> v; int k=1+(int)g.below(12); for(size_t i=0;i<n;++i) v.push_back(g.chance(1,20)?g.integer<int>():(int)g.below(k)-3); return v; }
FACET(copying,12000){
  std::vector<int> v=ints(g,120); Mod p={1+(int)g.below(4),0}; p.r=(int)g.below(p.m); size_t n=g.below(v.size()+1); g.show("seq",v); g.show("mod",p.m); g.show("eq",p.r); g.show("n",(unsigned long)n); g.nt(v.size()>1);
  std::vector<int> o,w; strtk::copy_n(v.begin(),n,pbt::slots(o)); CHECK_EQ(o,std::vector<int>(v.begin(),v.begin()+n),"first n");
  o.clear(); for(int x:v) if(p(x)) w.push_back(x); strtk::copy_if(p,v.begin(),v.end(),pbt::slots(o)); CHECK_EQ(o,w,"selected"); CHECK_EQ(strtk::range_only_contains(p,v.begin(),v.end()),w.size()==v.size(),"only contains");
  o.clear(); size_t k=0; while(k<v.size()&&p(v[k])) ++k; auto e=strtk::copy_while(p,v.begin(),v.end(),pbt::slots(o)); CHECK_EQ(o,std::vector<int>(v.begin(),v.begin()+k),"while"); CHECK_EQ((size_t)(e-v.begin()),k,"while stops at");
  o.clear(); k=0; while(k<v.size()&&!p(v[k])) ++k; std::list<int> l(v.begin(),v.end()); auto f=strtk::copy_until(p,l.begin(),l.end(),pbt::slots(o)); CHECK_EQ(o,std::vector<int>(v.begin(),v.begin()+k),"until"); CHECK_EQ((size_t)std::distance(l.begin(),f),k,"until stops at");
  o.clear(); std::set<int> u(v.begin(),v.end()); strtk::extract_unique(v.begin(),v.end(),pbt::slots(o)); CHECK_EQ(o,std::vector<int>(u.begin(),u.end()),"unique, sorted");
}
FACET(extremes,10000){
  std::vector<int> v=ints(g,80); if(v.empty()) v.push_back(g.integer<int>()); g.show("seq",v); g.nt(v.size()>1); int lo=v[0],hi=v[0]; for(int x:v){ lo=std::min(lo,x); hi=std::max(hi,x); } int a=7,b=9;
  strtk::min_max_of_range(v.begin(),v.end(),a,b); CHECK_EQ(a,lo,"min"); CHECK_EQ(b,hi,"max");
  #define C(T) { T c(v.begin(),v.end()); a=7; b=9; strtk::min_max_of_cont(c,a,b); CHECK_EQ(a,lo,#T " min_max"); CHECK_EQ(b,hi,#T " min_max"); CHECK_EQ(strtk::min_of_cont(c),lo,#T); CHECK_EQ(strtk::max_of_cont(c),hi,#T); }
  C(std::vector<int>) C(std::deque<int>) C(std::list<int>) C(std::set<int>) C(std::multiset<int>)
  #undef C
}
FACET(cutting,10000){
  std::vector<std::string> v; size_t n=g.len(20); for(size_t i=0;i<n;++i) v.push_back(g.text("abcdef",12)); size_t r0=g.below(14),r1=g.chance(1,8)?std::string::npos:r0+g.below(10); g.show("seq",v); g.show("from",(unsigned long)r0); g.show("to",(unsigned long)r1); g.nt(n>1);
  std::vector<std::string> w,wi,o; for(auto& s:v){ if(s.size()>=r0){ std::string t=s.substr(r0,std::min(r1,s.size())-r0); w.push_back(t); wi.push_back(t); } else wi.push_back(s); }
  strtk::cut(r0,r1,v.begin(),v.end(),pbt::slots(o)); CHECK_EQ(o,w,"cut"); o.clear(); std::deque<std::string> d(v.begin(),v.end()); strtk::cut(r0,r1,d,pbt::slots(o)); CHECK_EQ(o,w,"cut container"); o=v; strtk::cut_inplace(r0,r1,o.begin(),o.end()); CHECK_EQ(o,wi,"cut in place");
}
FACET(progressions_and_insertion,10000){
  size_t n=g.len(200); int v0=(int)g.below(2000)-1000; std::vector<int> w; for(size_t i=0;i<n;++i) w.push_back(v0+(int)i); g.show("n",(unsigned long)n); g.show("start",v0); g.nt(n>1);
  { std::vector<int> a(n,-1); strtk::iota(a.begin(),a.end(),v0); CHECK_EQ(a,w,"iota range"); } { std::vector<int> a(n,-1); strtk::iota(a,v0); CHECK_EQ(a,w,"iota sequence"); } { std::vector<int> a(1,5),x(1,5); x.insert(x.end(),w.begin(),w.end()); strtk::iota(a,n,v0); CHECK_EQ(a,x,"iota appended"); }
  { std::vector<int> a; strtk::iota(n,v0,pbt::slots(a)); CHECK_EQ(a,w,"iota out"); } { std::set<int> a; strtk::iota(a,n,v0); CHECK(a==std::set<int>(w.begin(),w.end()),"iota set"); std::multiset<int> b; strtk::iota(b,n,v0); CHECK(b==std::multiset<int>(w.begin(),w.end()),"iota multiset"); }
  { std::vector<int> a(n+1,77); strtk::range::adapter<int> r(a.data(),n); strtk::iota<int>(r,v0); std::vector<int> x=w; x.push_back(77); CHECK_EQ(a,x,"iota adapter"); }
  size_t k=g.below(8); std::vector<int> o,x; for(size_t i=0;i<n;++i){ x.push_back(w[i]); if(k&&(i+1)%k==0) x.push_back(-9999); } g.show("interval",(unsigned long)k); size_t c=strtk::inserter(strtk::interval_inserter<int>(k,-9999),w.begin(),w.end(),pbt::slots(o)); CHECK_EQ(o,x,"interval insertion"); CHECK_EQ(c,x.size(),"count");
}
template<size_t N> static void cmp(G& g){
  std::string a=g.nbytes(N),b=a; if(N&&g.chance(3,4)) b[g.below(N)]^=char(1u<<g.below(8)); g.show("a",a); g.show("b",b); g.nt(N>1); Exact x(a),y(b); bool w=a==b; CHECK_EQ(strtk::memcmp_n<N>(x.b(),y.b()),w,"chars"); CHECK_EQ(strtk::memcmp_n<N>((const unsigned char*)x.b(),(const unsigned char*)y.b()),w,"bytes");
  unsigned char p[N+1],q[N+2]; memcpy(p,a.data(),N); memcpy(q,b.data(),N); p[N]=1; q[N]=2; q[N+1]=3; CHECK_EQ((strtk::memcmp_n<N,N+1,N+2>(p,q)),w,"arrays");
}
FACET(bulk_compare,10000){ switch(g.below(20)){ case 0: cmp<10>(g); break; case 1: cmp<1>(g); break; case 2: cmp<2>(g); break; case 3: cmp<3>(g); break; case 4: cmp<4>(g); break; case 5: cmp<5>(g); break; case 6: cmp<6>(g); break; case 7: cmp<7>(g); break; case 8: cmp<8>(g); break; case 9: cmp<9>(g); break; case 10: cmp<11>(g); break; case 11: cmp<12>(g); break; case 12: cmp<13>(g); break; case 13: cmp<15>(g); break; case 14: cmp<16>(g); break; case 15: cmp<17>(g); break; case 16: cmp<23>(g); break; case 17: cmp<31>(g); break; case 18: cmp<64>(g); break; default: cmp<127>(g); } }
FACET(maps,10000){
  size_t n=g.len(60); std::vector<std::pair<int,int>> in; for(size_t i=0;i<n;++i) in.push_back({(int)g.below(12),(int)g.below(1000)}); g.show("pairs",in); g.nt(n>1); std::map<int,int> m(in.begin(),in.end()); std::multimap<int,int> mm(in.begin(),in.end()); std::vector<int> keys; for(auto& p:m) keys.push_back(p.first);
  std::vector<int> a(1,3); strtk::util::make_key_list(m,a); std::vector<int> w(1,3); w.insert(w.end(),keys.begin(),keys.end()); CHECK_EQ(a,w,"keys appended"); std::list<int> l; strtk::util::make_key_list(m,l); CHECK_EQ(std::vector<int>(l.begin(),l.end()),keys,"keys in list"); std::set<int> s; strtk::util::make_key_list(m,s); CHECK(s==std::set<int>(keys.begin(),keys.end()),"key set"); std::multiset<int> ms; strtk::util::make_key_list(m,ms); CHECK(ms==std::multiset<int>(keys.begin(),keys.end()),"key multiset");
  for(int k=-1;k<13;++k){ std::vector<int> x,o; for(auto& p:in) if(p.first==k) x.push_back(p.second); strtk::util::make_value_list(mm,k,pbt::slots(o)); CHECK_EQ(o,x,"values of "<<k); std::deque<int> d; strtk::util::make_value_list(mm,k,d); CHECK_EQ(std::vector<int>(d.begin(),d.end()),x,"values of "<<k); }
}
struct Obj { static int live; int v; explicit Obj(int x):v(x){ ++live; } ~Obj(){ --live; } }; int Obj::live=0;
struct PObj { Mod m; bool operator()(const Obj* o) const { return m(o->v); } template<class K> bool operator()(const std::pair<K,Obj*>& p) const { return m(p.second->v); } };
FACET(pointer_containers,6000){
  std::vector<int> v=ints(g,40); PObj p={{1+(int)g.below(4),0}}; p.m.r=(int)g.below(p.m.m); g.show("values",v); g.show("mod",p.m.m); g.show("eq",p.m.r); unsigned e=(unsigned)g.below(7); g.show("container",e); Obj::live=0; std::multiset<int> want,got; for(int x:v) if(!p.m(x)) want.insert(x); g.nt(v.size()>1&&want.size()<v.size()); int k=0;
  #define D(T,ADD,VAL) { T c; for(int x:v){ Obj* o=new Obj(x); ADD; ++k; } strtk::util::delete_if(p,c); for(auto& q:c) got.insert(VAL); CHECK(got==want,"survivors"); CHECK_EQ((size_t)Obj::live,want.size(),"deleted exactly the others"); strtk::util::delete_all(c); CHECK(c.empty(),"emptied"); CHECK_EQ(Obj::live,0,"all deleted"); }
  switch(e){ case 0: D(std::vector<Obj*>,c.push_back(o),q->v) break; case 1: D(std::deque<Obj*>,c.push_back(o),q->v) break; case 2: D(std::list<Obj*>,c.push_back(o),q->v) break; 
    case 3: { typedef std::map<int,Obj*> M; D(M,c.insert(std::make_pair(k,o)),q.second->v) break; } case 4: { typedef std::multimap<int,Obj*> M; D(M,c.insert(std::make_pair(k%3,o)),q.second->v) break; } case 5: D(std::set<Obj*>,c.insert(o),q->v) break; default: D(std::multiset<Obj*>,c.insert(o),q->v) }
  #undef D
}
template<class C> static void pushes(const std::vector<int>& a,C& c,size_t n){ namespace u=strtk::util; switch(n){ case 1: u::push_back(c,a[0]); break; case 2: u::push_back(c,a[0],a[1]); break; case 3: u::push_back(c,a[0],a[1],a[2]); break; case 4: u::push_back(c,a[0],a[1],a[2],a[3]); break; case 5: u::push_back(c,a[0],a[1],a[2],a[3],a[4]); break; case 6: u::push_back(c,a[0],a[1],a[2],a[3],a[4],a[5]); break; case 7: u::push_back(c,a[0],a[1],a[2],a[3],a[4],a[5],a[6]); break; case 8: u::push_back(c,a[0],a[1],a[2],a[3],a[4],a[5],a[6],a[7]); break; case 9: u::push_back(c,a[0],a[1],a[2],a[3],a[4],a[5],a[6],a[7],a[8]); break; default: u::push_back(c,a[0],a[1],a[2],a[3],a[4],a[5],a[6],a[7],a[8],a[9]); } }
FACET(push_back_and_clear,6000){
  size_t n=1+g.below(11); std::vector<int> a; for(size_t i=0;i<11;++i) a.push_back((int)g.below(15)); std::vector<int> w(1,42); w.insert(w.end(),a.begin(),a.begin()+n); g.show("values",a); g.show("n",(unsigned long)n); g.nt(n>1); std::vector<int> v(1,42);
  if(n==11) strtk::util::push_back(v,a[0],a[1],a[2],a[3],a[4],a[5],a[6],a[7],a[8],a[9],a[10]); else { pushes(a,v,n); std::set<int> s; s.insert(42); pushes(a,s,n); CHECK(s==std::set<int>(w.begin(),w.end()),"set"); std::multiset<int> m; m.insert(42); pushes(a,m,n); CHECK(m==std::multiset<int>(w.begin(),w.end()),"multiset"); } CHECK_EQ(v,w,"all appended in order");
  strtk::util::clear(v); CHECK(v.empty(),"cleared"); std::queue<int> q; q.push(1); strtk::util::clear(q); CHECK(q.empty(),"cleared queue"); std::set<int> s(w.begin(),w.end()); strtk::util::clear(s); CHECK(s.empty(),"cleared set");
}
template<size_t N> static void arrays(G& g){
  std::string s=g.nbytes(g.below(N+3)); bool pad=g.flip(); unsigned char pc=(unsigned char)g.below(256); size_t len=g.below(N+3); g.show("N",(unsigned long)N); g.show("text",s); g.show("pad",pad); g.show("length",(unsigned long)len); g.nt(s.size()>1);
  std::unique_ptr<unsigned char[]> raw(new unsigned char[N]); typedef unsigned char A[N]; A& a=*reinterpret_cast<A*>(raw.get()); std::string w(N,'\x11'); memset(a,0x11,N); bool ok=s.size()<=N; if(ok){ std::copy(s.begin(),s.end(),w.begin()); if(pad) std::fill(w.begin()+s.size(),w.end(),(char)pc); }
  CHECK_EQ(strtk::set_array(a,s,pad,pc),ok,"set_array"); CHECK_EQ(std::string((char*)&a[0],N),w,"content"); CHECK_EQ(strtk::make_string(a,len),len<=N?w.substr(0,len):std::string(),"make_string"); CHECK_EQ(strtk::make_string(*reinterpret_cast<char(*)[N]>(raw.get()),len),len<=N?w.substr(0,len):std::string(),"make_string of char"); CHECK_EQ(strtk::make_string(a),w,"make_string of all"); CHECK_EQ(strtk::clear_array(a,(unsigned char)7,len),len<=N,"clear_array"); if(len<=N) std::fill(w.begin(),w.begin()+len,'\7'); CHECK_EQ(std::string((char*)&a[0],N),w,"cleared");
  { const size_t M=N>3?N-3:1; typedef unsigned char B[M]; std::unique_ptr<unsigned char[]> r2(new unsigned char[M]); B& b=*reinterpret_cast<B*>(r2.get()); for(size_t i=0;i<M;++i) b[i]=(unsigned char)(i*37+1); CHECK(strtk::set_array(a,b,pad,pc),"array into array"); for(size_t i=0;i<M;++i) w[i]=(char)b[i]; if(pad) std::fill(w.begin()+M,w.end(),(char)pc); CHECK_EQ(std::string((char*)&a[0],N),w,"array content"); if(M<N){ CHECK(!strtk::set_array(b,a,pad,pc),"longer array refused"); } }
}
FACET(fixed_arrays,6000){ switch(g.below(5)){ case 0: arrays<1>(g); break; case 1: arrays<4>(g); break; case 2: arrays<9>(g); break; case 3: arrays<16>(g); break; default: arrays<40>(g); } }
FACET(reverse_and_fill,6000){
  std::string s=g.bytes(80); char c=char(g.below(256)); g.show("text",s); g.show("c",c); g.nt(s.size()>1); std::string w(s.rbegin(),s.rend()),t=s; strtk::reverse(t); CHECK_EQ(t,w,"reverse string"); Exact x(s); strtk::reverse(std::make_pair(x.b(),x.e())); CHECK_EQ(x.str(),w,"reverse range"); strtk::reverse(strtk::range::adapter<char>(x.p,x.n)); CHECK_EQ(x.str(),s,"reverse twice");
  strtk::fill(t,c); CHECK_EQ(t,std::string(s.size(),c),"fill string"); strtk::fill(strtk::range::adapter<const char>(x.b(),x.e()),c); CHECK_EQ(x.str(),std::string(s.size(),c),"fill range"); std::vector<int> v(s.begin(),s.end()); strtk::fill(v,5); CHECK_EQ(v,std::vector<int>(s.size(),5),"fill sequence"); std::string so=s; strtk::sort(so); w=s; std::sort(w.begin(),w.end()); CHECK_EQ(so,w,"sort");
}

FACET(ranges,6000){
  std::string s=g.bytes(60); g.show("text",s); g.nt(s.size()>1); Exact x(s); typedef std::pair<const char*,const char*> R; R r(x.b(),x.e()); CHECK_EQ(strtk::distance(r),s.size(),"distance"); CHECK_EQ(strtk::make_string(r),s,"make_string"); typedef const unsigned char* U; auto a=strtk::make_pair<U>(s); CHECK_EQ(std::string(a.first,a.second),s,"make_pair"); auto b=strtk::make_pair<U,U>(r); CHECK_EQ(std::string(b.first,b.second),s,"make_pair of a range"); auto c=strtk::make_pair<U>(r); CHECK(c==b,"make_pair of a range"); auto d=strtk::make_pair<U,U>(strtk::range::string(x.b(),x.e())); CHECK(d==b,"make_pair of an adapter");
  strtk::range::string q(r),q2(x.b(),x.n); CHECK_EQ(q.size(),s.size(),"size"); CHECK_EQ((std::string)q,s,"text of a range"); CHECK_EQ((std::string)q2,s,"text of a range"); CHECK_EQ(strtk::range::as_string(q),s,"as_string"); CHECK_EQ(strtk::range::as_string(strtk::range::ustring((U)x.b(),(U)x.e())),s,"as_string"); for(size_t i=0;i<s.size();++i) CHECK_EQ(q[i],s[i],"element "<<i); strtk::range::string t=strtk::range::type(s); CHECK(t.begin()==s.data()&&t.size()==s.size(),"range of a string");
  if(!s.empty()){ strtk::range::adapter<char> w(x.p,x.n); size_t i=g.below(s.size()); w[i]='#'; CHECK_EQ(x.p[i],'#',"element reference"); x.p[i]=s[i]; strtk::reverse(strtk::range::string(x.b(),x.e())); CHECK_EQ(x.str(),std::string(s.rbegin(),s.rend()),"reverse of a range"); }
  std::vector<int> v(s.begin(),s.end()); strtk::range::adapter<int> ra(v.data(),v.size()); CHECK_EQ(std::vector<int>(ra.begin(),ra.end()),v,"elements");
}
LARGE(copying,6,70000) LARGE(extremes,6,70000) LARGE(cutting,6,600) LARGE(progressions_and_insertion,6,70000) LARGE(maps,6,70000) LARGE(pointer_containers,6,70000) LARGE(push_back_and_clear,6,70000) LARGE(reverse_and_fill,6,70000) LARGE(ranges,6,70000)
