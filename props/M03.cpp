#include <deque>
#include <list>
#include "models.hpp"
#include "strtk.hpp"
namespace pbt { const char* const property_id="M03";
const char* const rule_text="Sources of 0..60 elements with distinguishable positions, every set size, seed and pre-generation count; permutations, combinations, k-of-n and 1-of-n selections, value and byte generation for all registered types with bounds anywhere (equal, adjacent, full range), into exactly sized buffers; an own generator driven to its extremes (0 and just below 1); spread checked over batches of seeds with limits beyond six sigma. Non-trivial: at least two elements drawn. Distinct by generated inputs."; }
using namespace model; using pbt::G; typedef std::vector<int> V; typedef std::size_t sz;
// A generator in [0,1) with chosen, often extreme values, presenting the min/max interface the selection functions ask for.
struct Rng { typedef double result_type; std::vector<double> v; sz i; Rng():i(0){} double operator()(){ return v.empty()?0.0:v[i++%v.size()]; } double min() const { return 0.0; } double max() const { return 1.0; } };
static Rng rng(G& g){ Rng r; sz n=1+g.below(12); for(sz i=0;i<n;++i) r.v.push_back(g.pick({0,1,2})==0?(g.flip()?0.0:0.99999999999999989):(double)g.below(1u<<30)/(double)(1u<<30)); return r; }
static V src(G& g,sz max){ sz n=g.len(max); V v; for(sz i=0;i<n;++i) v.push_back((int)i*7-20); for(sz i=n;i>1;--i) std::swap(v[i-1],v[g.below(i)]); return v; }
static bool drawn(const V& from,const V& got){ V a=from,b=got; std::sort(a.begin(),a.end()); std::sort(b.begin(),b.end()); return std::includes(a.begin(),a.end(),b.begin(),b.end())&&std::unique(b.begin(),b.end())==b.end(); }
FACET(permutations,5000){
  V v=src(g,60); sz seed=g.any64()>>g.below(64),pre=g.below(40); g.show("n",(unsigned long)v.size()); g.show("seed",(unsigned long)seed); g.show("pregen",(unsigned long)pre); g.nt(v.size()>1); V a,b,c(v.size()+1,9999),d; strtk::random_permutation(v.begin(),v.end(),pbt::slots(a),seed,pre); CHECK_EQ(a.size(),v.size(),"size"); CHECK(drawn(v,a),"a permutation"); strtk::random_permutation(v,pbt::slots(b),seed,pre); CHECK_EQ(b,a,"same seed, same permutation"); strtk::random_permutation(v.begin(),v.end(),c.begin(),seed,pre); CHECK_EQ(V(c.begin(),c.end()-1),a,"reproducible"); CHECK_EQ(c.back(),9999,"nothing beyond");
  Rng r=rng(g); g.show("draws",r.v); strtk::random_permutation(v.begin(),v.end(),r,pbt::slots(d)); CHECK_EQ(d.size(),v.size(),"size"); CHECK(drawn(v,d),"a permutation"); std::string s; for(sz i=0;i<v.size()&&i<26;++i) s+=char('a'+i); std::string t; strtk::random_permutation(s.begin(),s.end(),pbt::slots(t),seed); CHECK_EQ(t.size(),s.size(),"text"); std::sort(t.begin(),t.end()); CHECK_EQ(t,s,"text");
}
FACET(combinations,6000){
  V v=src(g,60); sz k=g.below(v.size()+3); sz seed=g.any64()>>g.below(64),pre=g.below(40); g.show("n",(unsigned long)v.size()); g.show("k",(unsigned long)k); g.show("seed",(unsigned long)seed); g.nt(k>1&&k<=v.size()); sz want=k<=v.size()?k:0; V a,b,d; strtk::random_combination(v.begin(),v.end(),k,pbt::slots(a),seed,pre); CHECK_EQ(a.size(),want,"size"); CHECK(drawn(v,a),"drawn without repetition"); strtk::random_combination(v,k,pbt::slots(b),seed,pre); CHECK_EQ(b,a,"reproducible"); Rng r=rng(g); g.show("draws",r.v); CHECK_EQ(strtk::random_combination(v.begin(),v.end(),k,r,pbt::slots(d)),k<=v.size(),"refuses more than there are"); CHECK_EQ(d.size(),want,"size"); CHECK(drawn(v,d),"drawn without repetition");
  V c(want+1,9999); strtk::random_combination(v.begin(),v.end(),k,c.begin(),seed,pre); CHECK_EQ(V(c.begin(),c.end()-1),a,"in place"); CHECK_EQ(c.back(),9999,"nothing beyond");
}
FACET(selections,8000){
  V v=src(g,60); sz k=g.below(v.size()+3); sz seed=g.any64()>>g.below(64); g.show("n",(unsigned long)v.size()); g.show("k",(unsigned long)k); g.show("seed",(unsigned long)seed); g.nt(k>1&&v.size()>k); sz want=std::min(k,v.size()); Rng r=rng(g); g.show("draws",r.v); V c(want+1,9999); CHECK_EQ(strtk::select_k_randomly(v.begin(),v.end(),k,c.begin(),r),want,"count"); CHECK_EQ(c.back(),9999,"nothing beyond"); c.pop_back(); CHECK(drawn(v,c),"drawn without repetition"); if(k>=v.size()) CHECK_EQ(c,v,"all, in order");
  strtk::uniform_real_rng u1(seed),u2(seed); V a,b; std::list<int> l(v.begin(),v.end()); strtk::select_k_randomly(v.begin(),v.end(),k,pbt::slots(a),u1); strtk::select_k_randomly(l.begin(),l.end(),k,pbt::slots(b),u2); CHECK_EQ(a,b,"function of the seed"); CHECK(drawn(v,a),"drawn"); V one; strtk::select_1_randomly(l.begin(),l.end(),pbt::slots(one),r); CHECK_EQ(one.size(),v.empty()?0:1,"one element"); CHECK(drawn(v,one),"from the source");
}
template<class T> static bool in(T x,T lo,T hi,bool closed){ return x>=lo&&(closed?x<=hi:(x<hi||lo==hi)); }
template<class T> static void ints(G& g,const char* n){ T a=g.integer<T>(),b=g.flip()?g.integer<T>():(T)(a+(T)g.below(4)); if(b<a) std::swap(a,b); if(g.chance(1,8)){ a=std::numeric_limits<T>::min(); b=std::numeric_limits<T>::max(); } sz k=g.len(60),seed=g.any64()>>g.below(64),pre=g.below(9); g.note(n); g.show("min",a); g.show("max",b); g.show("count",(unsigned long)k); g.show("seed",(unsigned long)seed); g.nt(k>1&&a<b);
  std::vector<T> v(k+1,T(42)),w,x; strtk::generate_random_values<T>(k,a,b,v.begin(),seed,pre); CHECK_EQ(v.back(),T(42),"nothing beyond"); v.pop_back(); for(T t:v) CHECK(in<T>(t,a,b,true),"value "<<+t<<" within ["<<+a<<","<<+b<<"]"); strtk::generate_random_values<T>(k,a,b,w,seed,pre); CHECK_EQ(w,v,"reproducible, into a sequence"); std::deque<T> d; strtk::generate_random_values<T>(k,a,b,pbt::slots(d),seed,pre); CHECK(std::equal(v.begin(),v.end(),d.begin())&&d.size()==k,"into a deque");
  if((unsigned long)b-(unsigned long)a<3&&a<b){ std::set<T> s; strtk::generate_random_values<T>(400,a,b,x,seed,pre); s.insert(x.begin(),x.end()); CHECK_EQ(s.size(),(size_t)((unsigned long)b-(unsigned long)a)+1,"every value of a small range appears"); } }
template<class T> static void reals(G& g,const char* n){ T a=(T)((double)g.range(-1000000,1000000)/64.0),b=a+(T)((double)(1+g.below(100000))/128.0); sz k=g.len(60),seed=g.any64()>>g.below(64),pre=g.below(9); g.note(n); g.show("min",a); g.show("max",b); g.show("count",(unsigned long)k); g.show("seed",(unsigned long)seed); g.nt(k>1); std::vector<T> v(k+1,T(1e30)),w,z; strtk::generate_random_values<T>(k,a,b,v.begin(),seed,pre); CHECK(v.back()==T(1e30),"nothing beyond"); v.pop_back(); for(T t:v) CHECK(t>=a&&t<b,"value in [min,max)"); strtk::generate_random_values<T>(k,a,b,w,seed,pre); CHECK_EQ(w,v,"reproducible"); strtk::generate_random_values<T>(k+pre,a,b,z,seed,0); CHECK_EQ(std::vector<T>(z.begin()+pre,z.end()),v,"pre-generation skips draws");
  if(g.chance(1,8)){ std::vector<T> m; strtk::generate_random_values<T>(400,a,b,m,seed+1,pre); std::set<int> parts; for(T t:m) parts.insert(std::min(7,(int)((t-a)/(b-a)*8))); CHECK_EQ(parts.size(),(size_t)8,"400 values reach every eighth of the range"); } }
FACET(values,8000){ switch(g.below(11)){ case 9: ints<char>(g,"char"); break; case 10: reals<long double>(g,"long double"); break; case 0: ints<int>(g,"int"); break; case 1: ints<short>(g,"short"); break; case 2: ints<unsigned short>(g,"ushort"); break; case 3: ints<unsigned>(g,"uint"); break; case 4: ints<unsigned char>(g,"uchar"); break; case 5: ints<long>(g,"long"); break; case 6: ints<unsigned long>(g,"ulong"); break; case 7: reals<double>(g,"double"); break; default: reals<float>(g,"float"); } }
FACET(byte_buffers,6000){
  sz n=g.len(200); unsigned pre=(unsigned)g.below(20),seed=(unsigned)g.any64(); g.show("length",(unsigned long)n); g.show("seed",seed); g.show("pregen",pre); g.nt(n>1); Exact a(std::string(n,'\0')),b(std::string(n,'\xff')); strtk::generate_random_data((unsigned char*)a.p,n,pre,seed); strtk::generate_random_data((unsigned char*)b.p,n,pre,seed); CHECK_EQ(a.str(),b.str(),"every byte a function of the seed"); std::string c(n+4*pre,'\0'); if(!c.empty()) strtk::generate_random_data((unsigned char*)&c[0],c.size(),0,seed); sz whole=n/4*4; CHECK_EQ(c.substr(4*pre,whole),a.str().substr(0,whole),"pre-generation skips words"); if(g.chance(1,4)){ std::vector<bool> varies(n,false); for(unsigned t=1;t<=24;++t){ Exact q(std::string(n,'\0')); strtk::generate_random_data((unsigned char*)q.p,n,pre,seed+t); for(sz i=0;i<n;++i) if(q.p[i]!=a.p[i]) varies[i]=true; } for(sz i=0;i<n;++i) CHECK(varies[i],"byte "<<i<<" is the same for 25 seeds"); }
  if(n>=64){ std::set<char> s(a.p,a.p+n); CHECK(s.size()>8,"bytes vary"); }
}
FACET(real_rng,3000){ sz seed=g.any64()>>g.below(64),pre=g.below(20),n=1+g.below(30); g.show("seed",(unsigned long)seed); g.show("pregen",(unsigned long)pre); g.nt(n>1); strtk::uniform_real_rng a(seed,pre),b(seed); for(sz i=0;i<pre;++i) b(); for(sz i=0;i<n;++i){ double x=a(); CHECK(x>=0.0&&x<1.0,"in [0,1)"); CHECK_EQ(x,b(),"pre-generation skips draws"); } }
FACET(spread,60){ // each position is selected about as often as uniform selection says
  sz n=2+g.below(7),k=1+g.below(n-1),base=g.any64()>>g.below(64); g.show("n",(unsigned long)n); g.show("k",(unsigned long)k); g.show("seed",(unsigned long)base); g.nt(k>1); const int T=600; V v; for(sz i=0;i<n;++i) v.push_back((int)i); std::vector<int> c1(n),c2(n),c3(n),first(n); for(int t=0;t<T;++t){ sz seed=(sz)pbt::mix(base+t); V a,b,c,p; strtk::random_combination(v.begin(),v.end(),k,pbt::slots(a),seed); strtk::uniform_real_rng r(seed); strtk::select_k_randomly(v.begin(),v.end(),k,pbt::slots(b),r); strtk::select_1_randomly(v.begin(),v.end(),pbt::slots(c),r); strtk::random_permutation(v,pbt::slots(p),seed); for(int x:a) ++c1[x]; for(int x:b) ++c2[x]; ++c3[c[0]]; ++first[p[0]]; }
  auto ok=[&](std::vector<int>& c,double q,const char* w){ double sd=sqrt(T*q*(1-q)); for(sz i=0;i<n;++i) CHECK(std::fabs(c[i]-T*q)<=7.5*sd+3,w<<": position "<<i<<" chosen "<<c[i]<<" of "<<T<<" times, expected about "<<T*q); }; ok(c1,(double)k/n,"combination"); ok(c2,(double)k/n,"k-selection"); ok(c3,1.0/n,"1-selection"); ok(first,1.0/n,"permutation"); }
LARGE1(permutations,8,5000) LARGE1(combinations,8,5000) LARGE1(selections,8,5000) LARGE1(values,8,20000) LARGE1(byte_buffers,8,70000)
