#include "models.hpp"
#include "strtk.hpp"
#include <list>
#include <deque>
namespace pbt { const char* const property_id="H01";
const char* const rule_text="Sequences of seven element types (characters, bytes, shorts, ints, unsigned, 64-bit, doubles) with lengths 0 to 300 crowded round the powers of two that the block reader uses, held in strings, arrays, vectors, deques, lists and raw pointers, with default and generated seeds; the oracle is metamorphic: equal contents hash equal whatever holds them, and changing, swapping, appending or removing an element changes the hash for at least one of many alternatives under two seeds; families of distinct sequences must have (almost) distinct hashes. Non-trivial: at least two elements."; }
using pbt::G;
template<class T> struct Mk { static T of(G& g){ return (T)g.any64(); } };
template<> struct Mk<double> { static double of(G& g){ return (double)g.range(-1000000,1000000)/8; } };
static size_t gen_len(G& g){ size_t n=g.pick<size_t>({0,1,2,3,4,5,7,8,9,15,16,17,31,32,33,63,64,65,95,96,97,127,128,129,191,192,200,255,256,257}); return g.chance(1,3)?g.len(300):n; }
static unsigned gen_seed(G& g){ return (unsigned)g.any64()|0x10000u; }
template<class T> static std::vector<T> gen_seq(G& g){ size_t n=gen_len(g); std::vector<T> v(n); if(g.flip()) for(auto& x:v) x=Mk<T>::of(g); else { T a=Mk<T>::of(g),b=Mk<T>::of(g); for(auto& x:v) x=g.flip()?a:b; } return v; }
template<class T> static unsigned H(const std::vector<T>& v,unsigned s){ return strtk::hash(v.data(),v.size(),s); }
// Two different sequences may collide under one seed; under two seeds and many alternatives only when what differs is not read.
template<class T> static bool differs(const std::vector<T>& a,const std::vector<T>& b){ return H(a,0xAAAAAAAAu)!=H(b,0xAAAAAAAAu)||H(a,0x9E3779B9u)!=H(b,0x9E3779B9u)||H(a,0x51ED270Bu)!=H(b,0x51ED270Bu); }
static void more(const std::vector<char>& v,unsigned s,unsigned w,unsigned wd){
  std::string t(v.begin(),v.end()); CHECK_EQ(strtk::hash(t,s),w,"a string with a seed"); CHECK_EQ(strtk::hash(t),wd,"a string"); CHECK_EQ(strtk::hash(t.begin(),t.size(),s),w,"string iterators"); CHECK_EQ(strtk::hash(t.c_str(),t.size(),s),w,"const char*");
  std::vector<char> m(v); CHECK_EQ(strtk::hash(m.data(),m.size(),s),w,"char*"); std::vector<unsigned char> u(v.begin(),v.end()); CHECK_EQ(strtk::hash(u.data(),u.size(),s),w,"unsigned char*"); const std::vector<unsigned char>& cu=u; CHECK_EQ(strtk::hash(cu.data(),u.size(),s),w,"const unsigned char*"); CHECK_EQ(strtk::hash(u,s),w,"bytes");
}
template<class T> static void more(const std::vector<T>&,unsigned,unsigned,unsigned){}
template<class T> static void carriers(G& g,const char* n){
  std::vector<T> v=gen_seq<T>(g); unsigned s=gen_seed(g); g.note(n); g.show("n",v.size()); g.show("seed",s); g.nt(v.size()>1);
  unsigned w=H(v,s),wd=strtk::hash(v.data(),v.size());
  CHECK_EQ(strtk::hash(v,s),w,"a vector with a seed"); CHECK_EQ(strtk::hash(v),wd,"a vector"); std::deque<T> d(v.begin(),v.end()); CHECK_EQ(strtk::hash(d,s),w,"a deque"); CHECK_EQ(strtk::hash(d.begin(),d.size(),s),w,"deque iterators"); std::list<T> l(v.begin(),v.end()); CHECK_EQ(strtk::hash(l,s),w,"a list"); CHECK_EQ(strtk::hash(l.begin(),l.size()),wd,"list iterators");
  std::vector<T> x(v); x.insert(x.begin(),Mk<T>::of(g)); x.push_back(Mk<T>::of(g)); CHECK_EQ(strtk::hash(x.data()+1,v.size(),s),w,"neighbours are not part of the sequence"); CHECK_EQ(strtk::hash(x.begin()+1,v.size()),wd,"neighbours are not part of the sequence");
  std::vector<T> m(v); CHECK_EQ(strtk::hash(m.data(),m.size(),s),w,"a copy"); CHECK(m==v,"hashing leaves the elements alone"); more(v,s,w,wd);
}
template<class T> static void sensitivity(G& g,const char* n){
  std::vector<T> v=gen_seq<T>(g); g.note(n); g.show("n",v.size()); g.nt(v.size()>1); if(v.empty()) v.push_back(Mk<T>::of(g)); size_t i=g.chance(1,3)?v.size()-1:g.below(v.size()); g.show("at",i);
  { bool any=false; for(int k=0;k<8;++k){ std::vector<T> u(v); u[i]=(T)(v[i]+1+k*3); if(u[i]!=v[i]&&differs(u,v)) any=true; } CHECK(any,"element "<<i<<" of "<<v.size()<<" does not affect the hash"); }
  for(int k=0;k<6;++k){ size_t bit=g.below(8*sizeof(T)); std::vector<T> u(v); ((unsigned char*)&u[i])[bit/8]^=(unsigned char)(1u<<bit%8); CHECK(differs(u,v),"bit "<<bit<<" of element "<<i<<" of "<<v.size()<<" does not affect the hash"); }
  { size_t j=g.below(v.size()); bool any=i==j; for(int k=0;k<8&&!any;++k){ std::vector<T> u(v); u[i]=(T)(3+k); u[j]=(T)(60+5*k); std::vector<T> t(u); std::swap(t[i],t[j]); any=differs(t,u); } CHECK(any,"the order of elements "<<i<<" and "<<j<<" of "<<v.size()<<" does not affect the hash"); }
  { bool any=false; for(int k=0;k<8;++k){ std::vector<T> u(v); u.push_back((T)(1+k*7)); any=any||differs(u,v); } CHECK(any,"an appended element does not affect the hash"); }
  { std::vector<T> u(v); u[i]=(T)5; std::vector<T> t(u); t.erase(t.begin()+i); bool any=differs(t,u); u[i]=(T)77; any=any||differs(t,u); CHECK(any,"a removed element does not affect the hash"); }
  { bool any=false; for(int k=0;k<8;++k) any=any||H(v,0x10001u*(k+3))!=H(v,0x9E3779B9u); CHECK(any,"the seed does not affect the hash"); }
}
#define ALL(f) switch(g.below(7)){ case 0: f<char>(g,"char"); break; case 1: f<unsigned char>(g,"byte"); break; case 2: f<short>(g,"short"); break; case 3: f<int>(g,"int"); break; case 4: f<unsigned int>(g,"unsigned"); break; case 5: f<unsigned long long>(g,"ull"); break; default: f<double>(g,"double"); }
FACET(same_elements_same_hash,900){ ALL(carriers) }
FACET(every_element_counts,900){ ALL(sensitivity) }
// Distinct sequences of one family: with 32-bit hashes a couple of hundred thousand pairs give far less than one expected collision.
FACET(distinct_sequences_spread,60){
  unsigned kind=(unsigned)g.below(6),s=gen_seed(g); g.show("kind",kind); g.show("seed",s); g.nt(); std::set<std::string> in; std::string base=g.nbytes(kind==4?64+g.below(80):1+g.below(40)); size_t at=g.below(base.size()+1); unsigned long long r0=g.any64();
  for(unsigned i=0;i<600;++i) switch(kind){
    case 0: in.insert(std::to_string(r0%100000+i)); break; case 1: in.insert("key"+std::to_string(i)); break; case 2: in.insert(std::to_string(i)+base); break; case 3: in.insert(base+std::to_string(i)); break;
    case 4: in.insert(std::string(base).insert(at,std::to_string(i))); break; default: { unsigned long long z=(r0+i)*0x9E3779B97F4A7C15ull; z^=z>>29; z*=0xBF58476D1CE4E5B9ull; in.insert(std::string((char*)&z,1+i%8)); }
  }
  std::set<unsigned> out; for(auto& k:in) out.insert(strtk::hash(k,s)); CHECK(out.size()+3>=in.size(),in.size()<<" distinct texts give "<<out.size()<<" hashes");
}
LARGE(same_elements_same_hash,20,20000) LARGE(every_element_counts,20,20000)
