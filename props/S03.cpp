#include <cmath>
#include "binmodel.hpp"
namespace pbt { const char* const property_id="S03";
const char* const rule_text="Values of every supported width and signedness (small, at limits, near powers of two and ten, uniform, and every value of each 16-bit type) converted by function and written/read through the binary writer and reader in both byte orders, against byte images built by shifting. Non-trivial: value above one byte. Distinct by generated inputs."; }
using namespace model; using pbt::G; using namespace bm; namespace bd=strtk::binary::details;
template<class T> static std::string image(T v,bool big){ std::string s; for(size_t i=0;i<sizeof(T);++i){ size_t k=big?sizeof(T)-1-i:i; s+=char((unsigned char)((unsigned long long)v>>(8*k))); } return s; }
template<class T> static std::string mem(T v){ return std::string((char*)&v,sizeof v); }
template<class T> static void one(G& g,T v,const char* n){
  g.note(n); g.show("value",v); g.nt((unsigned long long)v>255); T be=bd::convert_to_be(v),le=(T)bd::convert_to_le(v); CHECK_EQ(mem(be),image(v,true),"big-endian image"); CHECK_EQ(mem(le),image(v,false),"little-endian image"); CHECK_EQ((T)bd::convert_to_be(be),v,"back from big-endian"); CHECK_EQ((T)bd::convert_to_le(le),v,"back from little-endian"); T sw=bd::convert(v); std::string m=mem(v); std::reverse(m.begin(),m.end()); CHECK_EQ(mem(sw),m,"swapped"); CHECK_EQ((T)bd::convert(sw),v,"swapped twice");
  Exact b(std::string(2*sizeof(T)+1,'\x5A')); size_t off=g.below(2); W w(b.p,b.n); if(off) w('z'); CHECK(w.native_to_be(v)&&w.native_to_le(v),"write"); CHECK_EQ(b.str().substr(off,2*sizeof(T)),image(v,true)+image(v,false),"bytes written"); R r(b.p,b.n); char z; if(off) r(z); T x=0,y=0; CHECK(r.be_to_native(x)&&r.le_to_native(y),"read"); CHECK_EQ(x,v,"read big-endian"); CHECK_EQ(y,v,"read little-endian"); CHECK_EQ((size_t)r.position(),off+2*sizeof(T),"position");
}
template<class T> static void cut(G& g,const char* n){ T v=g.integer<T>(); size_t c=g.below(sizeof(T)); g.note(n); g.show("capacity",(unsigned long)c); g.nt(true); Exact b(std::string(c,'\x5A')); W w(b.p,b.n); CHECK(!w.native_to_be(v)&&!w.native_to_le(v),"does not fit"); CHECK_EQ((size_t)w.position(),(size_t)0,"nothing written"); CHECK_EQ(b.str(),std::string(c,'\x5A'),"nothing written"); R r(b.p,b.n); T x=42; CHECK(!r.be_to_native(x)&&!r.le_to_native(x),"not there"); CHECK_EQ(x,(T)42,"destination untouched"); }
#define ALL(F,G) switch(g.below(6)){ case 0: F(unsigned,"uint"); break; case 1: F(int,"int"); break; case 2: F(unsigned short,"ushort"); break; case 3: F(short,"short"); break; case 4: F(unsigned long long,"ullong"); break; default: F(long long,"llong"); }
FACET(values,30000){
#define F1(T,N) one<T>(g,g.integer<T>(),N)
  ALL(F1,g) }
FACET(distinct_bytes,6000){ // a value whose bytes are all different shows any byte that moves or is lost
  unsigned long long v=0; std::vector<int> p; for(int i=1;i<=8;++i) p.push_back(i*29&255); for(int i=7;i>0;--i) std::swap(p[i],p[g.below(i+1)]); for(int c:p) v=v<<8|(unsigned)c;
#define F2(T,N) one<T>(g,(T)v,N)
  ALL(F2,g) }
FACET(sixteen_bit_exhaustive,300){ unsigned hi=(unsigned)g.below(256); g.show("high",hi); g.nt(hi>0); for(unsigned lo=0;lo<256;++lo){ unsigned short v=(unsigned short)(hi<<8|lo); CHECK_EQ(mem(bd::convert_to_be(v)),image(v,true),v); CHECK_EQ(mem(bd::convert_to_be((short)v)),image(v,true),v); CHECK_EQ(mem((unsigned short)bd::convert_to_le(v)),image(v,false),v); CHECK_EQ(mem((short)bd::convert_to_le((short)v)),image(v,false),v); } }
FACET(too_small,3000){
#define F3(T,N) cut<T>(g,N)
  ALL(F3,g) }
FACET(sequences,6000){ size_t n=1+g.below(12); Ops o; Enc e; for(size_t i=0;i<n;++i){ P p=endian(g); p->e(e); o.v.push_back(std::move(p)); } g.note(o.names()); g.nt(n>1); Exact b(std::string(e.b.size(),'\0')); W w(b.p,b.n); for(auto& p:o.v) CHECK(p->write(w),"write"); CHECK_EQ(b.str(),e.b,"image"); R r(b.p,b.n); for(auto& p:o.v){ Enc got,in; CHECK(p->read(r,got),"read"); static_cast<void>(in); Enc want; size_t q=r.position()-got.b.size(); In x={e.b,q}; p->d(x,want); CHECK_EQ(got,want,p->name); } }
FACET(stl_be_in_classes,2000){ // mixed with plain values
  unsigned a=g.integer<unsigned>(); std::string s=g.bytes(30); short c=g.integer<short>(); g.show("a",a); g.show("s",s); g.show("c",c); g.nt(!s.empty()); Exact b(std::string(4+4+s.size()+2,'\0')); W w(b.p,b.n); CHECK(w.native_to_be(a)&&w(s)&&w.native_to_be(c),"write"); R r(b.p,b.n); unsigned x; std::string t; short y; CHECK(r.be_to_native(x)&&r(t)&&r.be_to_native(y),"read"); CHECK(x==a&&t==s&&y==c,"values"); }
