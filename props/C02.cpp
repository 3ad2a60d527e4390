#include "models.hpp"
#include "strtk.hpp"
namespace pbt { const char* const property_id="C02";
const char* const rule_text="Values of every integer type: small, at limits, around powers of two and ten, uniform over digit counts and over the whole range; 16-bit values in blocks covering the whole range. The oracle is printf and the parse of the printed text. Non-trivial: three or more digits, or negative. Distinct by type and value."; }
using namespace model; using pbt::G;
template<class T> static std::string ref_text(T v){ char b[40]; if(std::numeric_limits<T>::is_signed) snprintf(b,40,"%lld",(long long)v); else snprintf(b,40,"%llu",(unsigned long long)v); return b; }
template<class T> static void one(T v){
  std::string w=ref_text(v); CHECK_EQ(strtk::type_to_string(v),w,"type_to_string");
  std::string s="junk that must be replaced 0123456789"; CHECK(strtk::type_to_string(v,s),"conversion reports success"); CHECK_EQ(s,w,"type_to_string into a string");
  T b=T(v^1); CHECK(strtk::string_to_type_converter(s,b),"the text parses back: "<<s); CHECK_EQ(b,v,"round trip");
}
template<class T> static void check_type(G& g,const char* n){ T v=g.integer<T>(); g.note(n); g.show("value",v); g.nt(v<0||v>99); g.label("digits"+std::to_string(ref_text(v).size())); one(v); }
FACET(short_,6000){ check_type<short>(g,"short"); }
FACET(unsigned_short,6000){ check_type<unsigned short>(g,"unsigned short"); }
FACET(int_,14000){ check_type<int>(g,"int"); }
FACET(unsigned_int,14000){ check_type<unsigned int>(g,"unsigned int"); }
FACET(long_,14000){ check_type<long>(g,"long"); }
FACET(unsigned_long,14000){ check_type<unsigned long>(g,"unsigned long"); }
FACET(long_long,14000){ check_type<long long>(g,"long long"); }
FACET(unsigned_long_long,14000){ check_type<unsigned long long>(g,"unsigned long long"); }
FACET(all_16bit_values,260){ unsigned b=(unsigned)g.below(256); g.show("block",b); g.nt(); for(unsigned i=0;i<256;++i){ one((unsigned short)(b*256+i)); one((short)(b*256+i)); } }
// Chunk boundaries: v = a * 1000^k + r with every r in 0..999 for a generated a and k.
FACET(thousand_chunks,500){
  unsigned k=(unsigned)g.below(6); unsigned long long p=1; for(unsigned i=0;i<k;++i) p*=1000; unsigned long long a=g.below(1000),lo=g.any64()%p; bool pad=g.flip(); g.show("high",a); g.show("k",k); g.show("low",lo); g.nt();
  for(unsigned r=0;r<1000;++r){ unsigned long long v=(a*1000+r); v=v>=18446744073709551615ull/p?r:v*p+(pad?lo:0); one(v); one((long long)v); one(-(long long)(v>>1)); one((unsigned)v); one((int)v); }
}
FACET(truth_values_and_text,1500){
  bool b=g.flip(); std::string t=g.bytes(60); g.show("bool",b); g.show("text",t); g.nt(t.size()>1); std::string s="junk"; CHECK(strtk::type_to_string(b,s),"bool to text"); CHECK_EQ(s,std::string(b?"1":"0"),"text of a bool"); CHECK_EQ(strtk::type_to_string(b),s,"text of a bool");
  bool c=!b; CHECK(strtk::string_to_type_converter(s,c),"bool from its text"); CHECK_EQ(c,b,"bool round trip"); c=!b; Exact x(s); CHECK(strtk::string_to_type_converter(x.b(),x.e(),c)&&c==b,"bool from a range"); CHECK_EQ(strtk::string_to_type_converter<bool>(s),b,"bool by value");
  if(t.size()!=1){ bool d=b; CHECK(!strtk::string_to_type_converter(t,d),"a text of "<<t.size()<<" characters is no bool"); CHECK_EQ(d,b,"a refused text leaves the bool alone"); }
  s="junk"; CHECK(strtk::type_to_string(t,s),"text to text"); CHECK_EQ(s,t,"text to text"); s="junk"; CHECK(strtk::string_to_type_converter(t,s),"text from text"); CHECK_EQ(s,t,"text from text"); Exact y(t); s="junk"; CHECK(strtk::string_to_type_converter(y.b(),y.e(),s),"text from a range"); CHECK_EQ(s,t,"text from a range");
 
  for(int i=0;i<3;++i){ unsigned char uc=(unsigned char)g.below(256); signed char sc=(signed char)uc; char ch=(char)uc; s="junk"; CHECK(strtk::type_to_string(ch,s),"character to text"); CHECK_EQ(s,std::string(1,ch),"character to text"); CHECK_EQ(strtk::type_to_string(uc),std::string(1,ch),"unsigned character to text"); CHECK_EQ(strtk::type_to_string(sc),std::string(1,ch),"signed character to text"); char k=(char)~ch; CHECK(strtk::string_to_type_converter(s,k),"character from text"); CHECK_EQ(k,ch,"character round trip"); }
}
