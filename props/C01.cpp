#include "models.hpp"
#include "strtk.hpp"
namespace pbt { const char* const property_id="C01";
const char* const rule_text="Texts are decimal forms of generated values (small, at type limits, around powers of two and ten, any digit count), with signs, leading zeros and single-character edits, plus arbitrary bytes; the oracle is an exact decimal comparison with the type's limits. Non-trivial: at least two characters, and either within 3 of a limit's length, signed, edited, or not representable. Distinct by type and text."; }
using namespace model; using pbt::G;
typedef unsigned __int128 u128;
// Reference: optional sign, digits, value representable in T. Works on the digit string, not on machine overflow.
template<class T> static bool ref_parse(const std::string& s,T& out){
  size_t i=0; bool neg=false; if(s.empty()) return false;
  if(s[0]=='+'||s[0]=='-'){ neg=s[0]=='-'; if(neg&&!std::numeric_limits<T>::is_signed) return false; i=1; }
  if(i==s.size()) return false; for(size_t k=i;k<s.size();++k) if(s[k]<'0'||s[k]>'9') return false;
  while(i<s.size()&&s[i]=='0') ++i; if(s.size()-i>25) return false; u128 v=0; for(;i<s.size();++i) v=v*10+(unsigned)(s[i]-'0');
  u128 lim=(u128)(unsigned long long)std::numeric_limits<T>::max()+(neg?1:0); if(v>lim) return false;
  out=neg?(T)(0-(unsigned long long)v):(T)v; return true;
}
static std::string dec(u128 v){ if(!v) return "0"; std::string r; while(v){ r.insert(r.begin(),char('0'+(int)(v%10))); v/=10; } return r; }
template<class T> static std::string gen_int_text(G& g){
  std::string s; 
  switch(g.below(8)){
    case 0: case 1: { T v=g.integer<T>(); s=std::to_string(v); break; }
    case 2: { u128 m=(unsigned long long)std::numeric_limits<T>::max(); long long d=g.range(-3,4); s=dec(m+d); if(std::numeric_limits<T>::is_signed&&g.flip()) s="-"+s; break; }
    case 3: { size_t n=std::numeric_limits<T>::digits10+1; n+=g.below(3); n-=1; s=g.fixed("0123456789",n); if(g.chance(1,3)) s="-"+s; break; }
    case 4: { u128 m=(unsigned long long)std::numeric_limits<T>::max(); s=dec(m); if(!s.empty()){ size_t p=g.below(s.size()); s[p]=char('0'+g.below(10)); } if(g.chance(1,3)) s="-"+s; break; }
    case 5: s=g.fixed("0123456789",g.len(30)); break;
    case 6: s=g.text("0123456789+- .ex\xb0\xff",12); break;
    default: s=g.bytes(8);
  }
  if(g.chance(1,5)){ size_t p=!s.empty()&&(s[0]=='-'||s[0]=='+')?1:0; s.insert(p,g.len(40),'0'); }
  if(g.chance(1,8)&&!s.empty()&&s[0]!='-'&&s[0]!='+') s="+"+s;
  if(g.chance(1,5)){ switch(g.below(3)){ case 0: s.insert(s.begin()+g.below(s.size()+1),g.pick<char>({' ','-','+','.','/',':','x','\0','\xb5','9'})); break; case 1: if(!s.empty()) s.erase(g.below(s.size()),1); break; default: if(!s.empty()) s[g.below(s.size())]=char(g.below(256)); } }
  return s;
}
template<class T> static void check_type(G& g,const char* name){
  std::string s=gen_int_text<T>(g); unsigned e=(unsigned)g.below(8); g.note(name); g.show("text",s); g.show("entry",e);
  T want=0; bool ok=ref_parse<T>(s,want); size_t L=std::to_string(std::numeric_limits<T>::max()).size();
  g.nt(s.size()>=2&&(!ok||s.size()+3>=L||s[0]=='-'||s[0]=='+')); g.label(ok?"valid":"rejected");
  T got=(T)77; bool r=false; Exact x(s);
  switch(e){
    case 0: r=strtk::string_to_type_converter(x.b(),x.e(),got); break;
    case 1: r=strtk::string_to_type_converter(s,got); break;
    case 2: r=strtk::string_to_type_converter(std::make_pair(x.b(),x.e()),got); break;
    case 3: try { got=strtk::string_to_type_converter<T>(s); r=true; } catch(const std::invalid_argument&){ r=false; } break;
    case 4: { const std::string& c=s; try { got=strtk::string_to_type_converter<T>(c.begin(),c.end()); r=true; } catch(const std::invalid_argument&){ r=false; } break; }
    case 5: { const std::string& c=s; r=strtk::string_to_type_converter(c.begin(),c.end(),got); break; }
    case 6: { const std::string& c=s; try { r=strtk::convert_string_range(std::make_pair(c.begin(),c.end()),got); } catch(const std::invalid_argument&){ r=false; } break; }
    default: try { got=strtk::string_to_type_converter<T>(std::make_pair(x.b(),x.e())); r=true; } catch(const std::invalid_argument&){ r=false; }
  }
  CHECK_EQ(r,ok,"accepted iff it is a representable integer");
  if(ok) CHECK_EQ(got,want,"value");
}
FACET(parse_short,8000){ check_type<short>(g,"short"); }
FACET(parse_unsigned_short,8000){ check_type<unsigned short>(g,"unsigned short"); }
FACET(parse_int,12000){ check_type<int>(g,"int"); }
FACET(parse_unsigned_int,12000){ check_type<unsigned int>(g,"unsigned int"); }
FACET(parse_long,10000){ check_type<long>(g,"long"); }
FACET(parse_unsigned_long,10000){ check_type<unsigned long>(g,"unsigned long"); }
FACET(parse_long_long,12000){ check_type<long long>(g,"long long"); }
FACET(parse_unsigned_long_long,12000){ check_type<unsigned long long>(g,"unsigned long long"); }
// Every text of up to three characters over a small alphabet, and every 16-bit value with its neighbours.
FACET(parse_short_texts_systematic,900){
  static const char a[]="0123456789+-. \x80"; size_t n=g.below(4); std::string s=g.fixed(std::string(a,15),n); g.show("text",s); g.nt(n>=2);
  for(char c1:std::string(a,15)) for(char c2:std::string("09+-x")){ std::string t=s+c1+c2; int w=0,o=0; unsigned uw=0,uo=0; CHECK_EQ(strtk::string_to_type_converter(t,o),ref_parse<int>(t,w),pbt::quote(t)); unsigned dummy=0; bool ur=ref_parse<unsigned>(t,uw); CHECK_EQ(strtk::string_to_type_converter(t,uo),ur,pbt::quote(t)); if(ref_parse<int>(t,w)) CHECK_EQ(o,w,pbt::quote(t)); if(ur) CHECK_EQ(uo,uw,pbt::quote(t)); (void)dummy; }
}
FACET(parse_16bit_sweep,280){
  u128 base=g.below(70000/250)*250; g.show("base",(unsigned long)base); g.nt();
  for(int i=0;i<250;++i){ for(int z=0;z<2;++z) for(const char* sg:{"","+","-"}){ std::string t=std::string(sg)+(z?"000":"")+dec(base+i); short a=0,b=0; unsigned short c=0,d=0; bool ra=strtk::string_to_type_converter(t,a),rb=ref_parse<short>(t,b); CHECK(ra==rb&&(!rb||a==b),"short "<<t); bool rc=strtk::string_to_type_converter(t,c),rd=ref_parse<unsigned short>(t,d); CHECK(rc==rd&&(!rd||c==d),"unsigned short "<<t); } }
}
LARGE(parse_int,8,5000) LARGE(parse_short,6,5000) LARGE(parse_unsigned_long_long,8,5000)
