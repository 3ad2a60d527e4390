#include "models.hpp"
#include "strtk.hpp"
namespace pbt { const char* const property_id="P05";
const char* const rule_text="A width 0..20 (and beyond), an integer type, and a text of exactly that width: the zero-padded digits of a representable value, possibly signed in the signed forms, possibly with one character replaced by a near-digit or arbitrary byte (then only with digit checking requested). Buffers end exactly at the width. Non-trivial: width of three or more, or a sign, or a corrupted character. Distinct by type, text and form."; }
using namespace model; using pbt::G;
typedef unsigned long long ull;
// f.template go<N>() for the runtime width n (0..20; the signed forms start at 1)
template<class F> static void with_width(size_t n,F& f){
  if(n==0) f.zero();
  switch(n){
#define C(N) case N: f.template go<N>(); break;
    C(1) C(2) C(3) C(4) C(5) C(6) C(7) C(8) C(9) C(10) C(11) C(12) C(13) C(14) C(15) C(16) C(17) C(18) C(19) C(20)
#undef C
  }
}
static bool alldig(const std::string& s){ for(char c:s) if(c<'0'||c>'9') return false; return true; }
static ull value_of(const std::string& s){ ull v=0; for(char c:s) v=v*10+(ull)(c-'0'); return v; }
// the zero-padded digits of a value <= lim, in n characters
static std::string digits(G& g,size_t n,ull lim){
  ull v=0;
  switch(g.below(4)){ case 0: v=g.any64(); break; case 1: v=lim-g.below(3); break; case 2: v=g.any64()>>g.below(64); break; default: { size_t k=1+g.below(20); for(size_t i=0;i<k;++i) v=v*10+g.below(10); } }
  if(lim!=~0ull) v%=lim+1;
  std::string s=std::to_string(v); if(s.size()>n) s=s.substr(s.size()-n); // a suffix of a smaller-or-equal value is representable
  return std::string(n-s.size(),'0')+s;
}
static bool corrupt(G& g,std::string& s,size_t from=0){
  if(s.size()<=from||!g.chance(2,5)) return false;
  static const char near_[]={'/',':',' ','-','+','.','a','\0','\x80','\xff',char('0'+128),char('9'+128),'!','@','\t'};
  size_t i=from+(g.chance(1,3)?(g.flip()?0:s.size()-from-1):g.below(s.size()-from));
  char c=g.flip()?near_[g.below(sizeof near_)]:char(g.below(256)); if(c>='0'&&c<='9') c=':'; s[i]=c; return true;
}
template<class T> struct Plain {
  std::string s; bool ok; ull v;
  template<size_t N> void go(){
    Exact x(s); T t; const unsigned char* u=(const unsigned char*)x.b(); using namespace strtk;
    CHECK_EQ((fast::all_digits_check<N>(x.b())),ok,"all_digits_check<N>(const char*)");
    CHECK_EQ((fast::all_digits_check<N>(x.p)),ok,"all_digits_check<N>(char*)");
    CHECK_EQ((fast::all_digits_check<N>(u)),ok,"all_digits_check<N>(unsigned char*)");
    CHECK_EQ((fast::all_digits_check<N>(s)),ok,"all_digits_check<N>(string)");
    CHECK_EQ((fast::all_digits_check<N>(s.begin())),ok,"all_digits_check<N>(string iterator)");
    if(ok){
      t=T(77); fast::numeric_convert<N>(x.b(),t); CHECK_EQ(t,T(v),"numeric_convert<N>(const char*)");
      t=T(77); fast::numeric_convert<N>(x.b(),t,true); CHECK_EQ(t,T(v),"checked numeric_convert<N>(const char*)");
      t=T(77); fast::numeric_convert<N>(u,t,true); CHECK_EQ(t,T(v),"checked numeric_convert<N>(unsigned char*)");
      t=T(77); fast::numeric_convert<N>(s,t); CHECK_EQ(t,T(v),"numeric_convert<N>(string)");
      t=T(77); fast::numeric_convert<N>(s.begin(),t); CHECK_EQ(t,T(v),"numeric_convert<N>(string iterator)");
    } else { t=T(77); fast::numeric_convert<N>(x.b(),t,true); CHECK_EQ(t,T(0),"checked numeric_convert<N> of a non-digit text"); }
  }
  void zero(){ go<0>(); }
  void dynamic(){
    using namespace strtk; Exact x(s); T t; size_t n=s.size();
    CHECK_EQ(fast::all_digits_check(n,x.b()),ok&&n<=20,"all_digits_check(n,itr)");
    CHECK_EQ(fast::all_digits_check(x.b(),x.e()),ok&&n<=20,"all_digits_check(begin,end)");
    CHECK_EQ(fast::all_digits_check(s),ok&&n<=20,"all_digits_check(string)");
    t=T(77); CHECK_EQ(fast::numeric_convert(n,x.b(),t,true),ok&&n<=20,"checked numeric_convert(n,itr)"); if(ok&&n<=20) CHECK_EQ(t,T(v),"checked value");
    t=T(77); CHECK_EQ(fast::numeric_convert(s,t,true),ok&&n<=20,"checked numeric_convert(string)"); if(ok&&n<=20) CHECK_EQ(t,T(v),"checked value of a string");
    if(ok){
      t=T(77); CHECK_EQ(fast::numeric_convert(n,x.b(),t),n<=20,"numeric_convert(n,itr)"); if(n<=20) CHECK_EQ(t,T(v),"value");
      t=T(77); CHECK_EQ(fast::numeric_convert(n,s.begin(),t),n<=20,"numeric_convert(n,string iterator)"); if(n<=20) CHECK_EQ(t,T(v),"value by string iterator");
      t=T(77); CHECK_EQ(fast::numeric_convert(s,t),n<=20,"numeric_convert(string)"); if(n<=20) CHECK_EQ(t,T(v),"value of a string");
    }
  }
};
template<class T> struct Signed {
  std::string s; bool ok; bool neg; ull v; T want() const { return neg?T(0)-T(v):T(v); }
  template<size_t N> void go(){
    Exact x(s); T t; using namespace strtk;
    CHECK_EQ((fast::signed_all_digits_check<N>(x.b())),ok,"signed_all_digits_check<N>(const char*)");
    CHECK_EQ((fast::signed_all_digits_check<N>(s)),ok,"signed_all_digits_check<N>(string)");
    if(ok){
      t=T(77); CHECK((fast::signed_numeric_convert<N>(x.b(),t)),"signed_numeric_convert<N> reports success"); CHECK_EQ(t,want(),"signed_numeric_convert<N>(const char*)");
      t=T(77); CHECK((fast::signed_numeric_convert<N>(s,t)),"signed_numeric_convert<N>(string) reports success"); CHECK_EQ(t,want(),"signed_numeric_convert<N>(string)");
    }
    t=T(77); CHECK_EQ((fast::signed_numeric_convert<N>(x.b(),t,true)),ok,"checked signed_numeric_convert<N>"); if(ok) CHECK_EQ(t,want(),"checked signed_numeric_convert<N> value");
    t=T(77); CHECK_EQ((fast::signed_numeric_convert<N>(s,t,true)),ok,"checked signed_numeric_convert<N>(string)"); if(ok) CHECK_EQ(t,want(),"checked signed_numeric_convert<N>(string) value");
  }
  void zero(){}
  void dynamic(bool wide){ // wide: the text may be longer than 20 characters because of leading zeros
    Exact x(s); T t; using namespace strtk; size_t n=s.size();
    if(!wide){
      CHECK_EQ(fast::signed_all_digits_check(n,x.b()),ok,"signed_all_digits_check(n,itr)");
      CHECK_EQ(fast::signed_all_digits_check(x.b(),x.e()),ok,"signed_all_digits_check(begin,end)");
      CHECK_EQ(fast::signed_all_digits_check(s),ok,"signed_all_digits_check(string)");
    }
    if(ok){
      t=T(77); CHECK(fast::signed_numeric_convert(x.b(),x.e(),t),"signed_numeric_convert(begin,end) reports success"); CHECK_EQ(t,want(),"signed_numeric_convert(begin,end)");
      t=T(77); CHECK(fast::signed_numeric_convert(s,t),"signed_numeric_convert(string) reports success"); CHECK_EQ(t,want(),"signed_numeric_convert(string)");
    }
    t=T(77); CHECK_EQ(fast::signed_numeric_convert(x.b(),x.e(),t,true),ok,"checked signed_numeric_convert(begin,end)"); if(ok) CHECK_EQ(t,want(),"checked signed_numeric_convert(begin,end) value");
    t=T(77); CHECK_EQ(fast::signed_numeric_convert(s,t,true),ok,"checked signed_numeric_convert(string)"); if(ok) CHECK_EQ(t,want(),"checked signed_numeric_convert(string) value");
  }
};
template<class T> static void plain(G& g,const char* name){
  size_t n=g.below(21); Plain<T> p; p.s=digits(g,n,(ull)std::numeric_limits<T>::max()); bool c=corrupt(g,p.s); p.ok=!c; p.v=c?0:value_of(p.s);
  g.note(name); g.show("text",p.s); g.nt(n>2||c); g.label("width"+std::to_string(n)); if(c) g.label("corrupt");
  with_width(n,p); p.dynamic();
}
template<class T> static void sgn(G& g,const char* name){
  Signed<T> p; int sign=(int)g.below(3); if(!std::numeric_limits<T>::is_signed&&sign==1) sign=2; size_t n=1+g.below(sign?19:20); bool wide=g.chance(1,6);
  std::string d=digits(g,n,(ull)std::numeric_limits<T>::max()); bool c=false;
  if(g.chance(2,5)){ std::string o=d; c=corrupt(g,o); if(c&&!sign&&(o[0]=='-'||o[0]=='+')) c=false; else d=o; }
  if(wide) d=std::string(g.below(12),'0')+d;
  p.v=c?0:value_of(d); p.ok=!c; p.neg=sign==1; p.s=(sign==1?"-":sign==2?"+":"")+d;
  g.note(name); g.show("text",p.s); g.nt(n>2||c||sign); g.label(sign==1?"minus":sign==2?"plus":"unsigned"); if(c) g.label("corrupt"); if(wide) g.label("wide");
  if(p.s.size()<=20&&!wide) with_width(p.s.size(),p);
  p.dynamic(wide);
}
FACET(short_,3000){ plain<short>(g,"short"); } FACET(unsigned_short,3000){ plain<unsigned short>(g,"unsigned short"); }
FACET(int_,5000){ plain<int>(g,"int"); } FACET(unsigned_int,5000){ plain<unsigned int>(g,"unsigned int"); }
FACET(long_,5000){ plain<long>(g,"long"); } FACET(unsigned_long,5000){ plain<unsigned long>(g,"unsigned long"); }
FACET(long_long,5000){ plain<long long>(g,"long long"); } FACET(unsigned_long_long,5000){ plain<unsigned long long>(g,"unsigned long long"); }
FACET(signed_short,3000){ sgn<short>(g,"short"); } FACET(signed_int,5000){ sgn<int>(g,"int"); }
FACET(signed_long,5000){ sgn<long>(g,"long"); } FACET(signed_long_long,5000){ sgn<long long>(g,"long long"); }
FACET(plus_unsigned,3000){ sgn<unsigned int>(g,"unsigned int"); } FACET(plus_unsigned_long_long,3000){ sgn<unsigned long long>(g,"unsigned long long"); }
struct DigitsOnly { const char* p; bool ok; void zero(){} template<size_t N> void go(){ CHECK_EQ((strtk::fast::all_digits_check<N>(p)),ok,"fixed-width digit check"); } };
// Every width with every byte value at every position: membership of the digit test is exhaustive.
FACET(every_byte,420){
  size_t n=1+g.below(20),i=g.below(n); std::string s(n,'0'); for(auto& c:s) c=char('0'+g.below(10)); g.show("width",n); g.show("position",i); g.nt(n>2);
  for(int b=0;b<256;++b){ s[i]=char(b); Plain<ull> p; p.s=s; p.ok=alldig(s); Exact x(s);
    CHECK_EQ(strtk::fast::all_digits_check(n,x.b()),p.ok,"digit check with byte "<<b); DigitsOnly a={x.b(),p.ok}; with_width(n,a); }
}
// Widths past the supported maximum and empty ranges.
FACET(limits,600){
  size_t n=21+g.below(20); Plain<ull> p; p.s=digits(g,n,1000000); p.ok=true; p.v=value_of(p.s); g.show("text",p.s); g.nt(); p.dynamic();
  Exact e(std::string("")); int t=5; CHECK(strtk::fast::all_digits_check(e.b(),e.e()),"no characters: all are digits"); strtk::fast::signed_all_digits_check(e.b(),e.e()); strtk::fast::signed_all_digits_check(size_t(0),e.b()); strtk::fast::signed_numeric_convert(e.b(),e.e(),t); strtk::fast::signed_numeric_convert(e.b(),e.e(),t,true);
  Exact m(std::string(g.flip()?"-":"+")); CHECK(!strtk::fast::signed_numeric_convert(m.b(),m.e(),t),"a sign alone is no number"); CHECK(!strtk::fast::signed_numeric_convert(m.b(),m.e(),t,true),"a sign alone is no number (checked)");
}
