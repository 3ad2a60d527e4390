#include "models.hpp"
#include "strtk.hpp"
#include <cmath>
namespace pbt { const char* const property_id="C03";
const char* const rule_text="Texts are generated from the number grammar (sign, up to ~60 integer and ~300 fraction digits, exponents over and beyond the range, float suffixes, inf/nan spellings), printed forms of generated doubles, single-character edits of those, and garbage over the number alphabet; the oracle is an acceptor for the grammar plus strtod/strtof/strtold with a tolerance in units in the last place. Non-trivial: two or more characters and not a plain integer of fewer than four digits. Distinct by type and text."; }
using namespace model; using pbt::G;
enum Verdict { REJECT, NUMBER, INF, NAN_, UNSPEC };
struct Ref { Verdict v; bool neg; std::string num; size_t digits; };
static bool dig(char c){ return c>='0'&&c<='9'; }
static Ref classify(const std::string& s){
  Ref r; r.v=REJECT; r.neg=false; r.digits=0; size_t i=0,n=s.size(); if(!n) return r;
  if(s[i]=='+'||s[i]=='-'){ r.neg=s[i]=='-'; ++i; } std::string b=s.substr(i);
  if(b=="inf"||b=="INF"||b=="infinity"||b=="INFINITY"){ r.v=INF; return r; } if(b=="nan"||b=="NAN"){ r.v=NAN_; return r; }
  size_t a=i; while(i<n&&dig(s[i])) ++i; size_t id=i-a,fd=0; if(i<n&&s[i]=='.'){ ++i; size_t f=i; while(i<n&&dig(s[i])) ++i; fd=i-f; }
  if(id+fd==0){ if(s.find('#')!=std::string::npos) r.v=UNSPEC; return r; } r.digits=id+fd;
  if(i<n&&s[i]=='#'){ std::string t=s.substr(i+1); if(t=="inf"||t=="INF"||t=="infinity"||t=="INFINITY") r.v=INF; else if(t=="nan"||t=="NAN") r.v=NAN_; return r; }
  size_t me=i; 
  if(i<n&&(s[i]=='e'||s[i]=='E')){ size_t k=i+1; if(k<n&&(s[k]=='+'||s[k]=='-')) ++k; size_t d0=k; while(k<n&&dig(s[k])) ++k; if(k==d0) return r; size_t z=d0; while(z<k&&s[z]=='0') ++z;
    if(k<n&&s[k]=='#') { r.v=UNSPEC; return r; }
    size_t sig=k-z; me=k; i=k; size_t rest=n-k; bool sfx=rest==1&&(s[k]=='f'||s[k]=='F'||s[k]=='l'||s[k]=='L'); if(rest>(sfx?1u:0u)) return r; // trailing garbage
    if(sig+rest>4){ r.v=UNSPEC; return r; } i=n; }
  else if(i<n&&(s[i]=='f'||s[i]=='F'||s[i]=='l'||s[i]=='L')) ++i;
  if(i!=n) return r; if(id>250||fd>250){ r.v=UNSPEC; return r; }
  r.v=NUMBER; r.num=s.substr(0,me); return r;
}
static std::string gen_num(G& g){
  std::string s; if(g.chance(1,3)) s+=g.flip()?"-":"+";
  unsigned form=(unsigned)g.below(12);
  if(form==0){ s+=g.pick<const char*>({"inf","INF","infinity","INFINITY","nan","NAN"}); return s; }
  if(form==1){ s+=g.fixed("0123456789",1+g.below(2)); if(g.flip()) s+="."+g.fixed("0123456789",g.below(3)); s+="#"; s+=g.pick<const char*>({"inf","INF","infinity","INFINITY","nan","NAN"}); return s; }
  if(form<=3){ char b[400]; unsigned long long bits=g.any64(); double d; memcpy(&d,&bits,8); if(!(d==d)||d-d!=0) d=1.5; snprintf(b,400,g.pick<const char*>({"%.17g","%.15e","%g","%.3e"}),std::fabs(d)); return s+b; }
  if(form==4){ char b[64]; snprintf(b,64,"%.*f",(int)g.below(12),(double)g.below(1000000)/(1+g.below(1000))); return s+b; }
  size_t id=g.chance(1,8)?g.below(60):g.below(20), fd=g.chance(1,10)?g.below(250):g.below(20); bool dot=g.chance(2,3); if(!dot){ fd=0; if(!id) id=1; } if(dot&&!id&&!fd) id=1;
  if(g.chance(1,6)) s+=std::string(g.below(12),'0'); s+=g.fixed("0123456789",id); if(dot){ s+='.'; if(g.chance(1,5)) s+=std::string(g.below(25),'0'); s+=g.fixed("0123456789",fd); }
  if(g.chance(3,5)){ s+=g.flip()?"e":"E"; unsigned sg=(unsigned)g.below(3); if(sg) s+=sg==1?"-":"+"; if(g.chance(1,8)) s+=std::string(g.below(8),'0');
    switch(g.below(5)){ case 0: s+=std::to_string(g.below(23)); break; case 1: s+=std::to_string(g.below(330)); break; case 2: s+=std::to_string(295+g.below(45)); break; case 3: s+=std::to_string(g.below(1000)); break; default: s+=std::to_string(g.below(10000)); } }
  if(g.chance(1,6)) s+=g.pick<char>({'f','F','l','L'});
  return s;
}
static std::string gen_real_text(G& g){
  std::string s; switch(g.below(10)){ case 0: s=g.text("0123456789+-.eEfFlLinfINFaAtyx ",9); break; case 1: s=g.bytes(7); break; default: s=gen_num(g); if(g.chance(1,4)) for(size_t k=1+g.below(2);k>0;--k) switch(g.below(3)){ case 0: s.insert(g.below(s.size()+1),1,g.pick<char>({'+','-','.','e','E','f','L','n','i','x','0',' ','a','\xb1','N','I'})); break; case 1: if(!s.empty()) s.erase(g.below(s.size()),1); break; default: if(!s.empty()) s[g.below(s.size())]="+-.eEfFlLnx0 /:"[g.below(15)]; } }
  return s;
}
template<class T> struct Std; template<> struct Std<double>{ static double f(const char* c){ return strtod(c,0); } }; template<> struct Std<float>{ static float f(const char* c){ return strtof(c,0); } }; template<> struct Std<long double>{ static long double f(const char* c){ return strtold(c,0); } };
template<class T> static T ulp(T x){ x=std::fabs(x); T n=std::nextafter(x,std::numeric_limits<T>::infinity()); if(n-x==std::numeric_limits<T>::infinity()) return x-std::nextafter(x,(T)0); return n-x; }
template<class T> static void check_value(T got,const Ref& r){
  typedef std::numeric_limits<T> L; T want=Std<T>::f(r.num.c_str()); CHECK(got==got,"not a number from a plain number");
  CHECK((std::signbit(got)!=0)==r.neg,"sign");
  T tol_ulps=8+(r.digits>19?(T)r.digits:0); T near_max=L::max()*(1-tol_ulps*std::numeric_limits<double>::epsilon()*4);
  if(sizeof(T)==sizeof(float)) near_max=L::max()*(T)(1-4e-7);
  if(std::isinf(want)||std::isinf(got)){ CHECK(std::fabs(want)>=near_max&&std::fabs(got)>=near_max,"overflow: got "<<pbt::S(got)<<", expected "<<pbt::S(want)); return; }
  T tol; if(sizeof(T)>sizeof(double)) tol=std::fabs(want)*(T)std::numeric_limits<double>::epsilon()*(40+tol_ulps)+64*L::denorm_min(); else if(sizeof(T)==sizeof(float)) tol=2*ulp(want); else tol=tol_ulps*ulp(want);
  CHECK(std::fabs(got-want)<=tol,"got "<<pbt::S(got)<<", expected "<<pbt::S(want));
}
template<class T> static void check_text(G& g,const std::string& s){
  Ref r=classify(s); static const char* nm[]={"rejected","number","inf","nan","unspecified"}; g.label(nm[r.v]); g.nt(s.size()>=2&&!(s.size()<4&&r.v==NUMBER&&s.find_first_not_of("0123456789")==std::string::npos));
  Exact x(s); T got=(T)-77; bool ok; switch(g.below(3)){ case 0: ok=strtk::string_to_type_converter(x.b(),x.e(),got); break; case 1: ok=strtk::string_to_type_converter(s,got); break; default: try { got=strtk::string_to_type_converter<T>(s); ok=true; } catch(const std::invalid_argument&){ ok=false; } }
  if(r.v==UNSPEC) return; CHECK_EQ(ok,r.v!=REJECT,"accepted iff it is a well-formed number"); if(!ok) return;
  if(r.v==NAN_) CHECK(got!=got,"expected not-a-number"); else if(r.v==INF) CHECK(std::isinf(got)&&(got<0)==r.neg,"expected infinity, got "<<pbt::S(got)); else check_value<T>(got,r);
}
FACET(parse_double,30000){ std::string s=gen_real_text(g); g.note("double"); g.show("text",s); check_text<double>(g,s); }
FACET(parse_float,14000){ std::string s=gen_real_text(g); g.note("float"); g.show("text",s); check_text<float>(g,s); }
FACET(parse_long_double,12000){ std::string s=gen_real_text(g); g.note("long double"); g.show("text",s); check_text<long double>(g,s); }
FACET(every_exponent,700){ // each decimal exponent of the double range with generated digits
  std::string m=std::to_string(1+g.below(9)); if(g.flip()) m+="."+g.fixed("0123456789",g.below(17)); g.show("mantissa",m); g.nt(); for(int e=-345;e<=330;++e){ std::string s=m+"e"+std::to_string(e); Ref r=classify(s); double d=0; CHECK(strtk::string_to_type_converter(s,d),s); check_value<double>(d,r); if(e%7==0){ float f=0; CHECK(strtk::string_to_type_converter(s,f),s); check_value<float>(f,r); } }
}
FACET(fraction_lengths,500){ // each number of fraction digits
  char c=char('0'+g.below(10)); g.show("digit",c); size_t z=g.below(250); g.show("zeros",(unsigned long)z); g.nt(); for(size_t n=1;n<=245;n+=1+g.below(6)){ std::string s="0."+std::string(std::min(z,n-1),'0')+std::string(n-std::min(z,n-1),c); Ref r=classify(s); double d=0; CHECK(strtk::string_to_type_converter(s,d),s); check_value<double>(d,r); } }
FACET(text_form_of_a_double_parses_back,8000){ unsigned long long b=g.any64(); double d; memcpy(&d,&b,8); if(d!=d||std::isinf(d)) d=g.range(-1000000,1000000)/8.0; g.show("value",d); g.nt(); std::string s=strtk::type_to_string(d); Ref r=classify(s); CHECK(r.v==NUMBER,"text form "<<s); double o=0; CHECK(strtk::string_to_type_converter(s,o),s); check_value<double>(o,r); CHECK(std::fabs(o-d)<=9*ulp(d),"round trip "<<s<<" got "<<pbt::S(o)); }
