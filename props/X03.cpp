#include "models.hpp"
#include "strtk.hpp"
namespace pbt { const char* const property_id="X03";
const char* const rule_text="Patterns of literals and both wildcards (also with user-chosen symbols), subjects derived from the pattern by instantiating its wildcards (a match by construction), then perturbed, or independent over a small alphabet; oracle is a quadratic table over (pattern prefix, text prefix). Non-trivial: the pattern holds a wildcard and a literal and the text is not empty. Distinct by pattern and text."; }
using namespace model; using pbt::G;
static bool ref(const std::string& p,const std::string& t,char many,char one){ return wildcard(p,t,many,one); }
static std::string pattern(G& g,char many,char one,const std::string& al){ std::string p; size_t n=g.len(24); unsigned w=(unsigned)g.below(4); for(size_t i=0;i<n;++i){ switch(g.below(3+w)){ case 0: p+=many; break; case 1: p+=one; break; default: p+=al[g.below(al.size())]; } } return p; }
static std::string subject(G& g,const std::string& p,char many,char one,const std::string& al){
  if(g.chance(1,3)) return g.text(al,30);
  std::string t; for(char c:p){ if(c==many) t+=g.fixed(al,g.below(5)); else if(c==one) t+=g.fixed(al,g.below(2)); else t+=c; }
  if(g.chance(1,3)&&!t.empty()){ size_t i=g.below(t.size()); switch(g.below(3)){ case 0: t.erase(i,1); break; case 1: t[i]=al[g.below(al.size())]; break; default: t.insert(i,1,al[g.below(al.size())]); } }
  return t;
}
FACET(match,40000){
  std::string al=g.pick<const char*>({"ab","a","abc","a*?b"}); if(g.chance(1,8)) al="a\xff\x80"; bool custom=g.chance(1,3); char many='*',one='?'; if(custom){ many=g.pick({'%','*','.','a'}); one=g.pick({'_','?','~'}); }
  std::string p=pattern(g,many,one,al),t=subject(g,p,many,one,al); g.show("pattern",p); g.show("text",t); g.show("many",many); g.show("one",one);
  bool want=ref(p,t,many,one); bool w=p.find(many)!=std::string::npos||p.find(one)!=std::string::npos; bool l=false; for(char c:p) if(c!=many&&c!=one) l=true; g.nt(w&&l&&!t.empty()); g.label(want?"match":"no match");
  Exact P(p),T(t); CHECK_EQ(strtk::match(P.b(),P.e(),T.b(),T.e(),many,one),want,"range form");
  if(!custom) CHECK_EQ(strtk::match(p,t),want,"string form");
  std::vector<int> vp(p.begin(),p.end()),vt(t.begin(),t.end()); CHECK_EQ(strtk::match(vp.begin(),vp.end(),vt.begin(),vt.end(),(int)many,(int)one),want,"integer sequences");
}
struct Sink { std::vector<std::string>* v; template<class It> void operator()(const std::pair<It,It>& r) const { v->push_back(std::string(r.first,r.second)); } void operator()(const std::string& s) const { v->push_back(s); } };
FACET(filter_on_wildcard_match,8000){
  std::string al="ab"; std::string p=pattern(g,'*','?',al); bool allow=g.flip(); std::vector<std::string> in,out,want; size_t n=g.len(20); for(size_t i=0;i<n;++i) in.push_back(subject(g,p,'*','?',al)); for(auto& s:in) if(ref(p,s,'*','?')==allow) want.push_back(s);
  g.show("pattern",p); g.show("words",in); g.show("allow",allow); g.nt(!want.empty()&&want.size()<in.size()); Sink k={&out}; strtk::filter_on_wildcard_match<Sink> f(p,k,allow);
  for(auto& s:in){ if(g.flip()) f(s); else { const std::string& c=s; f(std::make_pair(c.begin(),c.end())); } } CHECK_EQ(out,want,"words let through");
}
LARGE(match,8,1200)
