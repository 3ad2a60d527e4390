#include "models.hpp"
#include "strtk.hpp"
namespace pbt { const char* const property_id="X02";
const char* const rule_text="Subjects built from pieces of the pattern (whole, partial and overlapping occurrences) and other text, replacements shorter, equal, longer, empty, containing the pattern or identical to it, through the string form, the range form with growing and fixed output, removal and character replacement. Non-trivial: the pattern occurs at least once and the result differs from the subject. Distinct by subject, pattern and replacement."; }
using namespace model; using pbt::G;
static std::string ref(const std::string& s,const std::string& p,const std::string& r,size_t* cnt=0){ if(p.empty()) return s; std::string o; size_t i=0; while(i<s.size()){ if(i+p.size()<=s.size()&&s.compare(i,p.size(),p)==0){ o+=r; i+=p.size(); if(cnt) ++*cnt; } else o+=s[i++]; } return o; }
static std::string gen_pat(G& g){ switch(g.below(5)){ case 0: return g.text("a",6); case 1: return g.text("ab",8); case 2: return g.text("abc",20); case 3: return std::string(); default: return g.bytes(10); } }
static std::string subject(G& g,const std::string& p,size_t max){ std::string s; size_t n=g.len(40),many=0; if(n>300){ many=n; n=1+g.below(8); } for(size_t i=0;i<n&&s.size()<max;++i) switch(g.below(5)){ case 0: case 1: s+=p; break; case 2: s+=p.substr(0,g.below(p.size()+1)); break; case 3: s+=p.substr(g.below(p.size()+1)); break; default: s+=g.fixed("abc",g.below(4)); } if(many&&!s.empty()){ std::string unit=s; for(size_t i=n;i<many&&s.size()<std::min<size_t>(300000,40000000/(p.size()+1));i+=n) s+=unit; } return s; }
static std::string any_rep(G& g,const std::string& p){ switch(g.below(7)){ case 0: return ""; case 1: return p; case 2: return p+p; case 3: return "x"+p+"y"; case 4: return p.empty()?p:p.substr(1); case 5: { std::string r=p; for(char& c:r) c=char('a'+g.below(3)); return r; } default: return g.text("abX",30); } }
// Not so long that the result outgrows memory.
static std::string gen_rep(G& g,const std::string& p,const std::string& s){ std::string r=any_rep(g,p); size_t most=3000000/(s.size()/(p.size()+1)+1); if(r.size()>most) r.resize(most); return r; }
FACET(replace_pattern_string,24000){
  std::string p=gen_pat(g),s=subject(g,p,2000),r=gen_rep(g,p,s); g.show("s",s); g.show("p",p); g.show("r",r); size_t c=0; std::string want=ref(s,p,r,&c); g.nt(c>0&&want!=s); if(c>32) g.label("over 32 occurrences");
  std::string out=g.flip()?std::string():g.text("zq",40); strtk::replace_pattern(s,p,r,out); CHECK_EQ(out,want,"every non-overlapping occurrence replaced");
  std::string o2="junk"; strtk::remove_pattern(s,p,o2); CHECK_EQ(o2,ref(s,p,""),"pattern removed");
}
FACET(replace_pattern_range,16000){
  std::string p=gen_pat(g),s=subject(g,p,800),r=gen_rep(g,p,s); g.show("s",s); g.show("p",p); g.show("r",r); size_t c=0; std::string want=ref(s,p,r,&c); g.nt(c>0&&want!=s); Exact S(s),P(p),R(r); unsigned e=(unsigned)g.below(3); g.show("entry",e);
  if(e==0){ std::string out; size_t n=strtk::replace_pattern(S.b(),S.e(),P.b(),P.e(),R.b(),R.e(),pbt::slots(out)); CHECK_EQ(out,want,"appended output"); CHECK_EQ(n,want.size(),"reported size"); }
  else if(e==1){ Exact O(want); memset(O.p,'#',O.n); size_t n=strtk::replace_pattern(S.b(),S.e(),P.b(),P.e(),R.b(),R.e(),O.p); CHECK_EQ(O.str(),want,"output written in place"); CHECK_EQ(n,want.size(),"reported size"); }
  else { std::vector<int> vs(s.begin(),s.end()),vp(p.begin(),p.end()),vr(r.begin(),r.end()),o; size_t n=strtk::replace_pattern(vs.begin(),vs.end(),vp.begin(),vp.end(),vr.begin(),vr.end(),pbt::slots(o)); CHECK_EQ(o,std::vector<int>(want.begin(),want.end()),"integer sequences"); CHECK_EQ(n,want.size(),"reported size"); }
}
FACET(replace_element,10000){
  std::string t=g.bytes(300); char a=t.empty()||g.chance(1,5)?char(g.below(256)):t[g.below(t.size())],b=g.chance(1,8)?a:char(g.below(256)); g.show("text",t); g.show("from",a); g.show("to",b); std::string want=t; for(char& c:want) if(c==a) c=b; g.nt(want!=t);
  std::string s=t; strtk::replace(a,b,s); CHECK_EQ(s,want,"string"); Exact x(t); if(g.flip()) strtk::replace(a,b,x.p,x.p+x.n); else strtk::replace(a,b,strtk::range::adapter<char>(x.p,x.n)); CHECK_EQ(x.str(),want,"range");
  std::vector<int> v(t.begin(),t.end()); strtk::replace((int)a,(int)b,v.begin(),v.end()); CHECK_EQ(v,std::vector<int>(want.begin(),want.end()),"integers");
}
LARGE(replace_pattern_string,12,70000) LARGE(replace_pattern_range,20,70000) LARGE(replace_element,6,70000)
