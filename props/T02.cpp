#include "models.hpp"
#include "strtk.hpp"
#include <regex>
namespace pbt { const char* const property_id="T02";
const char* const rule_text="Texts mixing delimiters and content with limits from 0 to beyond the token count; offset lists of 1..12 entries (both rotation modes, zero and oversized entries); pair splits; regular expressions from a pool with std::regex as oracle. Non-trivial: the text is non-empty and at least one piece is expected. Distinct by generated text and parameters."; }
using namespace model; using pbt::G;
typedef std::pair<const char*,const char*> R;
struct UserPred { const Set256* s; bool operator()(char c) const { return (*s)(c); } };
static std::vector<Span> spans(const char* base,const std::vector<R>& v){ std::vector<Span> r; for(auto& x:v) r.push_back(Span(x.first-base,x.second-base)); return r; }

FACET(split_n_is_a_prefix_of_split,24000){
  std::string d=gen_delims(g); std::string t=gen_text(g,d,700); Mode m=(Mode)g.below(5); size_t opt=opt_of(m,g.flip()); unsigned e=(unsigned)g.below(9);
  if(e==2||e==5) if(d.size()!=1) d=std::string(1,d.empty()?'x':d[0]);
  if(e==3){ std::string k; for(char c:d) if(c) k+=c; d=k; }
  Set256 D(d); std::vector<Span> want=split(t,D,m); size_t n=g.chance(3,4)?g.below(want.size()+3):g.below(1000);
  g.show("text",t); g.show("delims",d); g.show("opt",(unsigned long)opt); g.show("n",(unsigned long)n); g.show("entry",e);
  if(want.size()>n) { want.resize(n); g.label("limited"); } g.nt(!want.empty()&&t.size()>1);
  Exact x(t); std::vector<R> out; const char* base=t.data(); size_t c; std::vector<std::string> strs; bool as=false;
  switch(e){
    case 0: { base=x.b(); strtk::multiple_char_delimiter_predicate p(d); c=strtk::split_n(p,x.b(),x.e(),n,pbt::slots(out),opt); break; }
    case 1: { base=x.b(); UserPred p={&D}; c=strtk::split_n(p,x.b(),x.e(),n,pbt::slots(out),opt); break; }
    case 2: { base=x.b(); strtk::single_delimiter_predicate<char> p(d[0]); c=strtk::split_n(p,x.b(),x.e(),n,pbt::slots(out),opt); break; }
    case 3: c=strtk::split_n(d.c_str(),t,n,pbt::slots(out),opt); break;
    case 4: c=strtk::split_n(d,t,n,pbt::slots(out),opt); break;
    case 5: c=strtk::split_n(d[0],t,n,pbt::slots(out),opt); break;
    case 6: base=x.b(); c=strtk::split_n(d,x.b(),x.e(),n,pbt::slots(out),opt); break;
    case 7: { UserPred p={&D}; c=strtk::split_n(p,t,n,pbt::slots(out),opt); break; }
    default: { strtk::multiple_delimiter_predicate<char> p(d.begin(),d.end()); c=strtk::split_n(p,t,n,strtk::range_to_type_back_inserter(strs),opt); as=true; }
  }
  if(as) CHECK_EQ(strs,pieces(t,want),"strings"); else CHECK_EQ(spans(base,out),want,"first n tokens");
  CHECK_EQ(c,want.size(),"returned count");
}

template<size_t N> struct Off { static strtk::offset_predicate<N> make(const std::vector<int>& v,bool r){ return strtk::offset_predicate<N>(v.data(),r); } };
template<class P> static void run_offsets(G& g,const std::string& t,const std::vector<int>& o,bool rot,const P& p){
  std::vector<Span> want; size_t pos=0,i=0; while(pos<t.size()){ if(i==o.size()){ if(!rot) break; i=0; } int k=o[i++]; if(k<=0) break; size_t e=std::min(t.size(),pos+(size_t)k); want.push_back(Span(pos,e)); pos=e; }
  g.nt(!want.empty()); if(want.size()>o.size()) g.label("rotated");
  CHECK_EQ(p.size(),o.size(),"offset count"); CHECK(!!p,"non-empty offset list");
  for(int round=0;round<2;++round){ Exact x(t); p.reset(); std::vector<R> out; size_t c=strtk::offset_splitter(x.b(),x.e(),p,pbt::slots(out)); CHECK_EQ(spans(x.b(),out),want,"offset pieces"); CHECK_EQ(c,want.size(),"count"); }
  p.reset(); std::vector<std::string> s; size_t c=strtk::offset_splitter(t,p,strtk::range_to_type_back_inserter(s)); CHECK_EQ(s,pieces(t,want),"offset strings"); CHECK_EQ(c,want.size(),"count");
  // without a reset an exhausted list gives nothing more, and a rotating one carries on; never outside the text
  Exact y(t); std::vector<R> o2; strtk::offset_splitter(y.b(),y.e(),p,pbt::slots(o2)); size_t at=0; for(auto& r:o2){ CHECK((size_t)(r.first-y.b())==at&&r.second>=r.first&&r.second<=y.e(),"piece inside the text, consecutive"); at=r.second-y.b(); }
}
FACET(offset_splitter,12000){
  std::string t=g.bytes(300); std::vector<int> o; size_t n=1+g.below(12); for(size_t i=0;i<n;++i) o.push_back(g.chance(1,14)?0:g.chance(1,10)?(int)g.below(1000000):1+(int)g.below(7)); bool rot=g.flip();
  g.show("text",t); g.show("offsets",o); g.show("rotate",rot);
  #define A(i) o[i]
  switch(n){
    case 1: run_offsets(g,t,o,rot,strtk::offsets(A(0),rot)); break; case 2: run_offsets(g,t,o,rot,strtk::offsets(A(0),A(1),rot)); break;
    case 3: run_offsets(g,t,o,rot,strtk::offsets(A(0),A(1),A(2),rot)); break; case 4: run_offsets(g,t,o,rot,strtk::offsets(A(0),A(1),A(2),A(3),rot)); break;
    case 5: run_offsets(g,t,o,rot,strtk::offsets(A(0),A(1),A(2),A(3),A(4),rot)); break; case 6: run_offsets(g,t,o,rot,strtk::offsets(A(0),A(1),A(2),A(3),A(4),A(5),rot)); break;
    case 7: run_offsets(g,t,o,rot,strtk::offsets(A(0),A(1),A(2),A(3),A(4),A(5),A(6),rot)); break; case 8: run_offsets(g,t,o,rot,strtk::offsets(A(0),A(1),A(2),A(3),A(4),A(5),A(6),A(7),rot)); break;
    case 9: run_offsets(g,t,o,rot,strtk::offsets(A(0),A(1),A(2),A(3),A(4),A(5),A(6),A(7),A(8),rot)); break; case 10: run_offsets(g,t,o,rot,strtk::offsets(A(0),A(1),A(2),A(3),A(4),A(5),A(6),A(7),A(8),A(9),rot)); break;
    case 11: run_offsets(g,t,o,rot,strtk::offsets(A(0),A(1),A(2),A(3),A(4),A(5),A(6),A(7),A(8),A(9),A(10),rot)); break; default: run_offsets(g,t,o,rot,strtk::offsets(A(0),A(1),A(2),A(3),A(4),A(5),A(6),A(7),A(8),A(9),A(10),A(11),rot)); }
  #undef A
}
FACET(split_pair,10000){
  std::string d=gen_delims(g); std::string t=gen_text(g,d,60); unsigned e=(unsigned)g.below(3); if(e==1&&d.size()!=1) d=std::string(1,d.empty()?'x':d[0]);
  g.show("text",t); g.show("delims",d); g.show("entry",e); Set256 D(d); size_t k=0; while(k<t.size()&&!D(t[k])) ++k; bool want=k+1<t.size(); g.nt(want);
  R a,b; bool ok; Exact x(t); const char* base=t.data();
  if(e==0){ base=x.b(); strtk::multiple_char_delimiter_predicate p(d); ok=strtk::split_pair(x.b(),x.e(),p,a,b); } else if(e==1) ok=strtk::split_pair(d[0],t,a,b); else { UserPred p={&D}; ok=strtk::split_pair(p,t,a,b); }
  CHECK_EQ(ok,want,"a pair exists iff something follows the first delimiter");
  if(want){ CHECK_EQ(Span(a.first-base,a.second-base),Span(0,k),"first part"); CHECK_EQ(Span(b.first-base,b.second-base),Span(k+1,t.size()),"second part"); }
}
FACET(split_regex,6000){
  static const char* ex[]={"a","ab|b","[ab]+","(a)(b)","[0-9]+","(x*)(y)","a{2}","\\w+","[^,]+","(a|b)(c?)"}; unsigned k=(unsigned)g.below(10); std::string e=ex[k]; int groups=k==3||k==5||k==9?2:0; int mode=(int)g.below(groups+1);
  std::string t=g.text("aabbcxy,09 ",60); size_t n=g.below(8); unsigned entry=(unsigned)g.below(5); g.show("text",t); g.show("expr",e); g.show("mode",mode); g.show("entry",entry); if(entry>=3) g.show("n",(unsigned long)n);
  std::vector<std::string> want; std::regex re(e); for(std::sregex_iterator i(t.begin(),t.end(),re),z;i!=z;++i) want.push_back((*i)[mode].str());
  if(entry>=3&&want.size()>n) want.resize(n); g.nt(!want.empty());
  std::vector<std::string> got; size_t c; auto md=(strtk::regex_match_mode::type)mode; boost::regex br(e); const std::string& ct=t;
  switch(entry){ case 0: c=strtk::split_regex(e,t,strtk::range_to_type_back_inserter(got),md); break; case 1: c=strtk::split_regex(br,t,strtk::range_to_type_back_inserter(got),md); break; case 2: { Exact x(t); c=strtk::split_regex(e,x.b(),x.e(),strtk::range_to_type_back_inserter(got),md); break; } case 3: c=strtk::split_regex_n(e,t,n,strtk::range_to_type_back_inserter(got),md); break; default: c=strtk::split_regex_n(br,ct.begin(),ct.end(),n,strtk::range_to_type_back_inserter(got),md); }
  CHECK_EQ(got,want,"matches"); CHECK_EQ(c,want.size(),"count");
}
LARGE(split_n_is_a_prefix_of_split,8,70000) LARGE(offset_splitter,6,70000) LARGE(split_pair,6,70000) LARGE(split_regex,4,3000)
