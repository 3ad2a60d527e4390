#include "models.hpp"
#include "strtk.hpp"
namespace pbt { const char* const property_id="X05";
const char* const rule_text="Texts of digit, lower, upper and other runs with run lengths around the requested one (below, equal, above, multiples), at start and end; n from 1 to beyond the text. Oracle: window scan for exactly-n, maximal runs for at-least-n. Non-trivial: at least one run is reported or a leading run matches. Distinct by text, type, mode and n."; }
using namespace model; using pbt::G;
typedef std::pair<const char*,const char*> R; typedef std::pair<char*,char*> RM;
static bool is(int ty,char c){ bool d=c>='0'&&c<='9',l=c>='a'&&c<='z',u=c>='A'&&c<='Z'; switch(ty){ case 0: return d; case 1: return l||u; case 2: return l; case 3: return u; default: return d||l||u; } }
static const strtk::find_type::type TY[]={strtk::find_type::digits,strtk::find_type::letters,strtk::find_type::lowercase_letters,strtk::find_type::uppercase_letters,strtk::find_type::letters_digits};
static std::string gen(G& g,size_t n){ std::string t; size_t k=g.len(20); static const char* cls[]={"019","amz","AMZ"," /:@[`{\x80\xff"}; for(size_t i=0;i<k;++i){ const char* a=cls[g.below(4)]; size_t l; switch(g.below(6)){ case 0: l=n; break; case 1: l=n+1; break; case 2: l=n-1; break; case 3: l=2*n; break; default: l=g.below(6); } if(l>60) l=60; size_t m=strlen(a); for(size_t j=0;j<l;++j) t+=a[g.below(m)]; } return t; }
template<class P> static std::vector<Span> windows(const std::string& t,P p,size_t n,bool atleast){ std::vector<Span> r; for(size_t i=0;i<t.size();){ if(!p(t[i])){ ++i; continue; } size_t e=i; while(e<t.size()&&p(t[e])) ++e; if(atleast){ if(e-i>=n) r.push_back(Span(i,e)); i=e; } else { while(i+n<=e){ r.push_back(Span(i,i+n)); i+=n; } i=e; } } return r; }
template<class V> static std::vector<Span> spans(const char* b,const V& v){ std::vector<Span> r; for(auto& x:v) r.push_back(Span((const char*)x.first-b,(const char*)x.second-b)); return r; }
struct Ty { int t; bool operator()(char c) const { return is(t,c); } };

FACET(find_and_match,24000){
  size_t n=1+g.len(12); std::string t=gen(g,n); Ty ty={(int)g.below(5)}; bool al=g.flip(); g.show("text",t); g.show("n",(unsigned long)n); g.show("type",ty.t); g.show("atleast",al);
  auto mode=al?strtk::find_mode::atleast_n:strtk::find_mode::exactly_n; auto w=windows(t,ty,n,al); g.nt(!w.empty()); Exact x(t);
  R r=strtk::find_n_consecutive<const char*>(n,TY[ty.t],mode,R(x.b(),x.e())); Span want=w.empty()?Span(t.size(),t.size()):w[0]; CHECK_EQ(Span(r.first-x.b(),r.second-x.b()),want,"first run");
  size_t lead=0; while(lead<t.size()&&is(ty.t,t[lead])) ++lead; CHECK_EQ(strtk::match_n_consecutive<const char*>(n,TY[ty.t],mode,R(x.b(),x.e())),lead>=n,"leading run");
  typedef std::string::const_iterator SI; const std::string& c=t; auto q=strtk::find_n_consecutive<SI>(n,TY[ty.t],mode,std::make_pair(c.begin(),c.end())); CHECK_EQ(Span(q.first-c.begin(),q.second-c.begin()),want,"first run (string iterators)");
}
FACET(split_by_type,20000){
  size_t n=g.chance(1,20)?0:1+g.len(12); std::string t=gen(g,n?n:1); Ty ty={(int)g.below(5)}; bool al=g.flip(); bool lim=g.flip(); size_t k=g.below(8); unsigned e=(unsigned)g.below(4);
  g.show("text",t); g.show("run",(unsigned long)n); g.show("type",ty.t); g.show("atleast",al); if(lim) g.show("limit",(unsigned long)k); g.show("entry",e); auto mode=al?strtk::find_mode::atleast_n:strtk::find_mode::exactly_n;
  if(lim&&n==0) n=1; std::vector<Span> w; if(n) w=windows(t,ty,n,al); g.nt(!w.empty()); if(lim&&w.size()>k){ w.resize(k); g.label("limited"); } Exact x(t); std::vector<RM> o; std::vector<std::string> s; const char* base=x.b(); size_t c; bool str=false;
  typedef const unsigned char* U;
  if(!lim) switch(e){
    case 0: c=strtk::split_on_consecutive<char*>(n,TY[ty.t],mode,x.p,x.p+x.n,pbt::slots(o)); break;
    case 1: c=strtk::split_on_consecutive(n,TY[ty.t],mode,x.b(),x.e(),pbt::slots(o)); break;
    case 2: c=strtk::split_on_consecutive(n,TY[ty.t],mode,(U)x.b(),(U)x.e(),strtk::range_to_type_back_inserter(s)); str=true; break;
    default: c=strtk::split_on_consecutive(n,TY[ty.t],mode,t,strtk::range_to_type_back_inserter(s)); str=true; }
  else switch(e){
    case 0: c=strtk::split_on_consecutive_n<char*>(k,n,TY[ty.t],mode,x.p,x.p+x.n,pbt::slots(o)); break;
    case 1: c=strtk::split_on_consecutive_n(k,n,TY[ty.t],mode,x.b(),x.e(),pbt::slots(o)); break;
    case 2: c=strtk::split_on_consecutive_n(k,n,TY[ty.t],mode,(U)x.b(),(U)x.e(),strtk::range_to_type_back_inserter(s)); str=true; break;
    default: c=strtk::split_on_consecutive_n(k,n,TY[ty.t],mode,t,strtk::range_to_type_back_inserter(s)); str=true; }
  if(str) CHECK_EQ(s,pieces(t,w),"runs"); else CHECK_EQ(spans(base,o),w,"runs"); CHECK_EQ(c,w.size(),"count");
}
FACET(split_by_predicate,16000){
  size_t n=1+g.len(10); std::string t=gen(g,n); std::string d=g.pick<const char*>({"019","amz","0a ","A"}); Set256 D(d); bool lim=g.flip(); size_t k=g.below(8); unsigned e=(unsigned)g.below(4);
  g.show("text",t); g.show("run",(unsigned long)n); g.show("set",d); if(lim) g.show("limit",(unsigned long)k); g.show("entry",e); auto w=windows(t,D,n,false); g.nt(!w.empty()); if(lim&&w.size()>k) w.resize(k); Exact x(t); std::vector<RM> o; std::vector<std::string> s; size_t c; bool str=false; typedef const unsigned char* U;
  if(!lim) switch(e){ case 0: c=strtk::split_on_consecutive(n,D,x.p,x.p+x.n,pbt::slots(o)); break; case 1: c=strtk::split_on_consecutive(n,D,x.b(),x.e(),pbt::slots(o)); break; case 2: c=strtk::split_on_consecutive(n,D,(U)x.b(),(U)x.e(),strtk::range_to_type_back_inserter(s)); str=true; break; default: c=strtk::split_on_consecutive(n,D,t,strtk::range_to_type_back_inserter(s)); str=true; }
  else switch(e){ case 0: c=strtk::split_on_consecutive(k,n,D,x.p,x.p+x.n,pbt::slots(o)); break; case 1: c=strtk::split_on_consecutive_n(k,n,D,x.b(),x.e(),pbt::slots(o)); break; case 2: c=strtk::split_on_consecutive_n(k,n,D,(U)x.b(),(U)x.e(),strtk::range_to_type_back_inserter(s)); str=true; break; default: c=strtk::split_on_consecutive_n(k,n,D,t,strtk::range_to_type_back_inserter(s)); str=true; }
  if(str) CHECK_EQ(s,pieces(t,w),"runs"); else CHECK_EQ(spans(x.b(),o),w,"runs"); CHECK_EQ(c,w.size(),"count");
}
// A predicate with memory: every element is put to it at most once, in order.
struct Memory { const Set256* d; std::string* seen; bool operator()(char c) const { *seen+=c; return (*d)(c); } };
FACET(split_by_stateful_predicate,12000){
  size_t n=1+g.len(8); std::string t=gen(g,n); std::string d=g.pick<const char*>({"019","amz","0a ","A"}); Set256 D(d); unsigned e=(unsigned)g.below(4); g.show("text",t); g.show("run",(unsigned long)n); g.show("set",d); g.show("entry",e); auto w=windows(t,D,n,false); g.nt(!w.empty()); Exact x(t); std::vector<RM> o; std::vector<std::string> s; size_t c; bool str=false; typedef const unsigned char* U; std::string seen; Memory m={&D,&seen};
  switch(e){ case 0: c=strtk::split_on_consecutive(n,m,x.p,x.p+x.n,pbt::slots(o),true); break; case 1: c=strtk::split_on_consecutive(n,m,x.b(),x.e(),pbt::slots(o),true); break; case 2: c=strtk::split_on_consecutive(n,m,(U)x.b(),(U)x.e(),strtk::range_to_type_back_inserter(s),true); str=true; break; default: c=strtk::split_on_consecutive(n,m,t,strtk::range_to_type_back_inserter(s),true); str=true; }
  if(str) CHECK_EQ(s,pieces(t,w),"runs"); else CHECK_EQ(spans(x.b(),o),w,"runs"); CHECK_EQ(c,w.size(),"count"); CHECK_EQ(seen,t.substr(0,seen.size()),"each element judged once, in order"); if(!w.empty()) CHECK(seen.size()>=w.back().second,"judged up to the last run");
}
FACET(count_consecutive_duplicates,10000){
  size_t n=g.len(300); std::vector<int> v; int k=1+(int)g.below(4); int c=0; unsigned st=(unsigned)g.below(4); for(size_t i=0;i<n;++i){ if(g.below(st+1)==0) c=(int)g.below(k); v.push_back(c); } g.show("seq",v); size_t w=0; for(size_t i=1;i<v.size();++i) w+=v[i]==v[i-1]; g.nt(w>0);
  CHECK_EQ(strtk::count_consecutive_duplicates(v.begin(),v.end()),w,"repeats"); std::list<int> l(v.begin(),v.end()); CHECK_EQ(strtk::count_consecutive_duplicates(l.begin(),l.end()),w,"repeats (list)");
}
LARGE(find_and_match,6,70000) LARGE(split_by_type,6,70000) LARGE(split_by_predicate,6,70000) LARGE(split_by_stateful_predicate,6,70000) LARGE(count_consecutive_duplicates,6,70000)
