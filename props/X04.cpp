#include "models.hpp"
#include "strtk.hpp"
namespace pbt { const char* const property_id="X04";
const char* const rule_text="Texts built from whole, partial, overlapping and case-changed copies of the pattern plus other text over full byte alphabets; word lists with prefixes, extensions and case variants of the probed word; ranges of every length for size predicates. Oracle examines every position (non-overlapping matches left to right). Non-trivial: the searched thing is present somewhere. Distinct by generated inputs."; }
using namespace model; using pbt::G;
typedef std::pair<const char*,const char*> R;
static std::string recase(G& g,std::string s){ for(char& c:s) if(g.flip()){ if(c>='a'&&c<='z') c=char(c-32); else if(c>='A'&&c<='Z') c=char(c+32); } return s; }
static std::string gen_pat(G& g){ switch(g.below(5)){ case 0: return g.text("a",6); case 1: return g.text("abA",8); case 2: return g.text("aBz@[`{",12); case 3: return g.bytes(3); default: return g.bytes(10); } }
static std::string subject(G& g,const std::string& p,size_t max){ std::string s; size_t n=g.len(30),many=0; if(n>300){ many=n; n=1+g.below(6); } for(size_t i=0;i<n&&s.size()<max;++i) switch(g.below(6)){ case 0: s+=p; break; case 1: s+=recase(g,p); break; case 2: s+=p.substr(0,g.below(p.size()+1)); break; case 3: s+=p.substr(g.below(p.size()+1)); break; default: s+=g.fixed("abAB@`",g.below(4)); } if(many&&!s.empty()){ std::string unit=s; for(size_t i=n;i<many&&s.size()<std::min<size_t>(300000,10000000/(p.size()+1));i+=n) s+=unit; } return s; }
static std::vector<Span> all(const std::string& p,const std::string& s){ std::vector<Span> r; if(p.empty()) return r; for(size_t i=0;i+p.size()<=s.size();) if(s.compare(i,p.size(),p)==0){ r.push_back(Span(i,i+p.size())); i+=p.size(); } else ++i; return r; }
template<class V> static std::vector<Span> spans(const char* b,const V& v){ std::vector<Span> r; for(auto& x:v) r.push_back(Span(x.first-b,x.second-b)); return r; }

FACET(find_all,20000){
  std::string p=gen_pat(g),s=subject(g,p,600); g.show("p",p); g.show("s",s); std::vector<Span> w=all(p,s),wi=all(lower(p),lower(s)); g.nt(!wi.empty()); unsigned e=(unsigned)g.below(4); g.show("entry",e); Exact P(p),X(s);
  std::vector<R> o; std::deque<R> dq; size_t c;
  if(e==0){ c=strtk::find_all(P.b(),P.e(),X.b(),X.e(),pbt::slots(o)); CHECK_EQ(spans(X.b(),o),w,"exact"); CHECK_EQ(c,w.size(),"count"); o.clear(); c=strtk::ifind_all(P.b(),P.e(),X.b(),X.e(),pbt::slots(o)); CHECK_EQ(spans(X.b(),o),wi,"ignoring case"); CHECK_EQ(c,wi.size(),"count"); }
  else if(e==1){ c=strtk::find_all(p,s,pbt::slots(o)); CHECK_EQ(spans(s.data(),o),w,"exact"); CHECK_EQ(c,w.size(),"count"); o.clear(); c=strtk::ifind_all(p,s,pbt::slots(o)); CHECK_EQ(spans(s.data(),o),wi,"ignoring case"); CHECK_EQ(c,wi.size(),"count"); }
  else if(e==2){ c=strtk::find_all(p,s,dq); CHECK_EQ(spans(s.data(),dq),w,"exact"); CHECK_EQ(c,w.size(),"count"); dq.clear(); c=strtk::ifind_all(p,s,dq); CHECK_EQ(spans(s.data(),dq),wi,"ignoring case"); CHECK_EQ(c,wi.size(),"count"); }
  else { c=strtk::find_all(P.b(),P.e(),X.b(),X.e(),o); CHECK_EQ(spans(X.b(),o),w,"exact"); CHECK_EQ(c,w.size(),"count"); }
}
FACET(find_first,20000){
  std::string p=gen_pat(g),s=subject(g,p,300); if(p.empty()) p="a"; g.show("p",p); g.show("s",s); size_t w=std::string::npos,wi=w; auto a=all(p,s),b=all(lower(p),lower(s)); if(!a.empty()) w=a[0].first; if(!b.empty()) wi=b[0].first; g.nt(wi!=std::string::npos);
  CHECK_EQ(strtk::index_of(p,s),w,"first position"); CHECK_EQ(strtk::ifind(p,s),wi,"first position ignoring case");
}
FACET(prefix_suffix_equality,24000){
  std::string p=gen_pat(g),s; switch(g.below(5)){ case 0: s=p+g.text("ab",5); break; case 1: s=g.text("ab",5)+p; break; case 2: s=recase(g,p)+g.text("ab",5); break; case 3: s=g.text("ab",5)+recase(g,p); break; default: s=recase(g,p); } if(g.chance(1,4)&&!s.empty()) s[g.below(s.size())]^=0x20; if(g.chance(1,8)) s=s.substr(0,g.below(s.size()+1));
  g.show("p",p); g.show("s",s); std::string lp=lower(p),ls=lower(s); bool bw=s.size()>=p.size()&&s.compare(0,p.size(),p)==0,ew=s.size()>=p.size()&&s.compare(s.size()-p.size(),p.size(),p)==0,ibw=ls.size()>=lp.size()&&ls.compare(0,lp.size(),lp)==0,iew=ls.size()>=lp.size()&&ls.compare(ls.size()-lp.size(),lp.size(),lp)==0; g.nt((ibw||iew)&&!p.empty());
  Exact P(p),X(s);
  CHECK_EQ(strtk::begins_with(p,s),bw,"begins"); CHECK_EQ(strtk::ends_with(p,s),ew,"ends"); CHECK_EQ(strtk::ibegins_with(p,s),ibw,"ibegins"); CHECK_EQ(strtk::iends_with(p,s),iew,"iends"); CHECK_EQ(strtk::imatch(p,s),lp==ls,"equal ignoring case");
  CHECK_EQ(strtk::begins_with(P.b(),P.e(),X.b(),X.e()),bw,"begins range"); CHECK_EQ(strtk::ends_with(P.b(),P.e(),X.b(),X.e()),ew,"ends range"); CHECK_EQ(strtk::ibegins_with(P.b(),P.e(),X.b(),X.e()),ibw,"ibegins range"); CHECK_EQ(strtk::iends_with(P.b(),P.e(),X.b(),X.e()),iew,"iends range"); CHECK_EQ(strtk::imatch(P.b(),P.e(),X.b(),X.e()),lp==ls,"range equal ignoring case");
  CHECK_EQ(strtk::imatch(strtk::range::string(P.b(),P.e()),strtk::range::string(X.b(),X.e())),lp==ls,"adapter equal ignoring case");
  if(!p.empty()&&!s.empty()) CHECK_EQ(strtk::imatch_char(p[0],s[0]),lp[0]==ls[0],"character equal ignoring case");
}
static std::string variant(G& g,const std::string& w){ switch(g.below(6)){ case 0: return w; case 1: return recase(g,w); case 2: return w.substr(0,g.below(w.size()+1)); case 3: return w+g.text("ab",3); default: return g.text("abA",4); } }
FACET(membership,12000){
  std::string w=gen_pat(g); std::vector<std::string> v; size_t n=g.len(12); for(size_t i=0;i<n;++i) v.push_back(variant(g,w)); g.show("word",w); g.show("list",v); size_t k=0; while(k<v.size()&&lower(v[k])!=lower(w)) ++k; bool in=k<v.size(); g.nt(in);
  CHECK_EQ(strtk::imatch(w,v),in,"vector"); CHECK_EQ(strtk::imatch(w,std::deque<std::string>(v.begin(),v.end())),in,"deque"); CHECK_EQ(strtk::imatch(w,std::list<std::string>(v.begin(),v.end())),in,"list"); CHECK_EQ(strtk::imatch(w,std::set<std::string>(v.begin(),v.end())),in,"set"); CHECK_EQ(strtk::imatch(w,std::multiset<std::string>(v.begin(),v.end())),in,"multiset");
  CHECK_EQ((size_t)(strtk::imatch(w,v.data(),v.data()+v.size())-v.data()),k,"first matching word");
}
struct Sink { std::vector<std::string>* v; template<class It> void operator()(const std::pair<It,It>& r) const { v->push_back(std::string(r.first,r.second)); } void operator()(const std::string& s) const { v->push_back(s); } };
FACET(filter_on_match,12000){
  std::string w=gen_pat(g); std::vector<std::string> list,in,want,out; size_t n=g.len(8); for(size_t i=0;i<n;++i) list.push_back(variant(g,w)); n=g.len(16); for(size_t i=0;i<n;++i) in.push_back(variant(g,list.empty()||g.flip()?w:g.of(list))); bool ci=g.flip(),allow=g.flip();
  g.show("list",list); g.show("in",in); g.show("case_insensitive",ci); g.show("allow",allow); for(auto& s:in){ bool m=false; for(auto& l:list) if(ci?lower(l)==lower(s):l==s) m=true; if(m==allow) want.push_back(s); } g.nt(!want.empty()&&want.size()<in.size());
  Sink k={&out}; strtk::filter_on_match<Sink> f(list.data(),list.data()+list.size(),k,ci,allow); for(auto& s:in){ Exact X(s); if(g.flip()) f(s); else f(std::make_pair(X.b(),X.e())); } CHECK_EQ(out,want,"words let through");
}
FACET(first_non_repeated,12000){
  std::string t=g.bytes(300); if(g.flip()&&!t.empty()) t+=t.substr(g.below(t.size())); g.show("text",t); size_t k=0; for(;k<t.size();++k){ size_t c=0; for(char x:t) c+=x==t[k]; if(c==1) break; } size_t w=k<t.size()?k:std::string::npos; g.nt(w!=std::string::npos&&w>0); Exact x(t);
  CHECK_EQ(strtk::first_non_repeated_char(t),w,"string"); CHECK_EQ((size_t)(strtk::first_non_repeated_char(x.b(),x.e())-x.b()),k,"range"); CHECK_EQ((size_t)(strtk::first_non_repeated_char((const unsigned char*)x.b(),(const unsigned char*)x.e())-(const unsigned char*)x.b()),k,"unsigned range");
}
template<size_t N> static void sizes(const std::string& t){
  size_t n=t.size(); const char* b=t.data(); const char* e=b+n; std::vector<char> v(b,e); std::deque<char> d(b,e); R r(b,e); std::set<int> st; for(size_t i=0;i<n;++i) st.insert((int)i); std::multiset<int> ms; for(size_t i=0;i<n;++i) ms.insert(1);
  #define F(P,W) CHECK_EQ(P()(b,e),W,"range"); CHECK_EQ(P()(r),W,"pair"); CHECK_EQ(P()(t),W,"string"); CHECK_EQ(P()(v),W,"vector"); CHECK_EQ(P()(d),W,"deque"); CHECK_EQ(P()(st),W,"set"); CHECK_EQ(P()(ms),W,"multiset");
  F(strtk::size_equal_to<N>,n==N) F(strtk::size_less_than<N>,n<N) F(strtk::size_greater_than<N>,n>N) F(strtk::size_is_even,n%2==0) F(strtk::size_is_odd,n%2==1)
  #undef F
  CHECK_EQ(strtk::empty_range()(b,e),n==0,"empty"); CHECK_EQ(strtk::nonempty_range()(b,e),n!=0,"nonempty");
}
FACET(size_predicates,3000){ std::string t=g.fixed("ab",g.len(40)); g.show("text",t); g.nt(!t.empty()); sizes<0>(t); sizes<1>(t); sizes<2>(t); sizes<5>(t); sizes<8>(t); sizes<16>(t); sizes<31>(t);
  std::vector<R> o; strtk::filter_non_empty_range<pbt::slot_iterator<std::vector<R>>> f(pbt::slots(o)); size_t want=0,n=g.below(9); for(size_t i=0;i<n;++i){ size_t a=g.below(t.size()+1),b=a+g.below(t.size()-a+1); want+=b>a; f(R(t.data()+a,t.data()+b)); } CHECK_EQ(o.size(),want,"non-empty ranges kept"); for(auto& r:o) CHECK(r.first<r.second,"non-empty"); }
// A condition object judges every text with its own pattern, also as a copy or after assignment.
typedef strtk::string_condition SC;
static bool judged(SC::condition_type c,const std::string& p,const std::string& t){
  switch(c){ case SC::equal: return p==t; case SC::notequal: return p!=t; case SC::like: return wildcard(p,t); case SC::begins_with: return t.compare(0,p.size(),p)==0; case SC::ends_with: return t.size()>=p.size()&&t.compare(t.size()-p.size(),p.size(),p)==0; case SC::within: return t.find(p)!=std::string::npos; default: return t.find(p)==std::string::npos; }
}
FACET(string_conditions,8000){
  static const SC::condition_type types[]={SC::equal,SC::notequal,SC::like,SC::begins_with,SC::ends_with,SC::within,SC::notwithin};
  size_t n=1+g.below(4); std::vector<std::string> pats; std::vector<SC::condition_type> ts; std::vector<SC> held;
  for(size_t i=0;i<n;++i){
    SC::condition_type c=types[g.below(7)]; std::string p=c==SC::like?g.text("ab*?",8):gen_pat(g); if(g.chance(1,4)) p+=std::string(20,'q'); pats.push_back(p); ts.push_back(c);
    SC fresh(c,p); switch(g.below(3)){ case 0: held.push_back(fresh); break; case 1: { SC other(types[g.below(7)],gen_pat(g)+std::string(g.below(30),'z')); other=fresh; held.push_back(other); break; } default: held.push_back(SC(c,p)); }
    g.show("pattern",p); g.show("condition",(int)c);
  }
  size_t hits=0,k=1+g.below(6);
  for(size_t j=0;j<k;++j){
    const size_t i=g.below(n); std::string p=pats[i],t; if(ts[i]==SC::like){ for(char& c:p) if(c=='*'||c=='?') c='b'; }
    switch(g.below(6)){ case 0: t=p; break; case 1: t=p+gen_pat(g); break; case 2: t=gen_pat(g)+p; break; case 3: t=gen_pat(g)+p+gen_pat(g); break; case 4: t=p.substr(0,g.below(p.size()+1)); break; default: t=subject(g,p,80); }
    g.show("text",t); bool want=judged(ts[i],pats[i],t); hits+=want; Exact X(t);
    CHECK_EQ(held[i](t),want,"condition on a text"); CHECK_EQ(held[i]((const unsigned char*)X.b(),(const unsigned char*)X.e()),want,"condition on a range");
    if(g.chance(1,5)){ SC again(held[i]); held[i]=again; }
  }
  g.nt(hits>0);
}
FACET(skipping,3000){
  std::string s=g.text("ab c",30); g.show("text",s); char c=g.pick({'a','b',' '}); Exact X(s); size_t w=0; while(w<s.size()&&s[w]==c) ++w; g.nt(w>0);
  const char* i=X.b(); const char* e=X.e(); strtk::skip_while_matching(i,e,strtk::single_delimiter_predicate<char>(c)); CHECK_EQ((size_t)(i-X.b()),w,"skip_while_matching");
}
LARGE(find_all,16,70000) LARGE(find_first,8,70000) LARGE(prefix_suffix_equality,6,70000) LARGE(membership,6,600) LARGE(first_non_repeated,6,1500) LARGE(size_predicates,6,5000) LARGE(string_conditions,6,600) LARGE(skipping,6,70000)
