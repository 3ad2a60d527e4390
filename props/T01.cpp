#include "models.hpp"
#include "strtk.hpp"
namespace pbt { const char* const property_id="T01";
const char* const rule_text="Texts mix delimiters and content over several alphabets (lengths 0..2100, skewed small, power-of-two edges), with each delimiter predicate type, every option combination and every split/tokenizer entry point; a case is non-trivial when the text holds at least one delimiter and at least two characters. Distinct by generated text, delimiters, mode and entry point."; }
using namespace model; using pbt::G;
typedef std::pair<const char*,const char*> R;
template<class It> static std::vector<Span> spans(It base,const std::vector<std::pair<It,It> >& v){ std::vector<Span> r; for(auto& x:v) r.push_back(Span(x.first-base,x.second-base)); return r; }
struct UserPred { const Set256* s; bool operator()(char c) const { return (*s)(c); } };

static Mode gen_mode(G& g){ return (Mode)g.below(5); }

FACET(split_matches_reference,24000){
  std::string d=gen_delims(g); std::string t=gen_text(g,d,2100); Mode m=gen_mode(g); size_t opt=opt_of(m,g.flip());
  unsigned e=(unsigned)g.below(14); 
  if(e==1||e==7||e==11) if(d.size()!=1) d=std::string(1,d.empty()?'x':d[0]);
  if(e==5||e==10) { std::string k; for(char c:d) if(c) k+=c; d=k; }
  g.show("text",t); g.show("delims",d); g.show("opt",(unsigned long)opt); g.show("entry",e);
  Set256 D(d); std::vector<Span> want=split(t,D,m);
  g.nt(t.size()>1&&std::any_of(t.begin(),t.end(),D)); if(want.size()>8) g.label("many_tokens");
  Exact x(t); std::vector<R> out; size_t n=0; const char* base=x.b(); std::vector<Span> got;
  std::vector<std::string> strs; bool as_str=false;
  switch(e){
    case 0: { strtk::multiple_char_delimiter_predicate p(d); n=strtk::split(p,x.b(),x.e(),pbt::slots(out),opt); break; }
    case 1: { strtk::single_delimiter_predicate<char> p(d[0]); n=strtk::split(p,x.b(),x.e(),pbt::slots(out),opt); break; }
    case 2: { strtk::multiple_delimiter_predicate<char> p(d.data(),d.data()+d.size()); n=strtk::split(p,x.b(),x.e(),pbt::slots(out),opt); break; }
    case 3: { UserPred p={&D}; n=strtk::split(p,x.b(),x.e(),pbt::slots(out),opt); break; }
    case 4: { UserPred p={&D}; n=strtk::split(p,R(x.b(),x.e()),pbt::slots(out),opt); break; }
    case 5: { base=t.data(); n=strtk::split(d.c_str(),t,pbt::slots(out),opt); break; }
    case 6: { base=t.data(); n=strtk::split(d,t,pbt::slots(out),opt); break; }
    case 7: { base=t.data(); n=strtk::split(d[0],t,pbt::slots(out),opt); break; }
    case 8: { base=t.data(); UserPred p={&D}; n=strtk::split(p,t,pbt::slots(out),opt); break; }
    case 9: { base=t.data(); std::list<R> l; n=strtk::split(d,t,l,opt); out.assign(l.begin(),l.end()); break; }
    case 10: { base=t.data(); std::deque<R> l; n=strtk::split(d.c_str(),t,l,opt); out.assign(l.begin(),l.end()); break; }
    case 11: { std::vector<std::pair<std::string::const_iterator,std::string::const_iterator> > o; strtk::single_delimiter_predicate<char> p(d[0]); const std::string& ct=t; n=strtk::split(p,ct.begin(),ct.end(),pbt::slots(o),opt); got=spans(ct.begin(),o); base=0; break; }
    case 12: { strtk::multiple_char_delimiter_predicate p(d.begin(),d.end()); n=strtk::split(p,t,strtk::range_to_type_back_inserter(strs),opt); as_str=true; break; }
    default: { std::deque<std::string> q; strtk::multiple_delimiter_predicate<char> p(d.begin(),d.end()); n=strtk::split(p,x.b(),x.e(),strtk::range_to_type_back_inserter(q),opt); strs.assign(q.begin(),q.end()); as_str=true; }
  }
  if(as_str) CHECK_EQ(strs,pieces(t,want),"tokens as strings");
  else { if(base) got=spans(base,out); CHECK_EQ(got,want,"token spans"); }
  CHECK_EQ(n,want.size(),"returned token count");
}

FACET(tokenizer_matches_reference,20000){
  std::string d=gen_delims(g); std::string t=gen_text(g,d,1000); Mode m=gen_mode(g); size_t opt=opt_of(m,g.flip()); unsigned e=(unsigned)g.below(7);
  if(e==1&&d.size()!=1) d=std::string(1,d.empty()?'x':d[0]);
  g.show("text",t); g.show("delims",d); g.show("opt",(unsigned long)opt); g.show("entry",e);
  Set256 D(d); std::vector<Span> want=split(t,D,m); std::vector<std::string> ws=pieces(t,want);
  g.nt(t.size()>1&&std::any_of(t.begin(),t.end(),D));
  Exact x(t); std::vector<Span> got; std::vector<std::string> gs;
  typedef strtk::multiple_char_delimiter_predicate MP;
  switch(e){
    case 0: { MP p(d); strtk::tokenizer<const char*,MP> k(x.b(),x.e(),p,opt); for(auto it=k.begin();it!=k.end();++it) got.push_back(Span((*it).first-x.b(),(*it).second-x.b())); CHECK_EQ(got,want,"tokenizer spans"); break; }
    case 1: { strtk::single_delimiter_predicate<char> p(d[0]); strtk::std_string::tokenizer<>::type k(t,p,opt); strtk::std_string::tokenizer<>::type::iterator it=k.begin(); while(k.end()!=it){ gs.push_back(it.as_string()); CHECK_EQ(it.remaining(),std::string((*it).first,t.data()+t.size()),"remaining text"); ++it; } CHECK_EQ(gs,ws,"tokenizer strings"); break; }
    case 2: { // reused on another text by assign, before and after a full walk
      MP p(d); std::string o=gen_text(g,d,60); g.show("other",o); typedef strtk::tokenizer<const char*,MP> K; K k(o,p,opt);
      size_t c=0; std::vector<Span> wo=split(o,D,m); size_t stop=g.below(wo.size()+1); for(K::iterator it=k.begin();it!=k.end()&&c<stop;++it) ++c;
      k.assign(t); for(K::iterator it=k.begin();it!=k.end();++it) got.push_back(Span((*it).first-t.data(),(*it).second-t.data())); CHECK_EQ(got,want,"spans after assign");
      k.assign(x.b(),x.e()); got.clear(); for(K::iterator it=k.begin();it!=k.end();++it) got.push_back(Span((*it).first-x.b(),(*it).second-x.b())); CHECK_EQ(got,want,"spans after second assign"); break; }
    case 3: { MP p(d); strtk::tokenizer<std::string::const_iterator,MP> k(((const std::string&)t).begin(),((const std::string&)t).end(),p,opt); for(auto it=k.begin();it!=k.end();++it) gs.push_back(it.as_string()); CHECK_EQ(gs,ws,"tokenizer over string iterators"); break; }
    case 4: { MP p(d); strtk::std_string::tokenizer<>::md_type k(t,p,opt); size_t c=strtk::for_each_token(t,k,[&](const R& r){ gs.push_back(std::string(r.first,r.second)); }); CHECK_EQ(gs,ws,"for_each_token over a tokenizer"); CHECK_EQ(c,ws.size(),"count"); break; }
    case 5: { // copies, post-increment and += reach the same tokens
      MP p(d); typedef strtk::tokenizer<const char*,MP> K; K k(x.b(),x.e(),p,opt); K::iterator it=k.begin(); size_t i=0;
      while(i<want.size()){ CHECK(it!=k.end(),"ended early at token "<<i); CHECK(!(it==k.end()),"== end at token "<<i); R r=*it; CHECK_EQ(Span(r.first-x.b(),r.second-x.b()),want[i],"token "<<i);
        size_t st=g.below(4); K::iterator cp(it); if(st==0){ R o=*(it++); CHECK(o==r,"post-increment returns the old token"); ++i; } else if(st==1){ ++it; ++i; } else if(st==2){ int j=(int)std::min<size_t>(1+g.below(3),want.size()-i); it+=j; i+=j; } else { K::iterator a2=k.begin(); a2=it; it=a2; ++it; ++i; }
        CHECK(*cp==r,"an earlier copy still refers to its token"); }
      CHECK(it==k.end(),"end after the last token"); break; }
    default: { size_t c=strtk::for_each_token(t,(const std::string&)d,[&](const R& r){ gs.push_back(std::string(r.first,r.second)); }); CHECK_EQ(gs,pieces(t,split(t,D,PLAIN)),"for_each_token by delimiters"); CHECK_EQ(c,gs.size(),"count"); }
  }
}

FACET(split_equals_tokenizer_and_restores_text,10000){
  std::string d=gen_delims(g); std::string t=gen_text(g,d,3000); Mode m=gen_mode(g); size_t opt=opt_of(m,g.flip());
  g.show("text",t); g.show("delims",d); g.show("opt",(unsigned long)opt); Set256 D(d); g.nt(t.size()>1&&std::any_of(t.begin(),t.end(),D));
  Exact x(t); strtk::multiple_char_delimiter_predicate p(d); std::vector<R> a,b; strtk::split(p,x.b(),x.e(),pbt::slots(a),opt);
  strtk::tokenizer<const char*,strtk::multiple_char_delimiter_predicate> k(x.b(),x.e(),p,opt); for(auto it=k.begin();it!=k.end();++it) b.push_back(*it);
  CHECK_EQ(spans(x.b(),a),spans(x.b(),b),"split and tokenizer");
  for(auto& r:a){ CHECK(r.first<=r.second&&x.b()<=r.first&&r.second<=x.e(),"token inside the text"); if(m==PLAIN||m==COMPRESS) for(const char* c=r.first;c!=r.second;++c) CHECK(!D(*c),"delimiter inside a token"); }
  if(m==FIRST||m==ALL){ std::string s; for(auto& r:a) s.append(r.first,r.second); CHECK_EQ(s,t,"concatenation"); }
  if(m==PLAIN&&!t.empty()){ CHECK_EQ(a.size(),1+(size_t)std::count_if(t.begin(),t.end(),D),"N delimiters, N+1 tokens"); std::string s; for(size_t i=0;i<a.size();++i){ if(i) s+=a[i].first[-1]; s.append(a[i].first,a[i].second); } CHECK_EQ(s,t,"tokens with the delimiters between them"); }
  if(t.empty()) CHECK(a.empty()&&b.empty(),"empty text has no tokens");
}

FACET(generic_sequences,8000){
  std::vector<int> t; size_t n=g.len(300); for(size_t i=0;i<n;++i) t.push_back((int)g.below(5)*100-200);
  std::vector<int> d; size_t k=g.below(40); for(size_t i=0;i<k;++i) d.push_back(g.chance(1,4)?(int)g.below(5)*100-200:(int)(1000+i));
  int single=(int)g.below(5)*100-200; bool one=g.flip(); Mode m=gen_mode(g); size_t opt=opt_of(m,g.flip());
  g.show("seq",t); if(one) g.show("delim",single); else g.show("delims",d); g.show("opt",(unsigned long)opt);
  auto isd=[&](size_t i){ return one?t[i]==single:std::find(d.begin(),d.end(),t[i])!=d.end(); };
  std::vector<Span> want=split(t.size(),isd,m); bool any=false; for(size_t i=0;i<t.size();++i) any|=isd(i); g.nt(any&&t.size()>1);
  typedef const int* P; std::vector<int> ex(t); ex.shrink_to_fit(); P b=ex.data(),e=b+ex.size(); std::vector<std::pair<P,P> > o; std::vector<Span> tk; size_t c;
  if(one){ strtk::single_delimiter_predicate<int> p(single); c=strtk::split(p,b,e,pbt::slots(o),opt); strtk::tokenizer<P,strtk::single_delimiter_predicate<int> > z(b,e,p,opt); for(auto it=z.begin();it!=z.end();++it) tk.push_back(Span((*it).first-b,(*it).second-b)); }
  else { strtk::multiple_delimiter_predicate<int> p(d.data(),d.size()); c=strtk::split(p,b,e,pbt::slots(o),opt); strtk::tokenizer<P,strtk::multiple_delimiter_predicate<int> > z(b,e,p,opt); for(auto it=z.begin();it!=z.end();++it) tk.push_back(Span((*it).first-b,(*it).second-b)); }
  CHECK_EQ(spans(b,o),want,"split over integers"); CHECK_EQ(tk,want,"tokenizer over integers"); CHECK_EQ(c,want.size(),"count");
}

FACET(predicates_decide_membership,3000){
  std::string d=gen_delims(g); if(g.chance(1,3)){ d.clear(); size_t n=g.below(80); for(size_t i=0;i<n;++i) d+=char(g.below(256)); }
  g.show("delims",d); g.nt(!d.empty()); Set256 D(d);
  strtk::multiple_char_delimiter_predicate a(d),b(d.begin(),d.end()); strtk::multiple_delimiter_predicate<char> c(d.data(),d.size()),e(d.begin(),d.end()); strtk::multiple_delimiter_predicate<char> f(d.data(),d.data()+d.size());
  for(int i=0;i<256;++i){ char ch=char(i); bool w=D(ch); CHECK(a(ch)==w&&b(ch)==w&&c(ch)==w&&e(ch)==w&&f(ch)==w&&a((unsigned char)i)==w,"character "<<i<<" expected "<<w); }
  if(!d.empty()){ strtk::single_delimiter_predicate<char> s(d[0]); for(int i=0;i<256;++i) CHECK(s(char(i))==(char(i)==d[0]),"single, character "<<i); }
}
FACET(inserters_keep_every_token,4000){
  std::string d=",;"; std::string t=gen_text(g,d,200); Mode m=gen_mode(g); size_t opt=opt_of(m,false); g.show("text",t); g.show("opt",(unsigned long)opt); Set256 D(d); g.nt(std::any_of(t.begin(),t.end(),D));
  std::vector<std::string> w=pieces(t,split(t,D,m));
  std::multiset<std::string> ms; strtk::split(d,t,strtk::range_to_type_inserter(ms),opt); CHECK_EQ(ms,std::multiset<std::string>(w.begin(),w.end()),"multiset");
  std::set<std::string> st; strtk::split(d,t,strtk::range_to_type_inserter(st),opt); CHECK_EQ(st,std::set<std::string>(w.begin(),w.end()),"set");
  std::queue<std::string> q; strtk::split(d,t,strtk::range_to_type_push_inserter(q),opt); std::vector<std::string> qv; while(!q.empty()){ qv.push_back(q.front()); q.pop(); } CHECK_EQ(qv,w,"queue");
  size_t cnt=0; strtk::split(d,t,strtk::counting_back_inserter<R>(cnt),opt); CHECK_EQ(cnt,w.size(),"counting inserter");
  std::vector<R> vr; strtk::split(d,t,strtk::back_inserter_with_valuetype(vr),opt); CHECK_EQ(vr.size(),w.size(),"value type inserter"); for(size_t i=0;i<w.size();++i) CHECK_EQ(std::string(vr[i].first,vr[i].second),w[i],"token "<<i);
  std::set<R> sr; strtk::split(d,t,strtk::inserter_with_valuetype(sr),opt); std::set<Span> a,b; for(auto& r:sr) a.insert(Span(r.first-t.data(),r.second-t.data())); for(auto& s:split(t,D,m)) b.insert(s); CHECK_EQ(a,b,"set of ranges");
  std::queue<R> pq; strtk::split(d,t,strtk::push_inserter(pq),opt); CHECK_EQ(pq.size(),w.size(),"push inserter");
}

FACET(assigned_tokenizers_and_callbacks,8000){
  std::string d=gen_delims(g),t=gen_text(g,d,300),o=gen_text(g,d,60); Mode m=gen_mode(g),m2=gen_mode(g); size_t opt=opt_of(m,g.flip()),opt2=opt_of(m2,g.flip()); g.show("text",t); g.show("delims",d); g.show("opt",(unsigned long)opt); g.show("other",o); g.show("other opt",(unsigned long)opt2);
  Set256 D(d); std::vector<Span> want=split(t,D,m),got; g.nt(t.size()>1&&std::any_of(t.begin(),t.end(),D)); Exact x(t); typedef strtk::multiple_char_delimiter_predicate MP; typedef strtk::tokenizer<const char*,MP> K; std::string d2=g.flip()?d:gen_delims(g); g.show("other delims",d2); MP p(d),p2(d2);
  { K a(x.b(),x.e(),p,opt),b(o,p2,opt2); if(g.flip()){ K::iterator i=b.begin(); i=a.begin(); got.clear(); for(;i!=a.end();++i) got.push_back(Span((*i).first-x.b(),(*i).second-x.b())); CHECK_EQ(got,want,"tokens through an assigned iterator"); got.clear(); } size_t st=g.below(3); K::iterator it=b.begin(); while(st--&&it!=b.end()) ++it; b=a; for(K::iterator i=b.begin();i!=b.end();++i) got.push_back(Span((*i).first-x.b(),(*i).second-x.b())); CHECK_EQ(got,want,"tokens of an assigned tokenizer");
    K c(b); got.clear(); for(K::iterator i=c.begin();i!=c.end();++i) got.push_back(Span((*i).first-x.b(),(*i).second-x.b())); CHECK_EQ(got,want,"tokens of a copied tokenizer"); b.assign(o); std::vector<Span> w2=split(o,D,m); got.clear(); for(K::iterator i=b.begin();i!=b.end();++i) got.push_back(Span((*i).first-o.data(),(*i).second-o.data())); CHECK_EQ(got,w2,"the options are assigned too"); }
  std::string z; for(char c:d) if(c) z+=c; Set256 Z(z); std::vector<std::string> s; std::size_t n=strtk::for_each_token(t,z.c_str(),[&](const R& r){ s.push_back(std::string(r.first,r.second)); }); CHECK_EQ(s,pieces(t,split(t,Z,PLAIN)),"for_each_token"); CHECK_EQ(n,s.size(),"count");
  std::vector<R> v; if(g.flip()) n=strtk::split<MP>(z.c_str(),R(x.b(),x.e()),pbt::slots(v),opt); else n=strtk::split<MP>(z,R(x.b(),x.e()),pbt::slots(v),opt); CHECK_EQ(spans(x.b(),v),split(t,Z,m),"range split by delimiter text"); CHECK_EQ(n,v.size(),"count");
  s.clear(); auto f=[&](const R& r){ s.push_back(std::string(r.first,r.second)); }; n=strtk::split(p,x.b(),x.e(),strtk::functional_inserter(f),opt); CHECK_EQ(s,pieces(t,want),"tokens handed to a function"); CHECK_EQ(n,s.size(),"count");
}
LARGE(split_matches_reference,8,70000) LARGE(tokenizer_matches_reference,6,70000) LARGE(split_equals_tokenizer_and_restores_text,6,70000) LARGE(generic_sequences,5,9000) LARGE(inserters_keep_every_token,5,70000) LARGE(assigned_tokenizers_and_callbacks,8,9000)
template<class It> static std::string printed(It b,It e){ std::ostringstream o; const std::pair<It,It> c(b,e); std::pair<It,It> m(b,e); o<<c<<'|'<<m; return o.str(); }
// Tokens printed to a stream are the tokens, whatever refers to them.
FACET(printed_tokens,2500){
  std::string d=gen_delims(g); if(d.empty()) d=","; std::string t=gen_text(g,d,80); Mode m=gen_mode(g); size_t opt=opt_of(m,g.flip()); bool one=g.flip(); if(one) d.resize(1); g.show("text",t); g.show("delims",d); g.show("opt",(unsigned long)opt); Set256 D(d); std::vector<Span> want=split(t,D,m); std::vector<std::string> ws=pieces(t,want); g.nt(ws.size()>1); size_t i=0;
  if(one){ strtk::single_delimiter_predicate<char> p(d[0]); strtk::std_string::tokenizer<>::type k(t,p,opt); for(strtk::std_string::tokenizer<>::type::iterator it=k.begin();it!=k.end();++it,++i){ std::ostringstream o; o<<it<<'|'<<*it; CHECK(i<ws.size(),"more tokens than expected"); CHECK_EQ(o.str(),ws[i]+"|"+ws[i],"printed token "<<i); } }
  else { strtk::multiple_char_delimiter_predicate p(d); typedef strtk::std_string::tokenizer<strtk::multiple_char_delimiter_predicate>::type K; K k(t,p,opt); for(K::iterator it=k.begin();it!=k.end();++it,++i){ std::ostringstream o; o<<it<<'|'<<*it; CHECK(i<ws.size(),"more tokens than expected"); CHECK_EQ(o.str(),ws[i]+"|"+ws[i],"printed token "<<i); } }
  CHECK_EQ(i,ws.size(),"tokens"); Exact x(t); const std::string& c=t; std::string w=t+"|"+t; std::string tt=t; CHECK_EQ(printed(x.b(),x.e()),w,"const char range"); CHECK_EQ(printed(x.p,x.p+x.n),w,"char range"); CHECK_EQ(printed((unsigned char*)x.p,(unsigned char*)x.p+x.n),w,"byte range"); CHECK_EQ(printed((const unsigned char*)x.b(),(const unsigned char*)x.e()),w,"const byte range"); CHECK_EQ(printed(c.begin(),c.end()),w,"const iterator range"); CHECK_EQ(printed(tt.begin(),tt.end()),w,"iterator range");
}
