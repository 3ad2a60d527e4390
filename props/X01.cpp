#include "models.hpp"
#include "strtk.hpp"
namespace pbt { const char* const property_id="X01";
const char* const rule_text="Texts and integer sequences (vector, deque, list) whose elements satisfy the removal condition often, singly, in runs, at the ends, everywhere or nowhere, with conditions by character, character set, C string, predicate object and index list, over exact-size heap ranges. Non-trivial: at least one element is removed and at least one is kept. Distinct by generated text and condition."; }
using namespace model; using pbt::G;
struct UP { const Set256* s; bool operator()(char c) const { return (*s)(c); } };
struct IntP { int m,r; bool operator()(int v) const { return ((v%m)+m)%m==r; } };
template<class C,class P> static C keep(const C& c,P p){ C r; for(auto v:c) if(!p(v)) r.push_back(v); return r; }
template<class C,class P> static C nocons(const C& c,P p){ C r; bool prev=false; for(auto v:c){ bool q=p(v); if(!(q&&prev)) r.push_back(v); prev=q; } return r; }
template<class C> static C norep(const C& c){ C r; for(auto v:c) if(r.empty()||!(r.back()==v)) r.push_back(v); return r; }
static std::vector<int> ints(G& g){ size_t n=g.len(200); int k=1+(int)g.below(8); std::vector<int> v; int c=0; unsigned stick=(unsigned)g.below(4); for(size_t i=0;i<n;++i){ if(g.below(stick+1)==0) c=(int)g.below(k)-2; v.push_back(c); } return v; }
static std::string cstr_safe(const std::string& d){ std::string k; for(char c:d) if(c) k+=c; if(k.empty()) k="x"; return k; }

FACET(remove_by_condition_text,20000){
  std::string d=gen_delims(g); std::string t=gen_text(g,d,500); unsigned e=(unsigned)g.below(5); if(e==0) d=std::string(1,d.empty()?'x':d[0]);
  Set256 D(d); std::string want=keep(t,D); g.show("text",t); g.show("set",d); g.show("entry",e); g.nt(want.size()<t.size()&&!want.empty());
  std::string s=t; Exact x(t); UP p={&D};
  switch(e){
    case 0: strtk::remove_inplace(d[0],s); break;
    case 1: strtk::remove_inplace(p,s); break;
    case 2: strtk::remove_inplace(strtk::multiple_char_delimiter_predicate(d),s); break;
    case 3: { size_t c=strtk::remove_inplace(p,x.p,x.p+x.n); CHECK_EQ(c,t.size()-want.size(),"removal count"); s.assign(x.p,x.n-c); break; }
    default: { size_t c=strtk::remove_inplace(p,strtk::range::adapter<char>(x.p,x.p+x.n)); CHECK_EQ(c,t.size()-want.size(),"removal count"); s.assign(x.p,x.n-c); }
  }
  CHECK_EQ(s,want,"kept characters in order");
}
template<class C> static void seq_remove(G& g,const std::vector<int>& v,IntP p){
  C c(v.begin(),v.end()); C want=keep(c,p); size_t n=strtk::remove_inplace(p,c); CHECK(c==want,"kept "<<pbt::S(c)<<" want "<<pbt::S(want)); CHECK_EQ(n,v.size()-want.size(),"count"); g.nt(n>0&&!want.empty());
  C r(v.begin(),v.end()); C w2=norep(r); strtk::remove_consecutives_inplace(r); CHECK(r==w2,"without repeats "<<pbt::S(r)<<" want "<<pbt::S(w2));
  C q(v.begin(),v.end()); C w3=nocons(q,p); size_t k=strtk::remove_consecutives_inplace(p,q.begin(),q.end()); CHECK_EQ(k,v.size()-w3.size(),"count"); auto it=q.begin(); std::advance(it,q.size()-k); CHECK(C(q.begin(),it)==w3,"consecutive satisfying elements collapse to the first");
}
FACET(remove_from_sequences,15000){
  std::vector<int> v=ints(g); IntP p={1+(int)g.below(4),0}; p.r=(int)g.below(p.m); unsigned e=(unsigned)g.below(3); g.show("seq",v); g.show("mod",p.m); g.show("eq",p.r); g.show("container",e);
  if(e==0) seq_remove<std::vector<int>>(g,v,p); else if(e==1) seq_remove<std::deque<int>>(g,v,p); else seq_remove<std::list<int>>(g,v,p);
}
FACET(index_remover,10000){
  std::vector<int> v=ints(g); std::vector<size_t> idx; unsigned w=(unsigned)g.below(6); for(size_t i=0;i<v.size();++i) if(w==5||g.below(w+2)==0) idx.push_back(i);
  if(g.chance(1,6)) idx.push_back(v.size()+g.below(5)); // beyond the end: removes nothing
  g.show("n",(unsigned long)v.size()); g.show("indices",idx); std::vector<int> want; size_t k=0; for(size_t i=0;i<v.size();++i){ if(k<idx.size()&&idx[k]==i) ++k; else want.push_back(v[i]); }
  g.nt(k>0&&!want.empty()); std::vector<int> a=v; 
  if(g.flip()){ strtk::remove_inplace(strtk::index_remover(idx),a); CHECK_EQ(a,want,"elements at the listed indices are gone"); }
  else { std::deque<size_t> di(idx.begin(),idx.end()); std::list<int> l(v.begin(),v.end()); strtk::remove_inplace(strtk::index_remover(di),l); CHECK_EQ(std::vector<int>(l.begin(),l.end()),want,"elements at the listed indices are gone"); }
}
FACET(remove_consecutives_text,20000){
  std::string d=gen_delims(g); std::string t=gen_text(g,d,500); unsigned e=(unsigned)g.below(8); if(e==0) d=std::string(1,d.empty()?'x':d[0]); if(e==2) d=cstr_safe(d);
  Set256 D(d); bool any=e>=6; std::string want=any?norep(t):nocons(t,D); g.show("text",t); g.show("set",d); g.show("entry",e); g.nt(want.size()<t.size());
  std::string s=t; Exact x(t); UP p={&D}; size_t c=0; bool rng=false;
  switch(e){
    case 0: strtk::remove_consecutives_inplace(d[0],s); break;
    case 1: strtk::remove_consecutives_inplace(d,s); break;
    case 2: strtk::remove_consecutives_inplace(d.c_str(),s); break;
    case 3: strtk::remove_consecutives_inplace(p,s); break;
    case 4: c=strtk::remove_consecutives_inplace(p,x.p,x.p+x.n); rng=true; break;
    case 5: c=strtk::remove_consecutives_inplace(p,strtk::range::adapter<char>(x.p,x.n)); rng=true; break;
    case 6: strtk::remove_consecutives_inplace(s); break;
    default: if(g.flip()) c=strtk::remove_consecutives_inplace(x.p,x.p+x.n); else c=strtk::remove_consecutives_inplace(strtk::range::adapter<char>(x.p,x.n)); rng=true;
  }
  if(rng){ CHECK_EQ(c,t.size()-want.size(),"removal count"); s.assign(x.p,x.n-c); }
  CHECK_EQ(s,want,"first of every run kept");
}
FACET(remove_duplicates,12000){
  std::string t=g.bytes(600); g.show("text",t); std::string want; for(char c:t) if(want.find(c)==std::string::npos) want+=c; g.nt(want.size()<t.size()&&want.size()>1);
  CHECK_EQ(strtk::remove_duplicates(t),want,"first occurrence of every character"); std::string s=t; std::string r=strtk::remove_duplicates_inplace(s); CHECK_EQ(s,want,"in place"); CHECK_EQ(r,want,"returned");
}
FACET(remove_at_the_ends,24000){
  std::string d=gen_delims(g); unsigned e=(unsigned)g.below(9); if(e==0||e==4) d=std::string(1,d.empty()?'x':d[0]); if(e==2||e==6) d=cstr_safe(d);
  std::string t; { size_t a=g.len(12),b=g.len(12); if(!d.empty()) for(size_t i=0;i<a;++i) t+=d[g.below(d.size())]; t+=gen_text(g,d,60); if(!d.empty()) for(size_t i=0;i<b;++i) t+=d[g.below(d.size())]; }
  Set256 D(d); size_t a=0,b=t.size(); if(e<4||e==8) while(a<b&&D(t[a])) ++a; if(e>=4) while(b>a&&D(t[b-1])) --b; std::string want=t.substr(a,b-a);
  g.show("text",t); g.show("set",d); g.show("entry",e); g.nt(want.size()<t.size()); if(want.empty()&&!t.empty()) g.label("all removed"); std::string s=t; UP p={&D}; Exact x(t);
  switch(e){
    case 0: strtk::remove_leading(d[0],s); break;
    case 1: strtk::remove_leading(d,s); break;
    case 2: strtk::remove_leading(d.c_str(),s); break;
    case 3: if(g.flip()) strtk::remove_leading(p,s); else { size_t c=strtk::remove_leading(p,strtk::range::adapter<char>(x.p,x.n)); CHECK_EQ(c,a,"count"); s.assign(x.p,x.n-c); } break;
    case 4: strtk::remove_trailing(d[0],s); break;
    case 5: strtk::remove_trailing(d,s); break;
    case 6: strtk::remove_trailing(d.c_str(),s); break;
    case 7: if(g.flip()) strtk::remove_trailing(p,s); else { size_t c=strtk::remove_trailing(p,strtk::range::adapter<char>(x.p,x.n)); CHECK_EQ(c,t.size()-b,"count"); s.assign(x.p,x.n-c); } break;
    default: strtk::remove_leading_trailing(d,s);
  }
  CHECK_EQ(s,want,"only the ends are trimmed, completely");
}
FACET(remove_empty_strings,8000){
  size_t n=g.len(60); std::vector<std::string> v; for(size_t i=0;i<n;++i) v.push_back(g.chance(2,5)?"":g.text("ab",4)); g.show("seq",v); std::vector<std::string> want; for(auto& s:v) if(!s.empty()) want.push_back(s); g.nt(want.size()<v.size()&&!want.empty());
  { auto c=v; strtk::remove_empty_strings(c); CHECK_EQ(c,want,"vector"); }
  { std::deque<std::string> c(v.begin(),v.end()); strtk::remove_empty_strings(c); CHECK_EQ(std::vector<std::string>(c.begin(),c.end()),want,"deque"); }
  { std::list<std::string> c(v.begin(),v.end()); strtk::remove_empty_strings(c); CHECK_EQ(std::vector<std::string>(c.begin(),c.end()),want,"list"); }
  { std::set<std::string> c(v.begin(),v.end()); strtk::remove_empty_strings(c); CHECK(c==std::set<std::string>(want.begin(),want.end()),"set"); }
  { std::multiset<std::string> c(v.begin(),v.end()); strtk::remove_empty_strings(c); CHECK(c==std::multiset<std::string>(want.begin(),want.end()),"multiset"); }
}
LARGE(remove_by_condition_text,6,70000) LARGE(remove_from_sequences,6,70000) LARGE(index_remover,6,70000) LARGE(remove_consecutives_text,6,70000) LARGE(remove_duplicates,6,70000) LARGE(remove_at_the_ends,6,70000) LARGE(remove_empty_strings,5,5000)
