#include "fields.hpp"
#include "strtk.hpp"
#include <list>
#include <deque>
#include <set>
#include <map>
namespace pbt { const char* const property_id="P03";
const char* const rule_text="A sequence of typed values (integers of every width, reals, characters, texts) held in a container, a delimiter text (of any length, single characters for the round trip), optional prior output, an optional predicate given by a random subset, an entry point. Oracle: an independent join of the values' canonical decimal or own text; the round trip splits and parses the result back. Non-trivial: two or more values. Distinct by values, delimiter, container and entry."; }
using namespace model; using pbt::G;
// Canonical text of a value, independent of the library; reals are compared by value.
template<class T> struct Txt { static std::string of(T v){ return std::to_string(v); } };
template<> struct Txt<std::string> { static std::string of(const std::string& v){ return v; } };
template<> struct Txt<char> { static std::string of(char c){ return std::string(1,c); } };
template<> struct Txt<unsigned char> { static std::string of(unsigned char c){ return std::string(1,(char)c); } };
template<> struct Txt<bool> { static std::string of(bool b){ return b?"1":"0"; } };
template<class T> static T gen_value(G& g,const std::string&){ return g.integer<T>(); }
template<> std::string gen_value<std::string>(G& g,const std::string& avoid){ std::string s=g.chance(1,3)?g.bytes(12):g.text("abcXYZ019._-\x80\xff",12),r; for(char c:s) if(avoid.find(c)==std::string::npos) r+=c; return r; }
template<> char gen_value<char>(G& g,const std::string& avoid){ char c; do c=(char)g.below(256); while(avoid.find(c)!=std::string::npos); return c; }
template<> unsigned char gen_value<unsigned char>(G& g,const std::string& avoid){ return (unsigned char)gen_value<char>(g,avoid); }
template<> bool gen_value<bool>(G& g,const std::string&){ return g.flip(); }
template<class T> static std::vector<T> gen_values(G& g,size_t maxn,const std::string& avoid){ std::vector<T> v; size_t n=g.len(maxn); for(size_t i=0;i<n;++i) v.push_back(gen_value<T>(g,avoid)); return v; }
template<class T> static std::string ref_join(const std::vector<T>& v,const std::string& d){ std::string r; for(size_t i=0;i<v.size();++i){ if(i) r+=d; r+=Txt<T>::of(v[i]); } return r; }
static std::string gen_sep(G& g){ switch(g.below(4)){ case 0: return ""; case 1: return std::string(1,g.pick<char>({',','|',';','\0','\t'})); case 2: return g.pick<const char*>({", ","->","\r\n","0","-"}); default: return g.bytes(6); } }
template<class T> static void show_values(G& g,const std::vector<T>& v){ g.show("values",ref_join(v,"\x01")); g.show("count",v.size()); g.nt(v.size()>1); }
template<class C> static std::vector<typename C::value_type> content(const C& c){ return std::vector<typename C::value_type>(c.begin(),c.end()); }

template<class C> static void join_into(G& g,const char* name){
  typedef typename C::value_type T; g.note(name); std::string d=gen_sep(g),pre=g.flip()?"":g.text("ab,;",4); auto v=gen_values<T>(g,10,""); C c(v.begin(),v.end()); v=content(c); show_values(g,v); g.show("delim",d); g.show("prior",pre);
  std::string w=ref_join(v,d),o=pre; strtk::join(o,d,c); CHECK_EQ(o,pre+w,"join(output,delimiter,container)");
  o=pre; strtk::join(o,d,c.begin(),c.end()); CHECK_EQ(o,pre+w,"join(output,delimiter,begin,end)");
  o=pre; strtk::join(o,d,std::make_pair(c.begin(),c.end())); CHECK_EQ(o,pre+w,"join(output,delimiter,range)");
  CHECK_EQ(strtk::join(d,c),w,"join(delimiter,container)"); CHECK_EQ(strtk::join(d,c.begin(),c.end()),w,"join(delimiter,begin,end)"); CHECK_EQ(strtk::join(d,std::make_pair(c.begin(),c.end())),w,"join(delimiter,range)");
  // bracketize
  std::string post=gen_sep(g),b; for(auto& x:v) b+=d+Txt<T>::of(x)+post; g.show("post",post);
  o=pre; strtk::bracketize(o,d,post,c); CHECK_EQ(o,pre+b,"bracketize(output,pre,post,container)"); o=pre; strtk::bracketize(o,d,post,c.begin(),c.end()); CHECK_EQ(o,pre+b,"bracketize(output,pre,post,begin,end)");
  CHECK_EQ(strtk::bracketize(d,post,c),b,"bracketize(pre,post,container)"); CHECK_EQ(strtk::bracketize(d,post,c.begin(),c.end()),b,"bracketize(pre,post,begin,end)");
}
template<class T> struct Sel { std::set<T> in; bool operator()(const T& t) const { return in.count(t)!=0; } };
template<class C> static void join_if_all(G& g,const char* name){
  typedef typename C::value_type T; g.note(name); std::string d=gen_sep(g),pre=g.flip()?"":g.text("ab,;",4); auto v=gen_values<T>(g,10,""); if(v.size()>1&&g.flip()) v.push_back(v[0]); C c(v.begin(),v.end()); v=content(c); show_values(g,v); g.show("delim",d);
  Sel<T> p; unsigned mask=(unsigned)g.any64(); for(size_t i=0;i<v.size();++i) if(mask>>(i&31)&1) p.in.insert(v[i]); std::vector<T> k; for(auto& x:v) if(p(x)) k.push_back(x); g.show("kept",k.size()); g.label(k.empty()?"none_kept":k.size()==v.size()?"all_kept":"some_kept");
  std::string w=ref_join(k,d),o=pre; strtk::join_if(o,d,p,c); CHECK_EQ(o,pre+w,"join_if(output,delimiter,predicate,container)");
  o=pre; strtk::join_if(o,d,p,c.begin(),c.end()); CHECK_EQ(o,pre+w,"join_if(output,delimiter,predicate,begin,end)"); o=pre; strtk::join_if(o,d,p,std::make_pair(c.begin(),c.end())); CHECK_EQ(o,pre+w,"join_if(output,delimiter,predicate,range)");
  CHECK_EQ(strtk::join_if(d,p,c.begin(),c.end()),w,"join_if(delimiter,predicate,begin,end)"); CHECK_EQ(strtk::join_if(d,p,std::make_pair(c.begin(),c.end())),w,"join_if(delimiter,predicate,range)");
  CHECK_EQ(strtk::join_if(d,p,c),w,"join_if(delimiter,predicate,container)");
}
#define KINDS(F,N) \
FACET(F##_vector_int,N){ F<std::vector<int> >(g,"vector<int>"); } FACET(F##_vector_string,N){ F<std::vector<std::string> >(g,"vector<string>"); } FACET(F##_deque_uchar,N){ F<std::deque<unsigned char> >(g,"deque<unsigned char>"); } \
FACET(F##_list_llong,N){ F<std::list<long long> >(g,"list<long long>"); } FACET(F##_list_char,N){ F<std::list<char> >(g,"list<char>"); } FACET(F##_deque_ushort,N){ F<std::deque<unsigned short> >(g,"deque<unsigned short>"); } FACET(F##_vector_ull,N){ F<std::vector<unsigned long long> >(g,"vector<ull>"); } \
FACET(F##_set_string,N){ F<std::set<std::string> >(g,"set<string>"); } FACET(F##_multiset_short,N){ F<std::multiset<short> >(g,"multiset<short>"); } FACET(F##_set_uint,N){ F<std::set<unsigned int> >(g,"set<unsigned>"); } FACET(F##_multiset_long,N){ F<std::multiset<long> >(g,"multiset<long>"); } FACET(F##_vector_short,N){ F<std::vector<short> >(g,"vector<short>"); }
KINDS(join_into,700)
KINDS(join_if_all,700)

FACET(argc_argv,3000){
  size_t n=g.below(8); std::vector<std::string> a; for(size_t i=0;i<n;++i){ std::string s=g.text("ab,- 1",6); a.push_back(s); } std::vector<std::vector<char> > st; std::vector<char*> av; for(auto& s:a){ st.push_back(std::vector<char>(s.begin(),s.end())); st.back().push_back(0); } for(auto& s:st) av.push_back(&s[0]); av.push_back(0);
  std::string d=gen_sep(g),pre=g.text("xy",2); show_values(g,a); g.show("delim",d); std::string w=ref_join(a,d),o=pre; strtk::join(o,d,(int)n,&av[0]); CHECK_EQ(o,pre+w,"join(output,delimiter,argc,argv)"); CHECK_EQ(strtk::join(d,(int)n,&av[0]),w,"join(delimiter,argc,argv)");
}

// join then split and parse gives the values back
template<class T> static void round_trip(G& g,const char* name){
  g.note(name); std::string d(1,g.pick<char>({',','|',';',':','\t','\0','\xff'})); auto v=gen_values<T>(g,14,d); show_values(g,v); g.show("delim",d); std::string s=strtk::join(d,v.begin(),v.end());
  std::vector<std::string> w; for(auto& x:v) w.push_back(Txt<T>::of(x)); if(v.size()==1&&w[0].empty()) w.clear(); // the empty text has no tokens
  std::vector<std::string> t; strtk::split(d,s,strtk::range_to_type_back_inserter(t)); CHECK(t==w,"split of the join gives "<<t.size()<<" tokens of "<<w.size());
  bool empty=false; for(auto& x:w) empty=empty||x.empty(); if(w.empty()||empty) return;
  std::vector<T> b; size_t r=strtk::parse(s,d,b); CHECK_EQ(r,v.size(),"parse of the join"); CHECK(b==v,"values parsed from the join differ");
  std::deque<T> q; r=strtk::parse_n(s,d,v.size(),q); CHECK_EQ(r,v.size(),"bounded parse of the join"); CHECK(std::vector<T>(q.begin(),q.end())==v,"values of the bounded parse differ");
}
FACET(round_trip_int,1500){ round_trip<int>(g,"int"); } FACET(round_trip_string,2500){ round_trip<std::string>(g,"string"); } FACET(round_trip_uchar,1500){ round_trip<unsigned char>(g,"uchar"); } FACET(round_trip_char,1500){ round_trip<char>(g,"char"); } FACET(round_trip_ll,1500){ round_trip<long long>(g,"ll"); } FACET(round_trip_ull,1500){ round_trip<unsigned long long>(g,"ull"); } FACET(round_trip_short,1500){ round_trip<short>(g,"short"); } FACET(round_trip_ushort,1500){ round_trip<unsigned short>(g,"ushort"); }
// Reals keep ten significant digits
template<class T> static void round_trip_real(G& g,const char* name){
  g.note(name); std::vector<T> v; size_t n=g.len(10); for(size_t i=0;i<n;++i){ T x=(T)strtold(Field<T>::gen(g).c_str(),0); v.push_back(x); } std::string d=g.pick<const char*>({",","|",";"}); std::string l; for(auto& x:v) l+=value_text(x)+" "; g.show("values",l); g.nt(n>1);
  std::string s=strtk::join(d,v); auto t=pieces(s,split(s,Set256(d),PLAIN)); CHECK_EQ(t.size(),v.size(),"tokens of the join of reals"); for(size_t i=0;i<n;++i){ long double x=strtold(t[i].c_str(),0); CHECK(x==v[i]||fabsl(x-v[i])<=(sizeof(T)==4?1e-8L:1e-9L)*fabsl(v[i]),"text "<<t[i]<<" of "<<value_text(v[i])); }
  std::vector<T> b; if(n){ size_t r=strtk::parse(s,d,b); CHECK_EQ(r,n,"parse of the join"); CHECK_EQ(b.size(),n,"parsed reals"); for(size_t i=0;i<n;++i) CHECK(b[i]==v[i]||std::fabs(b[i]-v[i])<=(sizeof(T)==4?1e-8L:1.0000001e-9L)*std::fabs(v[i])+(sizeof(T)==4?1e-6f:1e-14)*std::fabs(v[i]),"real "<<value_text(b[i])<<" of "<<value_text(v[i])); }
}
FACET(round_trip_double,1500){ round_trip_real<double>(g,"double"); } FACET(round_trip_float,1500){ round_trip_real<float>(g,"float"); } FACET(round_trip_ldouble,1000){ round_trip_real<long double>(g,"long double"); }

// construct: every arity, mixed types in rotating order
struct Vars { int i; std::string s; unsigned long long u; char c; short h; long long l; unsigned char b; unsigned int n; std::string s2; bool t; long m; unsigned short w; std::vector<std::string> txt; };
FACET(construct,12000){
  std::string d=gen_sep(g),pre=g.flip()?"":g.text("xy,",3); size_t k=2+g.below(11),rot=g.below(3); g.show("variables",k); g.show("rotation",rot); g.show("delim",d); g.nt();
  int i=g.integer<int>(); std::string s=gen_value<std::string>(g,""),s2=gen_value<std::string>(g,""); unsigned long long u=g.integer<unsigned long long>(); char c=(char)g.below(256); short h=g.integer<short>(); long long l=g.integer<long long>(); unsigned char b=(unsigned char)g.below(256); unsigned int n=g.integer<unsigned int>(); bool t=g.flip(); long m=g.integer<long>(); unsigned short w=g.integer<unsigned short>();
  std::vector<std::string> x; auto T=[&](std::string v){ x.push_back(v); };
  auto N=[](long long v){ return std::to_string(v); }; auto U=[](unsigned long long v){ return std::to_string(v); };
  std::string o=pre;
  #define V0 i,s,u,c,h,l,b,n,s2,t,m,w
  if(rot==0){ T(N(i));T(s);T(U(u));T(std::string(1,c));T(N(h));T(N(l));T(std::string(1,(char)b));T(U(n));T(s2);T(t?"1":"0");T(N(m));T(U(w));
    switch(k){ case 2: strtk::construct(o,d,i,s); break; case 3: strtk::construct(o,d,i,s,u); break; case 4: strtk::construct(o,d,i,s,u,c); break; case 5: strtk::construct(o,d,i,s,u,c,h); break; case 6: strtk::construct(o,d,i,s,u,c,h,l); break; case 7: strtk::construct(o,d,i,s,u,c,h,l,b); break; case 8: strtk::construct(o,d,i,s,u,c,h,l,b,n); break; case 9: strtk::construct(o,d,i,s,u,c,h,l,b,n,s2); break; case 10: strtk::construct(o,d,i,s,u,c,h,l,b,n,s2,t); break; case 11: strtk::construct(o,d,i,s,u,c,h,l,b,n,s2,t,m); break; default: strtk::construct(o,d,i,s,u,c,h,l,b,n,s2,t,m,w); } }
  else if(rot==1){ T(U(w));T(N(m));T(t?"1":"0");T(s2);T(U(n));T(std::string(1,(char)b));T(N(l));T(N(h));T(std::string(1,c));T(U(u));T(s);T(N(i));
    switch(k){ case 2: strtk::construct(o,d,w,m); break; case 3: strtk::construct(o,d,w,m,t); break; case 4: strtk::construct(o,d,w,m,t,s2); break; case 5: strtk::construct(o,d,w,m,t,s2,n); break; case 6: strtk::construct(o,d,w,m,t,s2,n,b); break; case 7: strtk::construct(o,d,w,m,t,s2,n,b,l); break; case 8: strtk::construct(o,d,w,m,t,s2,n,b,l,h); break; case 9: strtk::construct(o,d,w,m,t,s2,n,b,l,h,c); break; case 10: strtk::construct(o,d,w,m,t,s2,n,b,l,h,c,u); break; case 11: strtk::construct(o,d,w,m,t,s2,n,b,l,h,c,u,s); break; default: strtk::construct(o,d,w,m,t,s2,n,b,l,h,c,u,s,i); } }
  else { T(s);T(s2);T(N(l));T(U(u));T(N(i));T(U(n));T(s);T(N(h));T(U(w));T(N(m));T(s2);T(N(l));
    switch(k){ case 2: strtk::construct(o,d,s,s2); break; case 3: strtk::construct(o,d,s,s2,l); break; case 4: strtk::construct(o,d,s,s2,l,u); break; case 5: strtk::construct(o,d,s,s2,l,u,i); break; case 6: strtk::construct(o,d,s,s2,l,u,i,n); break; case 7: strtk::construct(o,d,s,s2,l,u,i,n,s); break; case 8: strtk::construct(o,d,s,s2,l,u,i,n,s,h); break; case 9: strtk::construct(o,d,s,s2,l,u,i,n,s,h,w); break; case 10: strtk::construct(o,d,s,s2,l,u,i,n,s,h,w,m); break; case 11: strtk::construct(o,d,s,s2,l,u,i,n,s,h,w,m,s2); break; default: strtk::construct(o,d,s,s2,l,u,i,n,s,h,w,m,s2,l); } }
  x.resize(k); g.show("values",ref_join(x,"\x01")); CHECK_EQ(o,pre+ref_join(x,d),"construct of "<<k<<" variables");
}
// construct then parse
FACET(construct_parse,4000){
  std::string d(1,g.pick<char>({',','|',';','\t'})); int i=g.integer<int>(),i2=0; unsigned long long u=g.integer<unsigned long long>(),u2=0; long long l=g.integer<long long>(),l2=0; short h=g.integer<short>(),h2=0; std::string s=gen_value<std::string>(g,d),s2; char c=gen_value<char>(g,d),c2=0; if(s.empty()) s="x"; g.nt();
  std::string o; strtk::construct(o,d,i,s,u,c,l,h); g.show("text",o); bool r=strtk::parse(o,d,i2,s2,u2,c2,l2,h2); CHECK(r,"the constructed text does not parse"); CHECK(i==i2&&s==s2&&u==u2&&c==c2&&l==l2&&h==h2,"values parsed back differ");
}
FACET(build_string,4000){
  std::string w; strtk::build_string b(g.below(3)?64:g.below(10)); size_t n=g.len(12); g.nt(n>1); std::string ops;
  for(size_t k=0;k<n;++k) switch(g.below(8)){
    case 0: { int v=g.integer<int>(); b<<v; w+=std::to_string(v); break; } case 1: { std::string v=gen_value<std::string>(g,""); b<<v; w+=v; break; } case 2: { unsigned long long v=g.integer<unsigned long long>(); b<<v; w+=std::to_string(v); break; } case 3: { char v=(char)g.below(256); b<<v; w+=v; break; }
    case 4: { short v=g.integer<short>(); b<<v<<v; w+=std::to_string(v)+std::to_string(v); break; } case 5: { long long v=g.integer<long long>(); b<<v; w+=std::to_string(v); break; } case 6: { const char* v=g.pick<const char*>({"","abc","->"}); b<<std::string(v); w+=v; break; } default: { unsigned short v=g.integer<unsigned short>(); b<<v; w+=std::to_string(v); }
  }
  g.show("text",w); CHECK_EQ(b.to_str(),w,"build_string"); const char* p=b; CHECK(std::string(p,w.size())==w,"build_string as characters"); if(w.find('\0')==std::string::npos) CHECK_EQ(std::string(p),w,"build_string as a terminated text");
}
LARGE1(join_into_vector_int,10,20000) LARGE1(join_into_vector_string,10,5000) LARGE1(join_into_list_char,6,20000) LARGE1(join_into_set_uint,6,5000) LARGE1(join_into_multiset_short,6,5000) LARGE1(join_if_all_vector_int,10,20000) LARGE1(join_if_all_vector_string,10,5000) LARGE1(join_if_all_deque_uchar,6,20000) LARGE1(join_if_all_set_string,6,3000)
LARGE1(round_trip_int,8,20000) LARGE1(round_trip_string,8,5000) LARGE1(round_trip_uchar,6,20000) LARGE1(round_trip_double,6,5000) LARGE(construct,8,70000) LARGE(construct_parse,8,70000) LARGE1(build_string,8,5000)
