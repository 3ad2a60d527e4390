#include "fields.hpp"
#include "strtk.hpp"
#include <tuple>
#include <utility>
#include <fstream>
#include <unistd.h>
namespace pbt { const char* const property_id="P01";
const char* const rule_text="A list of 1..16 variables of rotating types (all integer widths, reals, characters, strings) and a line of generated fields for them: mostly valid, sometimes one field invalid, missing or extra, separated by single delimiters or runs of a generated delimiter set. Oracle: reference split plus a reference acceptor per type. Non-trivial: two or more variables, or a failing line. Distinct by line, delimiters, arity, type rotation and entry point."; }
using namespace model; using pbt::G;
typedef unsigned long long ull; typedef long long ll;
template<class... T> struct L {};
typedef L<int,std::string,double,unsigned,char,short,ll,unsigned short,float,long,std::string,int,ull,unsigned char,unsigned long,double> L0;
typedef L<std::string,std::string,int,int,int,double,double,std::string,ll,ull,char,char,std::string,short,short,int> L1;
typedef L<ull,unsigned short,short,float,std::string,int,unsigned,unsigned char,double,std::string,ll,long,signed char,std::string,int,int> L2;
typedef L<int,int,int,int,int,int,int,int,int,int,int,int,int,int,int,int> L3;
typedef L<std::string,std::string,std::string,std::string,std::string,std::string,std::string,std::string,std::string,std::string,std::string,std::string,std::string,std::string,std::string,std::string> L4;

// The first K types of a list.
template<size_t K,class Done,class Rest> struct TakeI;
template<class... D,class R> struct TakeI<0,L<D...>,R>{ typedef L<D...> type; };
template<size_t K,class... D,class H,class... R> struct TakeI<K,L<D...>,L<H,R...> >{ typedef typename std::conditional<K==0,TakeI<0,L<D...>,L<> >,TakeI<K-1,L<D...,H>,L<R...> > >::type::type type; };
template<class... D,class H,class... R> struct TakeI<0,L<D...>,L<H,R...> >{ typedef L<D...> type; };

struct Line { std::string text,delims; unsigned form; };
template<class TL> struct Run;
template<class... T> struct Run<L<T...> > {
  enum { K=sizeof...(T) };
  typedef std::tuple<T...> Vars;
  template<size_t... I> static bool call(std::index_sequence<I...>,const Line& l,Vars& v){
    Exact x(l.text);
    switch(l.form%5){
      case 0: return strtk::parse(x.b(),x.e(),l.delims,std::get<I>(v)...);
      case 1: return strtk::parse(l.text,l.delims,std::get<I>(v)...);
      case 2: return strtk::parse((const unsigned char*)x.b(),(const unsigned char*)x.e(),l.delims,std::get<I>(v)...);
      case 3: return strtk::parse(l.text.begin(),l.text.end(),l.delims,std::get<I>(v)...);
      default: { std::vector<char> c(l.text.begin(),l.text.end()); return strtk::parse(c.begin(),c.end(),l.delims,std::get<I>(v)...); }
    }
  }
  template<size_t... I> static void line(std::index_sequence<I...>,G& g,const Line& l,size_t){}
  template<size_t I> static void field(G& g,std::vector<std::string>& f,int bad){ typedef typename std::tuple_element<I,Vars>::type F; f.push_back(bad==(int)I?Field<F>::bad(g):Field<F>::gen(g)); }
  template<size_t... I> static void gen(std::index_sequence<I...>,G& g,std::vector<std::string>& f,int bad){ int d[]={(field<I>(g,f,bad),0)...}; (void)d; }
  template<size_t I> static void ok1(const std::vector<std::string>& t,bool& ok,Vars& want){ if(!ok) return; if(I>=t.size()){ ok=false; return; } ok=Field<typename std::tuple_element<I,Vars>::type>::valid(t[I],std::get<I>(want)); }
  template<size_t... I> static bool expect(std::index_sequence<I...>,const std::vector<std::string>& t,Vars& want){ bool ok=true; int d[]={(ok1<I>(t,ok,want),0)...}; (void)d; return ok; }
  template<size_t I> static void same1(const Vars& got,const Vars& want){ typedef typename std::tuple_element<I,Vars>::type F; CHECK(Field<F>::same(std::get<I>(got),std::get<I>(want)),"variable "<<I+1<<" of "<<K<<": got "<<value_text(std::get<I>(got))<<", the field is worth "<<value_text(std::get<I>(want))); }
  template<size_t... I> static void compare(std::index_sequence<I...>,const Vars& got,const Vars& want){ int d[]={(same1<I>(got,want),0)...}; (void)d; }

  static Line make(G& g,unsigned forms){
    Line l; l.delims=field_delims(g); l.form=(unsigned)g.below(forms); std::vector<std::string> f; int bad=g.chance(1,5)?(int)g.below(K):-1;
    gen(std::make_index_sequence<K>(),g,f,bad);
    switch(g.below(8)){ case 0: f.pop_back(); break; case 1: f.push_back(Field<int>::gen(g)); break; case 2: if(f.size()>1) std::swap(f[g.below(f.size())],f[g.below(f.size())]); break; default: break; }
    if(g.chance(1,12)) l.text+=delim_run(g,l.delims);
    for(size_t i=0;i<f.size();++i){ if(i) l.text+=delim_run(g,l.delims); l.text+=f[i]; }
    if(g.chance(1,10)) l.text+=delim_run(g,l.delims);
    return l;
  }
  static void go(G& g){
    Line l=make(g,5); g.show("line",l.text); g.show("delims",l.delims); g.show("variables",(int)K); g.show("form",l.form);
    Vars want,got; auto t=pieces(l.text,split(l.text,Set256(l.delims),COMPRESS)); std::index_sequence_for<T...> seq; bool ok=expect(seq,t,want);
    g.nt(K>1||!ok); g.label(ok?"accepted":t.size()<K?"too few":"invalid field"); g.label("arity"+std::to_string((int)K));
    bool r=call(seq,l,got); CHECK_EQ(r,ok,"parse into "<<(int)K<<" variables"); if(r) compare(seq,got,want);
    // A failing call leaves every variable assigned before the failure with its own field.
  }
};
template<class TL,size_t K> struct At { static void go(G& g,size_t k){ if(k==K) Run<typename TakeI<K,L<>,TL>::type>::go(g); else At<TL,K-1>::go(g,k); } };
template<class TL> struct At<TL,0> { static void go(G&,size_t){} };
template<class TL> static void any(G& g){ At<TL,16>::go(g,1+g.below(16)); }
FACET(mixed,9000){ any<L0>(g); }
FACET(mixed_text_numbers,7000){ any<L1>(g); }
FACET(mixed_small_types,7000){ any<L2>(g); }
FACET(integers,7000){ any<L3>(g); }
FACET(strings,7000){ any<L4>(g); }

// parse_line: one line per call from a file, up to twelve variables; blank lines and end of file report failure.
static std::string scratch_file(){ return pbt::scratch("line"); }
template<class TL> struct Lines;
template<class... T> struct Lines<L<T...> > {
  typedef Run<L<T...> > R; typedef std::tuple<T...> Vars;
  template<size_t... I> static bool call(std::index_sequence<I...>,std::ifstream& f,const std::string& d,Vars& v){ return strtk::parse_line(f,d,std::get<I>(v)...); }
  static void go(G& g){
    std::string d=g.pick<const char*>({",","|;"," \t,"}); size_t n=1+g.below(5); std::string content; std::vector<std::string> ls; bool last_nl=g.flip();
    for(size_t i=0;i<n;++i){ Line l=R::make(g,1); std::string s; for(char c:l.text) s+=c=='\n'?'_':l.delims.find(c)!=std::string::npos?d[0]:c; if(g.chance(1,8)) s.clear(); ls.push_back(s); }
    for(size_t i=0;i<n;++i){ content+=ls[i]; if(i+1<n||last_nl) content+='\n'; }
    if(!last_nl&&ls.back().empty()) ls.pop_back();
    g.show("file",content); g.show("delims",d); g.show("variables",(int)sizeof...(T)); g.nt(n>1);
    std::string fn=scratch_file(); { std::ofstream o(fn.c_str(),std::ios::binary); o<<content; } std::ifstream in(fn.c_str(),std::ios::binary); unlink(fn.c_str());
    std::index_sequence_for<T...> seq;
    for(auto& s:ls){ Vars want,got; bool ok=!s.empty()&&R::expect(seq,pieces(s,split(s,Set256(d),COMPRESS)),want); bool r=call(seq,in,d,got); CHECK_EQ(r,ok,"parse_line of "<<pbt::quote(s)); if(r) R::compare(seq,got,want); }
    Vars v; CHECK(!call(seq,in,d,v),"no line is left"); CHECK(!call(seq,in,d,v),"no line is left");
  }
};
template<class TL,size_t K> struct LAt { static void go(G& g,size_t k){ if(k==K) Lines<typename TakeI<K,L<>,TL>::type>::go(g); else LAt<TL,K-1>::go(g,k); } };
template<class TL> struct LAt<TL,0> { static void go(G&,size_t){} };
FACET(lines_mixed,700){ LAt<L1,12>::go(g,1+g.below(12)); }
FACET(lines_mixed2,700){ LAt<L0,12>::go(g,1+g.below(12)); }

// Command-line arguments: a count of arguments that differs from the number of variables yields nothing,
// otherwise the number of leading valid ones.
template<class TL> struct Args;
template<class... T> struct Args<L<T...> > {
  typedef Run<L<T...> > R; typedef std::tuple<T...> Vars; enum { K=sizeof...(T) };
  template<size_t... I> static size_t call(std::index_sequence<I...>,int c,char** a,Vars& v){ return strtk::parse(c,a,std::get<I>(v)...); }
  template<size_t I> static void same1(const Vars& got,const Vars& want,size_t n){ if(I<n) R::template same1<I>(got,want); }
  template<size_t... I> static void cmp(std::index_sequence<I...>,const Vars& got,const Vars& want,size_t n){ int d[]={(same1<I>(got,want,n),0)...}; (void)d; }
  template<size_t I> static void cnt1(const std::vector<std::string>& t,size_t& n,Vars& want){ if(n!=I||I>=t.size()) return; if(Field<typename std::tuple_element<I,Vars>::type>::valid(t[I],std::get<I>(want))) ++n; }
  template<size_t... I> static size_t count(std::index_sequence<I...>,const std::vector<std::string>& t,Vars& want){ size_t n=0; int d[]={(cnt1<I>(t,n,want),0)...}; (void)d; return n; }
  static void go(G& g){
    std::vector<std::string> f; R::gen(std::make_index_sequence<K>(),g,f,g.chance(1,3)?(int)g.below(K):-1); for(auto& s:f) for(auto& c:s) if(!c) c='_';
    if(g.chance(1,6)) f.pop_back(); else if(g.chance(1,6)) f.push_back("7");
    std::vector<char*> a; for(auto& s:f) a.push_back(strdup(s.c_str())); int c=(int)a.size(); a.push_back(0);
    { std::string l; for(auto& s:f) l+=s+" "; g.show("arguments",l); } g.show("variables",(int)K); g.nt(K>1);
    Vars want,got; std::index_sequence_for<T...> seq; size_t n=c==(int)K?count(seq,f,want):0; size_t r=call(seq,c,a.data(),got);
    CHECK_EQ(r,n,"variables assigned from arguments"); cmp(seq,got,want,n); for(char* p:a) free(p);
  }
};
template<class TL,size_t K> struct AAt { static void go(G& g,size_t k){ if(k==K) Args<typename TakeI<K,L<>,TL>::type>::go(g); else AAt<TL,K-1>::go(g,k); } };
template<class TL> struct AAt<TL,0> { static void go(G&,size_t){} };
FACET(arguments,3000){ AAt<L0,9>::go(g,1+g.below(9)); }
FACET(arguments_text,3000){ AAt<L1,9>::go(g,1+g.below(9)); }
FACET(argument_sequence,3000){
  std::vector<std::string> f; size_t n=g.below(8); for(size_t i=0;i<n;++i){ std::string s=g.chance(1,6)?Field<int>::bad(g):Field<int>::gen(g); f.push_back(s); }
  std::vector<char*> a; for(auto& s:f) a.push_back(strdup(s.c_str())); a.push_back(0); { std::string l; for(auto& s:f) l+=s+" "; g.show("arguments",l); } bool brk=g.flip(); g.show("break",brk); g.nt(n>1);
  std::vector<int> want; size_t first_bad=n; for(size_t i=0;i<n;++i){ int v; if(int_field(f[i],v)) want.push_back(v); else { if(first_bad==n) first_bad=i; if(brk) break; } }
  std::vector<int> got(1,99); std::list<int> gl; size_t r=strtk::parse((int)n,a.data(),got,brk); strtk::parse((int)n,a.data(),gl,brk);
  CHECK_EQ(r,brk?first_bad:n,"arguments consumed"); std::vector<int> w(1,99); w.insert(w.end(),want.begin(),want.end()); CHECK(got==w,"values of the valid arguments, in order"); CHECK(std::vector<int>(gl.begin(),gl.end())==want,"values into a list");
  for(char* p:a) free(p);
}
// A user structure described with the parse macros.
struct Quad { int a; std::string b; double c; unsigned d; };
strtk_parse_begin(Quad)
  strtk_parse_type(a)
  strtk_parse_type(b)
  strtk_parse_type(c)
  strtk_parse_type(d)
strtk_parse_end()
FACET(user_structure,5000){
  typedef Run<L<int,std::string,double,unsigned> > R; Line l=R::make(g,1); g.show("line",l.text); g.show("delims",l.delims); g.nt();
  R::Vars want; bool ok=R::expect(std::make_index_sequence<4>(),pieces(l.text,split(l.text,Set256(l.delims),COMPRESS)),want);
  Quad q; CHECK_EQ(strtk::parse(l.text,l.delims,q),ok,"parse of a user structure"); if(ok) R::compare(std::make_index_sequence<4>(),R::Vars(q.a,q.b,q.c,q.d),want);
}
LARGE(mixed,10,20000) LARGE(mixed_text_numbers,10,20000) LARGE(strings,10,70000) LARGE(lines_mixed,5,20000) LARGE(user_structure,8,20000)
