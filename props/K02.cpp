#include "fields.hpp"
#include "strtk.hpp"
#include <tuple>
#include <utility>
#include <deque>
#include <list>
namespace pbt { const char* const property_id="K02";
const char* const rule_text="An ascending set of 1..12 column indexes (dense, sparse, with gaps) with a destination type per column, and a line whose columns mostly suit the destinations: sometimes the line is too short for the last chosen column, sometimes one chosen column is invalid, columns not chosen are arbitrary. Delimiters single or in runs, leading and trailing. Oracle: reference split with the indexed tokens read by a reference acceptor per type. Non-trivial: two or more columns chosen with a gap, or a failing line. Distinct by line, delimiters, columns, types and entry point."; }
using namespace model; using pbt::G;
typedef unsigned long long ull; typedef long long ll;
typedef std::vector<size_t> Idx;
template<class... T> struct L {};
typedef L<int,std::string,double,unsigned,char,short,ll,unsigned short,float,long,std::string,int> L0;
typedef L<std::string,int,int,double,std::string,ll,ull,std::string,short,int,double,unsigned> L1;
typedef L<ull,unsigned short,std::string,std::string,float,std::string,int,unsigned,unsigned char,double,std::string,ll> L2;
typedef L<std::string,std::string,std::string,std::string,std::string,std::string,std::string,std::string,std::string,std::string,std::string,std::string> L3;
template<size_t K,class Done,class Rest> struct TakeI;
template<class... D,class R> struct TakeI<0,L<D...>,R>{ typedef L<D...> type; };
template<size_t K,class... D,class H,class... R> struct TakeI<K,L<D...>,L<H,R...> >{ typedef typename std::conditional<K==0,TakeI<0,L<D...>,L<> >,TakeI<K-1,L<D...,H>,L<R...> > >::type::type type; };
template<class... D,class H,class... R> struct TakeI<0,L<D...>,L<H,R...> >{ typedef L<D...> type; };
template<size_t... I> static strtk::details::column_list_impl<sizeof...(I)> cols(std::index_sequence<I...>,const Idx& x,bool arr){
  if(arr){ const size_t a[sizeof...(I)]={x[I]...}; return strtk::column_list(a); }
  return strtk::column_list(x[I]...);
}
static Idx gen_columns(G& g,size_t k){
  Idx r; size_t at=g.chance(1,3)?0:g.below(3); size_t gap=g.pick<size_t>({1,1,2,2,4,9});
  for(size_t i=0;i<k;++i){ r.push_back(at); at+=1+(gap>1?g.below(gap):0); }
  return r;
}
static bool gaps(const Idx& x){ return x.back()+1!=x.size(); }
// the line's columns: gen(i) for the i-th chosen, noise elsewhere; the line stops early in one case of six
template<class F> static std::string gen_line(G& g,const Idx& x,const std::string& d,F gen){
  size_t n=x.back()+1; switch(g.below(6)){ case 0: n=g.below(n+1); break; case 1: case 2: n+=1+g.below(4); break; default: break; }
  std::string s; if(g.chance(1,12)) s+=delim_run(g,d);
  size_t c=0;
  for(size_t i=0;i<n;++i){
    if(i) s+=delim_run(g,d);
    if(c<x.size()&&x[c]==i){ s+=gen(c); ++c; } else s+=g.chance(1,3)?Field<int>::gen(g):Field<std::string>::gen(g);
  }
  if(g.chance(1,8)) s+=delim_run(g,d);
  return s;
}
template<class T> struct Init { static T v(){ return T(101); } };
template<> struct Init<std::string> { static std::string v(){ return "untouched"; } };
static Mode gen_mode(G& g,size_t& opt){ Mode m=g.flip()?PLAIN:COMPRESS; opt=opt_of(m,false); return m; }

template<class TL> struct Run;
template<class... T> struct Run<L<T...> > {
  enum { K=sizeof...(T) }; typedef std::tuple<T...> Vars; typedef std::index_sequence_for<T...> Seq;
  template<size_t... I> static bool call(std::index_sequence<I...> q,unsigned form,bool arr,const std::string& text,const std::string& d,const Idx& x,Vars& v){
    Exact e(text);
    switch(form){
      case 0: return strtk::parse_columns(e.b(),e.e(),d,cols(q,x,arr),std::get<I>(v)...);
      case 1: return strtk::parse_columns(text,d,cols(q,x,arr),std::get<I>(v)...);
      case 2: return strtk::parse_columns((const unsigned char*)e.b(),(const unsigned char*)e.e(),d,cols(q,x,arr),std::get<I>(v)...);
      case 3: return strtk::parse_columns(text.begin(),text.end(),d,cols(q,x,arr),std::get<I>(v)...);
      default: { std::vector<char> c(text.begin(),text.end()); return strtk::parse_columns(c.begin(),c.end(),d,cols(q,x,arr),std::get<I>(v)...); }
    }
  }
  template<size_t I> static std::string fieldI(G& g,bool bad){ typedef typename std::tuple_element<I,Vars>::type F; return bad?Field<F>::bad(g):Field<F>::gen(g); }
  template<size_t... I> static std::string field(std::index_sequence<I...>,G& g,size_t i,bool bad){ std::string r; int z[]={(i==I?(r=fieldI<I>(g,bad),0):0)...}; (void)z; return r; }
  template<size_t I> static void ok1(const std::vector<std::string>& t,const Idx& x,bool& ok,Vars& want){ if(ok) ok=Field<typename std::tuple_element<I,Vars>::type>::valid(t[x[I]],std::get<I>(want)); }
  template<size_t... I> static bool expect(std::index_sequence<I...>,const std::vector<std::string>& t,const Idx& x,Vars& want){ bool ok=x.back()<t.size(); int z[]={(ok1<I>(t,x,ok,want),0)...}; (void)z; return ok; }
  template<size_t I> static void same1(const Vars& got,const Vars& want){ typedef typename std::tuple_element<I,Vars>::type F; CHECK(Field<F>::same(std::get<I>(got),std::get<I>(want)),"destination "<<I+1<<" of "<<K<<": got "<<value_text(std::get<I>(got))<<", its column is worth "<<value_text(std::get<I>(want))); }
  template<size_t... I> static void compare(std::index_sequence<I...>,const Vars& got,const Vars& want){ int z[]={(same1<I>(got,want),0)...}; (void)z; }
  static std::string show_idx(const Idx& x){ std::string r; for(size_t i:x) r+=std::to_string(i)+" "; return r; }
  static void go(G& g){
    Idx x=gen_columns(g,K); std::string d=field_delims(g); int bad=g.chance(1,5)?(int)g.below(K):-1;
    std::string s=gen_line(g,x,d,[&](size_t i){ return field(Seq(),g,i,(int)i==bad); });
    unsigned form=(unsigned)g.below(5); bool arr=g.flip();
    g.show("line",s); g.show("delims",d); g.show("columns",show_idx(x)); g.show("form",form);
    auto t=pieces(s,split(s,Set256(d),COMPRESS)); Vars want,got; bool ok=expect(Seq(),t,x,want);
    g.nt((K>1&&gaps(x))||!ok); g.label(ok?"accepted":x.back()>=t.size()?"too short":"invalid column"); g.label("columns"+std::to_string((int)K));
    bool r=call(Seq(),form,arr,s,d,x,got); CHECK_EQ(r,ok,"parse_columns of "<<(int)K); if(ok) compare(Seq(),got,want);
  }
  // The selector fed by a split: columns that exist and convert are assigned, absent ones stay as they were.
  template<size_t I> static void init1(Vars& v){ std::get<I>(v)=Init<typename std::tuple_element<I,Vars>::type>::v(); }
  template<size_t... I> static void init(std::index_sequence<I...>,Vars& v){ int z[]={(init1<I>(v),0)...}; (void)z; }
  template<size_t I> static void sel1(const std::vector<std::string>& t,const Idx& x,const Vars& got){
    typedef typename std::tuple_element<I,Vars>::type F; F w=Init<F>::v();
    if(x[I]>=t.size()){ CHECK(Field<F>::same(std::get<I>(got),w),"destination "<<I+1<<" of an absent column became "<<value_text(std::get<I>(got))); return; }
    if(Field<F>::valid(t[x[I]],w)) CHECK(Field<F>::same(std::get<I>(got),w),"destination "<<I+1<<" of "<<K<<" selected: got "<<value_text(std::get<I>(got))<<", its column is worth "<<value_text(w));
  }
  template<size_t... I> static void sel(std::index_sequence<I...>,const std::vector<std::string>& t,const Idx& x,const Vars& got){ int z[]={(sel1<I>(t,x,got),0)...}; (void)z; }
  template<size_t... I> static void feed(std::index_sequence<I...> q,unsigned form,bool arr,size_t opt,const std::string& s,const std::string& d,const Idx& x,Vars& v){
    auto cl=cols(q,x,arr);
    switch(form){
      case 0: strtk::split(d.c_str(),s,strtk::column_selector(cl,std::get<I>(v)...),opt); break;
      default: strtk::split(strtk::multiple_char_delimiter_predicate(d),s,strtk::column_selector(cols(q,x,arr),std::get<I>(v)...),opt); break;
    }
  }
  template<size_t... I> static void loop(std::index_sequence<I...> q,bool arr,const std::vector<std::string>& t,const Idx& x,Vars& v,const std::vector<std::string>& before){
    auto cl=cols(q,x,arr); auto c=strtk::column_selector(cl,std::get<I>(v)...);
    if(!before.empty()){ for(auto& p:before){ *c=std::make_pair(p.data(),p.data()+p.size()); ++c; } c.reset(); init(q,v); }
    for(auto& p:t){ *c=std::make_pair(p.data(),p.data()+p.size()); ++c; }
  }
  static void select(G& g){
    Idx x=gen_columns(g,K); std::string d=field_delims(g); if(d[0]=='\0') d=","; int bad=g.chance(1,5)?(int)g.below(K):-1;
    std::string s=gen_line(g,x,d,[&](size_t i){ return field(Seq(),g,i,(int)i==bad); });
    size_t opt; Mode m=gen_mode(g,opt); unsigned form=(unsigned)g.below(3); bool arr=g.flip();
    g.show("line",s); g.show("delims",d); g.show("columns",show_idx(x)); g.show("form",form); g.show("option",opt);
    auto t=pieces(s,split(s,Set256(d),m)); Vars got; init(Seq(),got);
    g.nt((K>1&&gaps(x))||x.back()>=t.size()); g.label(x.back()<t.size()?"all present":"too short"); g.label("columns"+std::to_string((int)K));
    std::vector<std::string> before; if(form==2&&g.flip()){ before.resize(1+g.below(x.back()+2)); for(auto& p:before) p=g.pick({"7","","x","0"}); g.show("before",before.size()); g.label("reset"); }
    if(form==2) loop(Seq(),arr,t,x,got,before); else feed(Seq(),form,arr,opt,s,d,x,got);
    sel(Seq(),t,x,got);
  }
};
template<class TL,size_t K> struct At { static void go(G& g,size_t k){ if(k==K) Run<typename TakeI<K,L<>,TL>::type>::go(g); else At<TL,K-1>::go(g,k); }
  static void select(G& g,size_t k){ if(k==K) Run<typename TakeI<K,L<>,TL>::type>::select(g); else At<TL,K-1>::select(g,k); } };
template<class TL> struct At<TL,0> { static void go(G&,size_t){} static void select(G&,size_t){} };
FACET(typed_mixed,8000){ At<L0,12>::go(g,1+g.below(12)); }
FACET(typed_text_numbers,8000){ At<L1,12>::go(g,1+g.below(12)); }
FACET(typed_small_types,8000){ At<L2,12>::go(g,1+g.below(12)); }
FACET(texts,8000){ At<L3,12>::go(g,1+g.below(12)); }
FACET(selector_mixed,8000){ At<L1,12>::select(g,1+g.below(12)); }
FACET(selector_texts,6000){ At<L3,12>::select(g,1+g.below(12)); }

// Containers: the i-th chosen column lands in element i, further elements stay.
template<class C,size_t K> struct Seq_ {
  typedef typename C::value_type T; typedef std::make_index_sequence<K> Q;
  static void parse(G& g){
    Idx x=gen_columns(g,K); std::string d=field_delims(g); int bad=g.chance(1,5)?(int)g.below(K):-1; size_t extra=g.below(3);
    std::string s=gen_line(g,x,d,[&](size_t i){ return (int)i==bad?Field<T>::bad(g):Field<T>::gen(g); });
    unsigned form=(unsigned)g.below(3); bool arr=g.flip();
    g.show("line",s); g.show("delims",d); g.show("columns",Run<L<int> >::show_idx(x)); g.show("form",form);
    auto t=pieces(s,split(s,Set256(d),COMPRESS)); C got(K+extra,Init<T>::v()); std::vector<T> want(K+extra,Init<T>::v());
    bool ok=x.back()<t.size(); for(size_t i=0;ok&&i<K;++i) ok=Field<T>::valid(t[x[i]],want[i]);
    g.nt((K>1&&gaps(x))||!ok); g.label(ok?"accepted":x.back()>=t.size()?"too short":"invalid column"); g.label("columns"+std::to_string((int)K));
    Exact e(s); bool r;
    switch(form){ case 0: r=strtk::parse_columns(s,d,cols(Q(),x,arr),got); break; case 1: r=strtk::parse_columns(e.b(),e.e(),d,cols(Q(),x,arr),got); break; default: r=strtk::parse_columns(s.begin(),s.end(),d,cols(Q(),x,arr),got); }
    CHECK_EQ(r,ok,"parse_columns of "<<(int)K<<" into a container"); CHECK_EQ(got.size(),K+extra,"the container keeps its size");
    size_t i=0; for(auto& v:got){ if(ok||i>=K) CHECK(Field<T>::same(v,want[i]),"element "<<i<<" is "<<value_text(v)<<", expected "<<value_text(want[i])); ++i; }
  }
  static void select(G& g){
    Idx x=gen_columns(g,K); std::string d=field_delims(g); if(d[0]=='\0') d=","; int bad=g.chance(1,5)?(int)g.below(K):-1;
    std::string s=gen_line(g,x,d,[&](size_t i){ return (int)i==bad?Field<T>::bad(g):Field<T>::gen(g); });
    size_t opt; Mode m=gen_mode(g,opt); int size=(int)K+(int)g.below(4)-1; bool arr=g.flip();
    g.show("line",s); g.show("delims",d); g.show("columns",Run<L<int> >::show_idx(x)); g.show("elements",size); g.show("option",opt);
    auto t=pieces(s,split(s,Set256(d),m)); C got((size_t)size,Init<T>::v());
    g.nt((K>1&&gaps(x))||x.back()>=t.size()); g.label((size_t)size<K?"container too small":x.back()<t.size()?"all present":"too short");
    auto cl=cols(Q(),x,arr); bool threw=false;
    try { strtk::split(d.c_str(),s,strtk::column_selector<K>(cl,got),opt); } catch(const std::invalid_argument&){ threw=true; }
    CHECK_EQ(threw,(size_t)size<K,"a container smaller than the column list is refused");
    size_t i=0; for(auto& v:got){ T w=Init<T>::v(); bool judge=true; if(!threw&&i<K&&x[i]<t.size()) judge=Field<T>::valid(t[x[i]],w); if(judge) CHECK(Field<T>::same(v,w),"element "<<i<<" is "<<value_text(v)<<", expected "<<value_text(w)); ++i; }
  }
};
template<class C,size_t K> struct SeqAt { static void parse(G& g,size_t k){ if(k==K) Seq_<C,K>::parse(g); else SeqAt<C,K-1>::parse(g,k); } static void select(G& g,size_t k){ if(k==K) Seq_<C,K>::select(g); else SeqAt<C,K-1>::select(g,k); } };
template<class C> struct SeqAt<C,0> { static void parse(G&,size_t){} static void select(G&,size_t){} };
FACET(into_vector_int,4000){ SeqAt<std::vector<int>,12>::parse(g,1+g.below(12)); }
FACET(into_deque_text,4000){ SeqAt<std::deque<std::string>,12>::parse(g,1+g.below(12)); }
FACET(into_vector_double,4000){ SeqAt<std::vector<double>,12>::parse(g,1+g.below(12)); }
FACET(selector_vector_int,4000){ SeqAt<std::vector<int>,10>::select(g,1+g.below(10)); }
FACET(selector_deque_text,4000){ SeqAt<std::deque<std::string>,10>::select(g,1+g.below(10)); }
FACET(selector_list_double,4000){ SeqAt<std::list<double>,10>::select(g,1+g.below(10)); }
