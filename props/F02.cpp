#include "fields.hpp"
#include "strtk.hpp"
#include <tuple>
#include <utility>
#include <deque>
#include <list>
#include <queue>
#include <stack>
#include <unistd.h>
#include <fstream>
#include "faults.hpp"
namespace pbt { const char* const property_id="F02";
const char* const rule_text="Line texts of 0..12 lines (empty, long, with any byte but newline, last line with or without its newline) visited in full, bounded by 0..n+2 or until a predicate refuses a line, in several consecutive calls on one stream or by file name; containers written to and loaded from text; typed records of 1..12 plain values, arrays and containers written to and read from file streams and unaligned memory, in full or cut short at any byte; reads at every kind of offset and length. Oracle: a reference list of lines, the concatenated object representations, substrings. Non-trivial: two or more lines, values or bytes, or a refused call. Distinct by text, values and form."; }
using namespace model; using pbt::G;
typedef unsigned long long ull; typedef long long ll;
static void put(const std::string& f,const std::string& c){ FILE* o=fopen(f.c_str(),"wb"); CHECK(o!=0,"scratch file"); if(!c.empty()) fwrite(c.data(),1,c.size(),o); fclose(o); }
static std::string get(const std::string& f){ std::string c; FILE* i=fopen(f.c_str(),"rb"); CHECK(i!=0,"no file"); char b[65536]; size_t n; while((n=fread(b,1,sizeof b,i))>0) c.append(b,n); fclose(i); return c; }
struct Gone { std::string f; explicit Gone(const char* n):f(pbt::scratch(n)){ unlink(f.c_str()); } ~Gone(){ unlink(f.c_str()); } operator const std::string&() const { return f; } };
typedef std::vector<std::string> Lines;
static Lines lines_of(const std::string& t){ Lines r; size_t b=0; for(size_t i=0;i<t.size();++i) if(t[i]=='\n'){ r.push_back(t.substr(b,i-b)); b=i+1; } if(b<t.size()) r.push_back(t.substr(b)); return r; }
static std::string gen_line(G& g){ switch(g.below(6)){ case 0: return ""; case 1: return std::string(1000+g.below(60),'x')+g.text("ab",3); case 2: { std::string s=g.bytes(20); for(char& c:s) if(c=='\n') c='\r'; return s; } default: return g.text(std::string("abc 0\r\t\0\xff",9),12); } }
static std::string gen_text(G& g,size_t max){ std::string s; size_t n=g.len(max); if(n>2500) return g.fixed("\n\na\n",n); for(size_t i=0;i<n;++i){ s+=gen_line(g); if(i+1<n||g.flip()) s+='\n'; } return s; }
template<class A,class B> static void same_list(const A& a,const B& b,const char* w){ CHECK_EQ(a.size(),b.size(),w<<": how many"); auto i=a.begin(); auto j=b.begin(); size_t k=0; for(;i!=a.end();++i,++j,++k) CHECK(*i==*j,w<<": entry "<<k<<" is "<<pbt::S(*i)<<" instead of "<<pbt::S(*j)); }

struct Note { Lines* l; void operator()(const std::string& s){ l->push_back(s); } };
struct Until { Lines* l; size_t refuse; bool operator()(const std::string& s){ l->push_back(s); return l->size()!=refuse; } };
// Consecutive visits of one stream: each continues where the one before stopped.
template<class Src> static size_t visit(G& g,Src& src,size_t have,Lines& seen,size_t& want,size_t& count){
  size_t n=g.below(have+3),r=1+g.below(have+2); size_t bs=g.pick<size_t>({0,1,16,1024,5000}); unsigned f=(unsigned)g.below(4); bool d=g.flip();
  Note note={&seen}; Until until={&seen,r};
  switch(f){
    case 0: want=have; count=have; g.note("for_each_line"); return d?strtk::for_each_line(src,note):strtk::for_each_line(src,note,bs);
    case 1: want=count=std::min(n,have); g.note("for_each_line_n "+std::to_string(n)); return d?strtk::for_each_line_n(src,n,note):strtk::for_each_line_n(src,n,note,bs);
    case 2: want=std::min(r,have); count=r<=have?r-1:have; g.note("for_each_line_conditional refusing "+std::to_string(r)); return d?strtk::for_each_line_conditional(src,until):strtk::for_each_line_conditional(src,until,bs);
    default: { size_t m=std::min(n,have); want=std::min(r,m); count=r<=m?r-1:m; g.note("for_each_line_n_conditional "+std::to_string(n)+" refusing "+std::to_string(r)); return d?strtk::for_each_line_n_conditional(src,n,until):strtk::for_each_line_n_conditional(src,n,until,bs); }
  }
}
FACET(visits_of_a_stream,6000){
  std::string t=gen_text(g,12); g.show("text",t); Lines all=lines_of(t); g.nt(all.size()>1); std::istringstream is(t); std::ifstream fs; Gone a("lines"); bool file=g.chance(1,4); if(file){ put(a,t); fs.open(a.f.c_str(),std::ios::binary); } std::istream& s=file?(std::istream&)fs:(std::istream&)is;
  size_t at=0,calls=1+g.below(4);
  for(size_t c=0;c<calls;++c){
    Lines seen; size_t want,count; size_t r=visit(g,s,all.size()-at,seen,want,count);
    same_list(seen,Lines(all.begin()+at,all.begin()+at+want),"visited lines"); CHECK_EQ(r,count,"the reported number of lines"); at+=want;
  }
  Lines rest; strtk::for_each_line(s,Note{&rest}); same_list(rest,Lines(all.begin()+at,all.end()),"remaining lines");
}
FACET(visits_of_a_file,2500){
  std::string t=gen_text(g,12); g.show("text",t); Lines all=lines_of(t); Gone a("lines"); bool missing=g.chance(1,10); if(!missing) put(a,t); else all.clear(); g.nt(all.size()>1||missing);
  for(int c=0;c<2;++c){ Lines seen; size_t want,count; size_t r=visit(g,a.f,all.size(),seen,want,count); same_list(seen,Lines(all.begin(),all.begin()+want),"visited lines"); CHECK_EQ(r,count,"the reported number of lines"); }
}
template<class T> static void values(G& g){
  size_t n=g.below(8); std::string t; for(size_t i=0;i<n;++i){ t+=g.chance(1,6)?Field<T>::bad(g):Field<T>::gen(g); if(i+1<n||g.flip()) t+='\n'; } g.show("text",t); Lines l=lines_of(t); g.nt(l.size()>1);
  std::istringstream s(t);
  for(size_t i=0;i<l.size();++i){ T want=T(),v=T(); bool ok=Field<T>::valid(l[i],want); CHECK_EQ(strtk::read_line_as_value(s,v,g.flip()?1024:g.below(4)),ok,"read_line_as_value of line "<<i); if(ok) CHECK(Field<T>::same(v,want),"line "<<i<<" read as "<<value_text(v)); }
  T v=T(); CHECK(!strtk::read_line_as_value(s,v),"read_line_as_value beyond the last line");
}
FACET(line_values,4000){ switch(g.below(4)){ case 0: values<int>(g); break; case 1: values<std::string>(g); break; case 2: values<double>(g); break; default: values<ull>(g); } }

template<class T> static T gen_value(G& g){ return g.integer<T>(); }
template<> std::string gen_value<std::string>(G& g){ return gen_line(g); }
template<class C> static void add(C& c,const typename C::value_type& v){ c.insert(c.end(),v); }
template<class C,class D> static void text_trip(G& g){
  typedef typename C::value_type T; C c; size_t n=g.len(12); for(size_t i=0;i<n;++i) add(c,g.chance(1,4)&&!c.empty()?*c.begin():gen_value<T>(g));
  bool file=g.chance(1,3); Gone a("values"); std::ostringstream os; std::string want,plain; for(auto& v:c){ want+=value_text(v)+"\n"; plain+=value_text(v); }
  g.show("text",want); g.show("file",file); g.nt(c.size()>1);
  size_t k; std::string got; if(file){ k=strtk::write_to_text_file(a.f,c,"\n"); got=get(a); } else { k=strtk::write_to_text_file(os,c,"\n"); got=os.str(); }
  CHECK_EQ(k,c.size(),"write_to_text_file: number of values"); CHECK_EQ(got,want,"written text");
  { std::ostringstream o2; size_t k2=g.flip()?strtk::write_to_text_file(o2,c):strtk::write_to_text_file(o2,c,"; "); CHECK_EQ(k2,c.size(),"write_to_text_file, other delimiter"); std::string w2; for(auto& v:c) w2+=value_text(v)+"; "; CHECK(o2.str()==plain||o2.str()==w2,"text written with another delimiter: "<<o2.str()); }
  if(file&&g.chance(1,6)){ CHECK_EQ(strtk::write_to_text_file(pbt::scratch("none")+"/none",c,"\n"),size_t(0),"writing into a missing directory"); }
  std::multiset<T> m(c.begin(),c.end()); D d; if(file&&g.chance(1,6)){ CHECK_EQ(strtk::load_from_text_file(pbt::scratch("none"),d),size_t(0),"loading a missing file"); CHECK(d.empty(),"values of a missing file"); } if(g.chance(1,3)){ T v=gen_value<T>(g); add(d,v); m.insert(v); } size_t r; size_t bs=g.pick<size_t>({0,1,1024});
  if(file) r=strtk::load_from_text_file(a.f,d,bs); else { std::istringstream is(got); r=strtk::load_from_text_file(is,d,bs); }
  CHECK_EQ(r,c.size(),"load_from_text_file: number of lines");
  std::multiset<T> md(d.begin(),d.end()); if(std::is_same<D,std::set<T> >::value){ std::set<T> u(m.begin(),m.end()); same_list(std::vector<T>(d.begin(),d.end()),std::vector<T>(u.begin(),u.end()),"loaded set"); } else same_list(std::vector<T>(md.begin(),md.end()),std::vector<T>(m.begin(),m.end()),"loaded values");
  if(!std::is_same<D,std::set<T> >::value&&!std::is_same<D,std::multiset<T> >::value) { std::vector<T> x(c.begin(),c.end()),y(d.begin(),d.end()); y.erase(y.begin(),y.begin()+(y.size()-x.size())); same_list(y,x,"loaded values in order"); }
}
template<class T> static void text_adapters(G& g){
  std::vector<T> c; size_t n=g.len(12); std::string t; for(size_t i=0;i<n;++i){ c.push_back(gen_value<T>(g)); t+=value_text(c.back())+"\n"; } g.show("text",t); g.nt(n>1); bool file=g.chance(1,3); Gone a("values"); if(file) put(a,t);
  std::queue<T> q; std::stack<T> s; std::priority_queue<T> p; std::istringstream i1(t),i2(t),i3(t);
  CHECK_EQ(file?strtk::load_from_text_file(a.f,q):strtk::load_from_text_file(i1,q),n,"into a queue"); CHECK_EQ(q.size(),n,"queue size"); for(size_t i=0;i<n;++i){ CHECK(q.front()==c[i],"queue entry "<<i); q.pop(); }
  CHECK_EQ(file?strtk::load_from_text_file(a.f,s):strtk::load_from_text_file(i2,s),n,"into a stack"); CHECK_EQ(s.size(),n,"stack size"); for(size_t i=n;i-->0;){ CHECK(s.top()==c[i],"stack entry "<<i); s.pop(); }
  CHECK_EQ(file?strtk::load_from_text_file(a.f,p):strtk::load_from_text_file(i3,p),n,"into a priority queue"); CHECK_EQ(p.size(),n,"priority queue size"); std::sort(c.begin(),c.end()); for(size_t i=n;i-->0;){ CHECK(p.top()==c[i],"priority queue entry "<<i); p.pop(); }
  CHECK_EQ(strtk::load_from_text_file(pbt::scratch("none"),q),size_t(0),"a missing file"); CHECK_EQ(strtk::load_from_text_file(pbt::scratch("none"),s),size_t(0),"a missing file"); CHECK_EQ(strtk::load_from_text_file(pbt::scratch("none"),p),size_t(0),"a missing file"); CHECK(q.empty()&&s.empty()&&p.empty(),"values of a missing file");
  std::vector<T> v; CHECK_EQ(strtk::load_from_text_file(pbt::scratch("none"),v),size_t(0),"a missing file"); CHECK(v.empty(),"values of a missing file");
}
template<class T> static void text_any(G& g){
  switch(g.below(8)){
    case 0: text_trip<std::vector<T>,std::vector<T> >(g); break; case 1: text_trip<std::deque<T>,std::list<T> >(g); break; case 2: text_trip<std::list<T>,std::deque<T> >(g); break;
    case 3: text_trip<std::set<T>,std::vector<T> >(g); break; case 4: text_trip<std::multiset<T>,std::multiset<T> >(g); break; case 5: text_trip<std::vector<T>,std::set<T> >(g); break; case 6: text_trip<std::vector<T>,std::multiset<T> >(g); break; default: text_adapters<T>(g);
  }
}
FACET(text_round_trip,4000){ switch(g.below(4)){ case 0: text_any<int>(g); break; case 1: text_any<std::string>(g); break; case 2: text_any<ull>(g); break; default: text_any<short>(g); } }
FACET(text_with_an_invalid_line,1500){
  std::vector<int> c; size_t n=1+g.below(8),bad=g.below(n); std::string t; for(size_t i=0;i<n;++i){ std::string f=Field<int>::gen(g); int v; if(i==bad) f=g.pick<const char*>({"","x","1x","-","12 3"}); else if(i<bad){ int_field(f,v); c.push_back(v); } t+=f+"\n"; } g.show("text",t); g.nt();
  std::istringstream s(t); std::vector<int> d; bool threw=false; try { strtk::load_from_text_file(s,d); } catch(const std::invalid_argument&){ threw=true; } CHECK(threw,"an invalid line is reported"); same_list(d,c,"values before the invalid line");
}

// Plain data.
template<class... T> struct L {};
typedef L<int,char,double,short,ull,float,unsigned char,long,int,short,char,double> L0;
typedef L<unsigned char,unsigned short,ll,char,int,double,int,short,float,ull,char,unsigned> L1;
template<size_t K,class Done,class Rest> struct TakeI;
template<class... D,class R> struct TakeI<0,L<D...>,R>{ typedef L<D...> type; };
template<size_t K,class... D,class H,class... R> struct TakeI<K,L<D...>,L<H,R...> >{ typedef typename std::conditional<K==0,TakeI<0,L<D...>,L<> >,TakeI<K-1,L<D...,H>,L<R...> > >::type::type type; };
template<class... D,class H,class... R> struct TakeI<0,L<D...>,L<H,R...> >{ typedef L<D...> type; };
template<class T> static T pod_value(G& g){ return (T)g.integer<typename std::conditional<(sizeof(T)>4),ll,typename std::conditional<(sizeof(T)>2),int,typename std::conditional<(sizeof(T)>1),short,char>::type>::type>::type>(); }
template<class T> static std::string rep(const T& t){ return std::string((const char*)&t,sizeof t); }
template<class A> static std::string reps(const A& a){ std::string r; for(auto& v:a) r+=rep(v); return r; }
// One record: how to make its bytes, write it and read it back.
struct Rec { virtual ~Rec(){} std::string bytes; bool memory_only=false,stream_only=false;
  virtual bool write(std::ofstream&)=0; virtual unsigned char* write(unsigned char*)=0;
  virtual bool read(std::ifstream&)=0; virtual unsigned char* read(unsigned char*)=0;
  virtual void check(size_t avail)=0; /* what the last read delivered, from that many available bytes */ virtual std::string name()=0; };
template<class TL> struct Vals;
template<bool S,bool M> struct Arity {
  template<class... T> static bool ws(std::ofstream& o,const T&... t){ return strtk::fileio::write_pod(o,t...); }
  template<class... T> static bool rs(std::ifstream& o,T&... t){ return strtk::fileio::read_pod(o,t...); }
};
template<bool M> struct Arity<false,M> { template<class... T> static bool ws(std::ofstream&,const T&...){ return false; } template<class... T> static bool rs(std::ifstream&,T&...){ return false; } };
template<class... T> struct Vals<L<T...> >:Rec {
  enum { K=sizeof...(T) }; typedef std::tuple<T...> V; V v,got; typedef std::index_sequence_for<T...> Q; typedef Arity<(K<=10),true> Ar;
  template<size_t... I> void init(std::index_sequence<I...>,G& g){ int z[]={(std::get<I>(v)=pod_value<typename std::tuple_element<I,V>::type>(g),bytes+=rep(std::get<I>(v)),0)...}; (void)z; }
  explicit Vals(G& g){ init(Q(),g); memory_only=K>10; }
  template<size_t... I> bool ws(std::index_sequence<I...>,std::ofstream& o){ return Ar::ws(o,std::get<I>(v)...); }
  template<size_t... I> bool rs(std::index_sequence<I...>,std::ifstream& o){ return Ar::rs(o,std::get<I>(got)...); }
  template<size_t... I> unsigned char* wm(std::index_sequence<I...>,unsigned char* o){ return strtk::write_pod(o,std::get<I>(v)...); }
  template<size_t... I> unsigned char* rm(std::index_sequence<I...>,unsigned char* o){ return strtk::read_pod(o,std::get<I>(got)...); }
  bool write(std::ofstream& o){ return ws(Q(),o); } unsigned char* write(unsigned char* o){ return wm(Q(),o); }
  bool read(std::ifstream& o){ got=V(); return rs(Q(),o); } unsigned char* read(unsigned char* o){ got=V(); return rm(Q(),o); }
  template<size_t I> void chk(size_t avail,size_t& at){ typedef typename std::tuple_element<I,V>::type F; at+=sizeof(F); if(at<=avail) CHECK(rep(std::get<I>(got))==rep(std::get<I>(v)),"value "<<I+1<<" of "<<K<<" is "<<+std::get<I>(got)<<" instead of "<<+std::get<I>(v)); }
  template<size_t... I> void chks(std::index_sequence<I...>,size_t avail){ size_t at=0; int z[]={(chk<I>(avail,at),0)...}; (void)z; }
  void check(size_t avail){ chks(Q(),avail); } std::string name(){ return std::to_string((int)K)+" values"; }
};
template<class T,size_t N> struct Arr:Rec {
  T v[N],got[N]; explicit Arr(G& g){ for(auto& x:v){ x=pod_value<T>(g); bytes+=rep(x); } }
  bool write(std::ofstream& o){ const T (&c)[N]=v; return bytes.size()&1?strtk::fileio::write_pod(o,v):strtk::fileio::write_pod(o,c); } unsigned char* write(unsigned char* o){ return strtk::write_pod(o,v); }
  bool read(std::ifstream& o){ memset((void*)got,0,sizeof got); return strtk::fileio::read_pod(o,got); } unsigned char* read(unsigned char* o){ return strtk::read_pod(o,got); }
  void check(size_t avail){ if(avail>=sizeof v) CHECK(!memcmp(v,got,sizeof v),"an array of "<<N<<" differs"); } std::string name(){ return "array of "+std::to_string(N); }
};
template<class C> struct Con:Rec {
  typedef typename C::value_type T; C v,got; size_t n; bool lv; std::vector<T> had;
  explicit Con(G& g){ size_t k=g.len(9); for(size_t i=0;i<k;++i) add(v,g.chance(1,4)&&!v.empty()?*v.begin():pod_value<T>(g)); n=v.size(); bytes=reps(v); lv=g.flip(); size_t h=g.chance(1,3)?1+g.below(2):0; while(had.size()<h) had.push_back(pod_value<T>(g)); }
  void fresh(){ got.clear(); for(auto& x:had) add(got,x); }
  bool write(std::ofstream& o){ return strtk::fileio::write_pod(o,v); } unsigned char* write(unsigned char* o){ return strtk::write_pod(o,v); }
  bool read(std::ifstream& o){ fresh(); const size_t m=n; return lv?strtk::fileio::read_pod(o,m,got):strtk::fileio::read_pod(o,v.size(),got); } unsigned char* read(unsigned char* o){ fresh(); const size_t m=n; size_t k=n; return lv?strtk::read_pod(o,k,got):strtk::read_pod(o,m,got); }
  void check(size_t avail){ size_t m=std::min(n,avail/sizeof(T)); C w; for(auto& x:had) add(w,x); size_t i=0; for(auto& x:v){ if(i++==m) break; add(w,x); } same_list(std::vector<T>(got.begin(),got.end()),std::vector<T>(w.begin(),w.end()),"container of plain data"); }
  std::string name(){ return "container of "+std::to_string(n); }
};
template<class TL,size_t K> struct Pick { static Rec* make(G& g,size_t k){ return k==K?new Vals<typename TakeI<K,L<>,TL>::type>(g):Pick<TL,K-1>::make(g,k); } };
template<class TL> struct Pick<TL,0> { static Rec* make(G&,size_t){ return 0; } };
static Rec* gen_rec(G& g,size_t maxk){
  switch(g.below(6)){
    case 0: case 1: return Pick<L0,12>::make(g,1+g.below(maxk)); case 2: return Pick<L1,12>::make(g,1+g.below(maxk));
    case 3: switch(g.below(5)){ case 0: return new Arr<int,1>(g); case 1: return new Arr<char,7>(g); case 2: return new Arr<double,3>(g); case 3: return new Arr<short,16>(g); default: return new Arr<ull,5>(g); }
    default: switch(g.below(6)){ case 0: return new Con<std::vector<int> >(g); case 1: return new Con<std::deque<short> >(g); case 2: return new Con<std::list<double> >(g); case 3: return new Con<std::set<ll> >(g); case 4: return new Con<std::multiset<unsigned short> >(g); default: return new Con<std::vector<char> >(g); }
  }
}
struct Recs { std::vector<Rec*> v; ~Recs(){ for(auto p:v) delete p; } };
static std::string gen_recs(G& g,Recs& r,size_t maxk){ size_t n=1+g.len(5); std::string names,all; for(size_t i=0;i<n;++i){ r.v.push_back(gen_rec(g,maxk)); names+=r.v.back()->name()+"; "; all+=r.v.back()->bytes; } g.show("records",names); g.show("bytes",all); g.nt(all.size()>1); return all; }
FACET(plain_data_file,2500){
  Recs r; std::string all=gen_recs(g,r,10); Gone a("pod");
  { std::ofstream o(a.f.c_str(),std::ios::binary); for(auto p:r.v) CHECK(p->write(o),"write_pod of "<<p->name()); }
  CHECK(get(a)==all,"the written bytes differ from the values written");
  size_t cut=all.size(); if(g.chance(1,2)){ cut=g.below(all.size()+1); put(a,all.substr(0,cut)); g.show("cut to",cut); }
  std::ifstream i(a.f.c_str(),std::ios::binary); size_t at=0;
  for(auto p:r.v){ size_t avail=cut-std::min(cut,at),need=p->bytes.size(); bool ok=need<=avail; CHECK_EQ(p->read(i),ok,"read_pod of "<<p->name()<<" with "<<avail<<" bytes left"); p->check(avail); at+=need; if(!ok){ g.label("cut short"); return; } }
  char c; if(cut==all.size()) CHECK(!strtk::fileio::read_pod(i,c),"read_pod at the end of the file");
}
FACET(plain_data_memory,5000){
  Recs r; std::string all=gen_recs(g,r,12); size_t skew=g.below(8); std::string buf(skew+all.size()+8,'\x5a'); std::vector<unsigned char> b(buf.begin(),buf.end()); unsigned char* p=&b[skew]; g.show("offset",skew);
  for(auto q:r.v){ unsigned char* e=q->write(p); CHECK_EQ((size_t)(e-p),q->bytes.size(),"write_pod of "<<q->name()<<" advances"); p=e; }
  buf.replace(skew,all.size(),all); CHECK(std::string(b.begin(),b.end())==buf,"the written bytes differ from the values written");
  p=&b[skew]; for(auto q:r.v){ unsigned char* e=q->read(p); CHECK_EQ((size_t)(e-p),q->bytes.size(),"read_pod of "<<q->name()<<" advances"); q->check(q->bytes.size()); p=e; }
  CHECK(std::string(b.begin(),b.end())==buf,"reading changed the bytes");
}
FACET(reads_at_offsets,3000){
  std::string c=g.bytes(60); if(g.chance(1,5)) c+=std::string(g.pick<size_t>({4096,8191,8192,20000}),'q')+g.bytes(8); Gone a("off"); put(a,c); g.show("content",c); std::ifstream s(a.f.c_str(),std::ios::binary); size_t k=1+g.below(4);
  for(size_t i=0;i<k;++i){
    size_t off=g.chance(1,4)?c.size()-g.below(std::min<size_t>(c.size(),4)+1):g.below(c.size()+4),n=1+g.below(g.chance(1,3)?c.size()+2:12); unsigned f=(unsigned)g.below(3); bool ok=off+n<=c.size(); g.note("offset "+std::to_string(off)+" length "+std::to_string(n)+" form "+std::to_string(f)); g.nt(); g.label(ok?"inside":"beyond");
    std::string b(n+8,'\x5a'),str="old"; bool r;
    switch(f){ case 0: r=strtk::fileio::read_at_offset(s,off,&b[0],n); break; case 1: r=strtk::fileio::read_at_offset(a.f,off,&b[0],n); break; default: r=strtk::fileio::read_at_offset(a.f,off,str,n); }
    CHECK_EQ(r,ok,"read_at_offset "<<off<<" of "<<n<<" bytes in a file of "<<c.size()); if(ok&&f==2) CHECK(str==c.substr(off,n),"text read at "<<off); if(ok&&f<2) CHECK(b.substr(0,n)==c.substr(off,n),"bytes read at "<<off); CHECK(b.substr(n)==std::string(8,'\x5a'),"bytes after the buffer were written");
    if(f==0&&!ok) break;
  }
  std::string str; char b[4]; CHECK(!strtk::fileio::read_at_offset(pbt::scratch("none"),0,str,1),"a missing file"); CHECK(!strtk::fileio::read_at_offset(pbt::scratch("none"),0,b,1),"a missing file"); 
}

LARGE1(visits_of_a_stream,24,70000) LARGE1(visits_of_a_file,24,70000) LARGE1(text_round_trip,8,5000)
// A file that stops being readable at byte k: the complete lines before it are visited (or loaded), no other; the first
// record that is not wholly before it is reported. Reads that arrive in small pieces change nothing.
FACET(interrupted_lines,2500){
  std::string t=gen_text(g,12); if(g.chance(1,8)) t+=std::string(8000+g.below(400),'l')+"\nlast\n"+gen_text(g,3); Gone a("cut"); put(a,t); bool fault=!t.empty()&&g.chance(3,4); size_t k=fault?g.below(t.size()):0,n=1+g.below(5); g.show("text",t); if(fault) g.show("fails at",k); else g.show("per read",n); g.label(fault?"fault":"short reads"); 
  Lines all=lines_of(fault?t.substr(0,k):t); if(fault&&!(k&&t[k-1]=='\n')&&!all.empty()) all.pop_back(); g.nt(!all.empty()); Lines seen; size_t r; bool load=g.flip(); std::vector<std::string> v;
  { faults::ReadFault f(fault?k:~0ull>>1); faults::ShortReads s(fault?0:n); r=load?strtk::load_from_text_file(a.f,v):strtk::for_each_line(a.f,Note{&seen}); }
  CHECK_EQ(r,all.size(),"the reported number of lines"); same_list(load?Lines(v.begin(),v.end()):seen,all,"lines");
}
FACET(interrupted_records,1500){
  Recs r; std::string all=gen_recs(g,r,10); Gone a("pod"); put(a,all); bool fault=!all.empty()&&g.chance(3,4); size_t k=fault?g.below(all.size()):all.size(),n=1+g.below(9); g.show("fails at",k); std::ifstream i(a.f.c_str(),std::ios::binary); size_t at=0; faults::ReadFault f(fault?k:~0ull>>1); faults::ShortReads s(fault?0:n);
  for(auto p:r.v){ size_t avail=k-std::min(k,at),need=p->bytes.size(); bool ok=need<=avail; CHECK_EQ(p->read(i),ok,"read_pod of "<<p->name()<<" with "<<avail<<" bytes readable"); p->check(avail); at+=need; if(!ok) return; }
}
// A stream that takes no more after k bytes, or none at all: the records that fit are reported as written, no other is.
FACET(refused_writes,2000){
  Recs r; std::string all=gen_recs(g,r,10); Gone a("pod"); unsigned how=(unsigned)g.below(3); size_t k=how==0?0:g.below(all.size()+1); g.show("how",how); g.show("takes",k); std::ofstream o; char none[1]; (void)none;
  if(how){ o.rdbuf()->pubsetbuf(0,0); o.open(a.f.c_str(),std::ios::binary); } size_t at=0; bool bad=false;
  if(how==1) k=all.size();
  faults::WriteLimit w(how==2?k:~0ull>>1);
  for(auto p:r.v){ at+=p->bytes.size(); if(p->bytes.empty()){ CHECK(p->write(o),"write_pod of no values"); continue; } if(at>k) bad=true; CHECK_EQ(p->write(o),!bad,"write_pod of "<<p->name()<<" to a stream that takes "<<k<<" bytes"); }
  g.nt(bad&&r.v.size()>1);
}
