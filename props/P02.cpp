#include "fields.hpp"
#include "strtk.hpp"
#include <list>
#include <deque>
#include <queue>
#include <stack>
#include <fstream>
#include <unistd.h>
namespace pbt { const char* const property_id="P02";
const char* const rule_text="A text of generated tokens (mostly valid for the element type) separated by single delimiters or runs, a split option, an entry point (range, pair, string, bounded, plain array, line of a file, sub-delimited field, variables followed by a container), a container kind and prior content. Oracle: reference split, reference acceptor per element type, and the container's own order. Non-trivial: two or more tokens. Distinct by text, delimiters, container, options and entry."; }
using namespace model; using pbt::G;
// Prior content plus values v in arrival order, as the container kind presents them when drained.
template<class C> struct Box;
template<class T> struct SeqBox { static std::vector<T> order(std::vector<T> v){ return v; } };
template<class T> struct SortBox { static std::vector<T> order(std::vector<T> v){ std::sort(v.begin(),v.end()); return v; } };
template<class T> struct Box<std::vector<T> >:SeqBox<T>{ static void put(std::vector<T>& c,const T& v){ c.push_back(v); } static std::vector<T> drain(std::vector<T> c){ return c; } enum { uniq=0 }; };
template<class T> struct Box<std::deque<T> >:SeqBox<T>{ static void put(std::deque<T>& c,const T& v){ c.push_back(v); } static std::vector<T> drain(std::deque<T> c){ return std::vector<T>(c.begin(),c.end()); } enum { uniq=0 }; };
template<class T> struct Box<std::list<T> >:SeqBox<T>{ static void put(std::list<T>& c,const T& v){ c.push_back(v); } static std::vector<T> drain(std::list<T> c){ return std::vector<T>(c.begin(),c.end()); } enum { uniq=0 }; };
template<class T> struct Box<std::queue<T> >:SeqBox<T>{ static void put(std::queue<T>& c,const T& v){ c.push(v); } static std::vector<T> drain(std::queue<T> c){ std::vector<T> r; while(!c.empty()){ r.push_back(c.front()); c.pop(); } return r; } enum { uniq=0 }; };
template<class T> struct Box<std::stack<T> >:SeqBox<T>{ static void put(std::stack<T>& c,const T& v){ c.push(v); } static std::vector<T> drain(std::stack<T> c){ std::vector<T> r; while(!c.empty()){ r.insert(r.begin(),c.top()); c.pop(); } return r; } enum { uniq=0 }; };
template<class T> struct Box<std::priority_queue<T> >:SortBox<T>{ static void put(std::priority_queue<T>& c,const T& v){ c.push(v); } static std::vector<T> drain(std::priority_queue<T> c){ std::vector<T> r; while(!c.empty()){ r.insert(r.begin(),c.top()); c.pop(); } return r; } enum { uniq=0 }; };
template<class T> struct Box<std::multiset<T> >:SortBox<T>{ static void put(std::multiset<T>& c,const T& v){ c.insert(v); } static std::vector<T> drain(std::multiset<T> c){ return std::vector<T>(c.begin(),c.end()); } enum { uniq=0 }; };
template<class T> struct Box<std::set<T> >{ static std::vector<T> order(std::vector<T> v){ std::sort(v.begin(),v.end()); v.erase(std::unique(v.begin(),v.end()),v.end()); return v; } static void put(std::set<T>& c,const T& v){ c.insert(v); } static std::vector<T> drain(std::set<T> c){ return std::vector<T>(c.begin(),c.end()); } enum { uniq=1 }; };

template<class T> static T same_val(const T& v){ return v; }
struct In { std::string text,delims; Mode mode; bool alt; std::vector<std::string> tokens; };
template<class T> static std::string gen_list(G& g,const std::string& d,size_t maxn,bool runs=true,unsigned badness=12){
  size_t n=g.len(maxn); std::string s; if(n>100&&g.flip()) badness=1u<<30; if(runs&&g.chance(1,12)) s+=delim_run(g,d);
  for(size_t i=0;i<n;++i){ if(i) s+=runs?delim_run(g,d):std::string(1,d[g.below(d.size())]); if(badness>>30==0&&g.chance(1,badness)) s+=Field<T>::bad(g); else if(g.chance(1,5)&&!s.empty()) s+="7"; else s+=Field<T>::gen(g); }
  if(runs&&g.chance(1,12)) s+=delim_run(g,d); return s;
}
template<class T> static In input(G& g,size_t maxn=10,bool opts=true){
  In in; in.delims=field_delims(g); in.alt=g.flip(); in.mode=opts&&g.chance(1,3)?g.pick<Mode>({PLAIN,FIRST,FIRST_COMPRESS,ALL}):COMPRESS; in.text=gen_list<T>(g,in.delims,maxn);
  if(opts&&g.chance(1,30)) in.delims.clear();
  in.tokens=pieces(in.text,split(in.text,Set256(in.delims),in.mode));
  g.show("text",in.text); g.show("delims",in.delims); g.show("mode",(int)in.mode); g.nt(in.tokens.size()>1); return in;
}
static strtk::split_options::type so(const In& in){ return (strtk::split_options::type)opt_of(in.mode,in.alt); }
template<class T> static std::vector<T> values(const std::vector<std::string>& t,size_t from,size_t n,bool* all=0){ std::vector<T> r; if(all) *all=true; for(size_t i=from;i<t.size()&&i-from<n;++i){ T v=T(); if(Field<T>::valid(t[i],v)) r.push_back(v); else if(all) *all=false; } return r; }
template<class C,class T> static void prior(G& g,C& c,std::vector<T>& v){ size_t n=g.below(3); for(size_t i=0;i<n;++i){ T x=T(); std::string s=Field<T>::gen(g); Field<T>::valid(s,x); v.push_back(x); Box<C>::put(c,x); } }
template<class T> static bool same_all(const std::vector<T>& a,const std::vector<T>& b){ if(a.size()!=b.size()) return false; for(size_t i=0;i<a.size();++i) if(!Field<T>::same(a[i],b[i])) return false; return true; }
template<class T> static std::string list_text(const std::vector<T>& v){ std::string r="["; for(auto& x:v) r+=value_text(x)+" "; return r+"]"; }
template<class C,class T> static void check_content(const C& c,std::vector<T> old,const std::vector<T>& add,const char* what){ old.insert(old.end(),add.begin(),add.end()); auto w=Box<C>::order(old); auto got=Box<C>::drain(c); CHECK(same_all<T>(got,w),what<<": got "<<list_text(got)<<", expected "<<list_text(w)); }
// Reals near-equal under the tolerance would make set counts ambiguous, so counts of sets of reals are not judged.
template<class C,class T> static size_t grown(const std::vector<T>& old,const std::vector<T>& add){ auto a=old; a.insert(a.end(),add.begin(),add.end()); return Box<C>::order(a).size()-Box<C>::order(old).size(); }

template<class C> static void unbounded(G& g,const char* name){
  typedef typename C::value_type T; g.note(name); In in=input<T>(g); unsigned e=(unsigned)g.below(4); g.show("entry",e); C c; std::vector<T> old; prior(g,c,old);
  bool all; std::vector<T> v=values<T>(in.tokens,0,~size_t(0),&all); size_t r=0; Exact x(in.text); bool dflt=in.mode==COMPRESS&&g.flip();
  switch(e){
    case 0: r=strtk::parse(x.b(),x.e(),in.delims,c,so(in)); break;
    case 1: r=dflt?strtk::parse(in.text,in.delims,c):strtk::parse(in.text,in.delims,c,so(in)); break;
    case 2: r=strtk::parse(std::make_pair(x.b(),x.e()),in.delims,c,so(in)); break;
    default: r=strtk::parse((const unsigned char*)x.b(),(const unsigned char*)x.e(),in.delims,c,so(in));
  }
  g.label(all?"all_valid":"some_invalid"); if(all) CHECK_EQ(r,in.tokens.size(),"values reported"); check_content(c,old,v,"content");
}
template<class C> static void bounded(G& g,const char* name){
  typedef typename C::value_type T; g.note(name); In in=input<T>(g); unsigned e=(unsigned)g.below(3); size_t n=g.chance(1,8)?g.below(40):g.below(in.tokens.size()+3); g.show("entry",e); g.show("n",n); C c; std::vector<T> old; prior(g,c,old);
  std::vector<T> v=values<T>(in.tokens,0,n); size_t r=0; Exact x(in.text);
  switch(e){
    case 0: r=strtk::parse_n(x.b(),x.e(),in.delims,n,c,so(in)); break;
    case 1: r=in.mode==COMPRESS?strtk::parse_n(in.text,in.delims,n,c):strtk::parse_n(in.text,in.delims,n,c,so(in)); break;
    default: r=strtk::parse_n(std::make_pair(x.b(),x.e()),in.delims,n,c,so(in));
  }
  if(!(Box<C>::uniq&&std::is_floating_point<T>::value)) CHECK_EQ(r,(grown<C,T>(old,v)),"values reported by the bounded parse");
  check_content(c,old,v,"content of the bounded parse");
}
#define EACH(F,N) \
FACET(F##_vector_int,N){ F<std::vector<int> >(g,"vector<int>"); } FACET(F##_vector_string,N){ F<std::vector<std::string> >(g,"vector<string>"); } \
FACET(F##_deque_double,N){ F<std::deque<double> >(g,"deque<double>"); } FACET(F##_list_ull,N){ F<std::list<unsigned long long> >(g,"list<ull>"); } \
FACET(F##_set_int,N){ F<std::set<int> >(g,"set<int>"); } FACET(F##_multiset_string,N){ F<std::multiset<std::string> >(g,"multiset<string>"); } \
FACET(F##_queue_short,N){ F<std::queue<short> >(g,"queue<short>"); } FACET(F##_stack_string,N){ F<std::stack<std::string> >(g,"stack<string>"); } \
FACET(F##_priority_queue_int,N){ F<std::priority_queue<int> >(g,"priority_queue<int>"); }
EACH(unbounded,1800)
EACH(bounded,1800)

template<class T> static void array(G& g,const char* name){
  g.note(name); In in=input<T>(g); size_t n=g.below(in.tokens.size()+3); g.show("n",n); std::vector<T> v=values<T>(in.tokens,0,n); Exact x(in.text); bool str=g.flip();
  T* out=new T[n]; size_t r=str?strtk::parse_n(in.text,in.delims,n,out,so(in)):strtk::parse_n(x.b(),x.e(),in.delims,n,out,so(in)); std::vector<T> got; if(r<=n) got.assign(out,out+r); delete[] out;
  CHECK_EQ(r,v.size(),"values delivered into the array"); CHECK(same_all(got,v),"array: got "<<list_text(got)<<", expected "<<list_text(v));
}
FACET(array_int,2500){ array<int>(g,"int"); } FACET(array_string,2500){ array<std::string>(g,"string"); } FACET(array_double,2500){ array<double>(g,"double"); }

// Lines of a file.
template<class C> static void lines(G& g,const char* name){
  typedef typename C::value_type T; g.note(name); std::string d=g.pick<const char*>({",","|;"," ,"}); size_t n=1+g.below(4); std::vector<std::string> ls; std::string f; bool nl=g.flip(); unsigned lim=(unsigned)g.below(6); bool bnd=g.flip();
  for(size_t i=0;i<n;++i){ std::string s=gen_list<T>(g,d,6); for(auto& c:s) if(c=='\n') c='_'; ls.push_back(s); f+=s; if(i+1<n||nl) f+='\n'; }
  if(!nl&&ls.back().empty()) ls.pop_back();
  g.show("file",f); g.show("delims",d); g.show("bound",bnd?(int)lim:-1); g.nt(n>1);
  std::string fn=pbt::scratch("line"); { std::ofstream o(fn.c_str(),std::ios::binary); o<<f; } std::ifstream is(fn.c_str(),std::ios::binary); unlink(fn.c_str());
  for(auto& s:ls){ C c; std::vector<T> old; prior(g,c,old); auto t=pieces(s,split(s,Set256(d),COMPRESS)); bool all; std::vector<T> v=values<T>(t,0,bnd?lim:~size_t(0),&all);
    size_t r=bnd?strtk::parse_line_n(is,d,lim,c):strtk::parse_line(is,d,c);
    if(bnd) CHECK_EQ(r,(grown<C,T>(old,v)),"values reported for a line"); else if(all) CHECK_EQ(r,t.size(),"values reported for a line"); check_content(c,old,v,"content of a line"); }
  C c; CHECK_EQ(strtk::parse_line(is,d,c),size_t(0),"no line is left"); CHECK_EQ(strtk::parse_line_n(is,d,2,c),size_t(0),"no line is left (bounded)"); std::ifstream un; CHECK_EQ(strtk::parse_line(un,d,c),size_t(0),"no file"); CHECK_EQ(strtk::parse_line_n(un,d,2,c),size_t(0),"no file (bounded)"); std::ifstream miss(pbt::scratch("none").c_str()); CHECK_EQ(strtk::parse_line(miss,d,c),size_t(0),"a missing file"); CHECK_EQ(strtk::parse_line_n(miss,d,2,c),size_t(0),"a missing file (bounded)"); CHECK(c.empty(),"values of no file");
}
FACET(lines_vector,500){ lines<std::vector<int> >(g,"vector<int>"); } FACET(lines_list,300){ lines<std::list<std::string> >(g,"list<string>"); } FACET(lines_set,300){ lines<std::set<int> >(g,"set<int>"); } FACET(lines_multiset,300){ lines<std::multiset<std::string> >(g,"multiset<string>"); } FACET(lines_queue,300){ lines<std::queue<int> >(g,"queue<int>"); } FACET(lines_stack,300){ lines<std::stack<int> >(g,"stack<int>"); } FACET(lines_pq,300){ lines<std::priority_queue<int> >(g,"priority_queue<int>"); }

// Variables followed by a container taking every remaining field.
template<class C> static void mixed(G& g,const char* name){
  typedef typename C::value_type T; g.note(name); size_t k=1+g.below(11); std::string d=field_delims(g),text; int badv=g.chance(1,8)?(int)g.below(k):-1;
  std::string a[11]; for(size_t i=0;i<k;++i){ text+=(i?delim_run(g,d):std::string()); std::string f=i%2?Field<std::string>::gen(g):(int)i==badv?Field<int>::bad(g):Field<int>::gen(g); text+=f; }
  std::string rest=gen_list<T>(g,d,6,true,20); if(!rest.empty()||g.flip()) text+=delim_run(g,d)+rest; if(g.chance(1,10)) text=text.substr(0,g.below(text.size()+1));
  g.show("text",text); g.show("delims",d); g.show("variables",k); g.nt();
  auto t=pieces(text,split(text,Set256(d),COMPRESS)); bool ok=t.size()>k; int iv[11]; std::string sv[11]; for(size_t i=0;i<k&&ok;++i) if(i%2) sv[i]=t[i]; else ok=int_field(t[i],iv[i]);
  std::vector<T> v; bool all=true; if(ok) v=values<T>(t,k,~size_t(0),&all); ok=ok&&all;
  C c; std::vector<T> old; prior(g,c,old); int i1=0,i3=0,i5=0,i7=0,i9=0,i11=0; std::string s2,s4,s6,s8,s10; bool r=false;
  switch(k){
    case 1: r=strtk::parse(text,d,i1,c); break; case 2: r=strtk::parse(text,d,i1,s2,c); break; case 3: r=strtk::parse(text,d,i1,s2,i3,c); break; case 4: r=strtk::parse(text,d,i1,s2,i3,s4,c); break;
    case 5: r=strtk::parse(text,d,i1,s2,i3,s4,i5,c); break; case 6: r=strtk::parse(text,d,i1,s2,i3,s4,i5,s6,c); break; case 7: r=strtk::parse(text,d,i1,s2,i3,s4,i5,s6,i7,c); break; case 8: r=strtk::parse(text,d,i1,s2,i3,s4,i5,s6,i7,s8,c); break;
    case 9: r=strtk::parse(text,d,i1,s2,i3,s4,i5,s6,i7,s8,i9,c); break; case 10: r=strtk::parse(text,d,i1,s2,i3,s4,i5,s6,i7,s8,i9,s10,c); break; default: r=strtk::parse(text,d,i1,s2,i3,s4,i5,s6,i7,s8,i9,s10,i11,c);
  }
  CHECK_EQ(r,ok,"parse into "<<k<<" variables and a container"); g.label(ok?"accepted":"rejected");
  if(ok){ int gi[11]={i1,0,i3,0,i5,0,i7,0,i9,0,i11}; std::string gs[11]; gs[1]=s2; gs[3]=s4; gs[5]=s6; gs[7]=s8; gs[9]=s10; for(size_t i=0;i<k;++i) if(i%2) CHECK_EQ(gs[i],sv[i],"variable "<<i+1); else CHECK_EQ(gi[i],iv[i],"variable "<<i+1); check_content(c,old,v,"container after the variables"); }
}
FACET(mixed_vector,2500){ mixed<std::vector<int> >(g,"vector<int>"); } FACET(mixed_deque,1500){ mixed<std::deque<std::string> >(g,"deque<string>"); } FACET(mixed_list,1500){ mixed<std::list<double> >(g,"list<double>"); } FACET(mixed_set,1500){ mixed<std::set<int> >(g,"set<int>"); } FACET(mixed_multiset,1500){ mixed<std::multiset<int> >(g,"multiset<int>"); }
FACET(mixed_queue,1500){ mixed<std::queue<int> >(g,"queue<int>"); } FACET(mixed_stack,1500){ mixed<std::stack<std::string> >(g,"stack<string>"); } FACET(mixed_pq,1500){ mixed<std::priority_queue<int> >(g,"priority_queue<int>"); }

// A field that is itself a delimited list, parsed through a sink.
template<class C> static void sink(G& g,const char* name){
  typedef typename C::value_type T; g.note(name); std::string outer=g.pick<const char*>({"|","|!"}),inner=g.pick<const char*>({",",",;"}); unsigned form=(unsigned)g.below(5);
  size_t cnt=g.flip()?g.below(6):~size_t(0); std::string f=gen_list<T>(g,inner,6); for(char& c:f) if(c=='|'||c=='!') c='_'; std::string text="a1|"+f+"|23"; if(g.chance(1,20)) text="a1"; 
  Mode m=form!=3&&g.chance(1,4)?g.pick<Mode>({PLAIN,FIRST,FIRST_COMPRESS,ALL}):COMPRESS; strtk::split_options::type o=(strtk::split_options::type)opt_of(m,false); g.show("text",text); g.show("inner",inner); g.show("mode",(int)m); g.show("count",(long long)cnt); g.show("form",form); g.nt();
  C c; std::vector<T> old; prior(g,c,old);
  auto ot=pieces(text,split(text,Set256(outer),COMPRESS)); bool ok=ot.size()>=3&&ot[2]=="23"; std::vector<std::string> it; std::vector<T> v; bool sure=true;
  if(ot.size()>=3){ it=pieces(ot[1],split(ot[1],Set256(inner),m)); bool all; v=values<T>(it,0,cnt,&all); if(cnt==~size_t(0)){ ok=ok&&!it.empty(); sure=all; } else ok=ok&&grown<C,T>(old,v)==cnt; }
  std::string s; int i=0; bool r=false;
  typedef strtk::sink_type<C> Sk;
  switch(form){
    case 0: { Sk k(c,inner,o); k.count(cnt); r=strtk::parse(text,outer,s,k,i); break; }
    case 1: { Sk k(inner,o); CHECK(!strtk::parse(text,outer,s,k,i),"an unbound sink rejects its field"); k(c,inner,o).count(cnt); r=strtk::parse(text,outer,s,k,i); break; }
    case 2: { Sk k("#"); r=strtk::parse(text,outer,s,k(c,inner,o).count(cnt),i); break; }
    case 3: { if(cnt!=~size_t(0)){ Sk k(inner); r=strtk::parse(text,outer,s,k(c).count(cnt),i); } else { Sk k(c,inner); r=strtk::parse(text,outer,s,k,i); } break; }
    default: { Sk k(inner,o); k.count(3); k(c,inner,o).count(); k.count(cnt); Sk k2(k); r=strtk::parse(text,outer,s,k2.reference(),i); }
  }
  if(sure) CHECK_EQ(r,ok,"parse with a sink field"); if(ot.size()>=3) check_content(c,old,v,"content through the sink"); if(r){ CHECK_EQ(s,std::string("a1"),"field before"); CHECK_EQ(i,23,"field after"); }
}
FACET(sink_vector,2000){ sink<std::vector<int> >(g,"vector<int>"); } FACET(sink_deque,1200){ sink<std::deque<std::string> >(g,"deque<string>"); } FACET(sink_list,1200){ sink<std::list<int> >(g,"list<int>"); } FACET(sink_set,1200){ sink<std::set<int> >(g,"set<int>"); } FACET(sink_multiset,1200){ sink<std::multiset<int> >(g,"multiset<int>"); } FACET(sink_queue,1200){ sink<std::queue<int> >(g,"queue<int>"); } FACET(sink_stack,1200){ sink<std::stack<int> >(g,"stack<int>"); } FACET(sink_pq,1200){ sink<std::priority_queue<int> >(g,"priority_queue<int>"); }

// The inserters that parsing is built on, driven directly: every way to hand a token over converts it, in order, and leaves invalid ones out.
template<class T,class Put> static std::vector<T> feed(G& g,Put put){
  std::vector<T> want; size_t n=g.len(12); bool skipped=false;
  for(size_t i=0;i<n;++i){ std::string f=g.chance(1,4)?Field<T>::bad(g):Field<T>::gen(g); T v=T(); bool ok=Field<T>::valid(f,v); unsigned form=(unsigned)g.below(5); g.note(std::to_string(form)+":"+pbt::quote(f)); put(form,f,ok); if(ok) want.push_back(v); else skipped=true; }
  g.nt(skipped&&!want.empty()); return want;
}
template<class C> static void back_inserting(G& g,const char* name){
  typedef typename C::value_type T; g.note(name); C c; std::vector<T> old; prior(g,c,old); auto it=strtk::range_to_type_back_inserter(c);
  std::vector<T> w=feed<T>(g,[&](unsigned form,const std::string& f,bool ok){ Exact x(f); switch(form){ case 0: *it=f; ++it; break; case 1: *it++=std::make_pair(x.b(),x.e()); break; case 2: it(std::make_pair(x.b(),x.e())); break; case 3: { auto jt=it; *jt=std::make_pair(f.begin(),f.end()); ++jt; it=jt; break; } default: { bool threw=false; try { it(x.b(),x.e()); } catch(const std::invalid_argument&){ threw=true; } CHECK_EQ(threw,!ok,"an invalid token handed over as two iterators is refused"); } } });
  check_content(c,old,w,"content");
}
FACET(back_inserter_vector_int,1500){ back_inserting<std::vector<int> >(g,"vector<int>"); } FACET(back_inserter_deque_double,1000){ back_inserting<std::deque<double> >(g,"deque<double>"); } FACET(back_inserter_list_ushort,1000){ back_inserting<std::list<unsigned short> >(g,"list<ushort>"); }
// Copies and assignments of the inserters: one delivers to the destination of the iterator it was made from, and destinations change by deliveries only.
template<class It,class Read> static void following(G& g,It a,It b,Read read,const std::function<void(It&,int)>& put,bool unique=false,bool counts=false){
  std::vector<It> it; it.push_back(a); it.push_back(b); std::vector<int> to; to.push_back(0); to.push_back(1); std::vector<int> w[2]={read(0),read(1)}; size_t n=1+g.len(12),moved=0;
  for(size_t i=0;i<n;++i){ size_t k=g.below(it.size()); switch(g.below(4)){ case 0: { size_t j=g.below(it.size()); g.note(pbt::S(j)+"="+pbt::S(k)); it[j]=it[k]; moved+=to[j]!=to[k]; to[j]=to[k]; break; } case 1: if(it.size()<5){ g.note("copy "+pbt::S(k)); It c(it[k]); it.push_back(c); to.push_back(to[k]); } break;
      default: { int v=counts?0:(int)g.range(-50,50); g.note(pbt::S(k)+"<-"+pbt::S(v)); put(it[k],v); std::vector<int>& t=w[to[k]]; if(!unique||std::find(t.begin(),t.end(),v)==t.end()) t.push_back(v); } }
    for(int d=0;d<2;++d){ std::vector<int> h=read(d),x=w[d]; if(unique){ std::sort(h.begin(),h.end()); std::sort(x.begin(),x.end()); } CHECK_EQ(h,x,"destination "<<d); } }
  g.nt(moved>0);
}
template<class It> static void put_text(It& it,int v){ std::string s=std::to_string(v); *it=std::make_pair(s.data(),s.data()+s.size()); ++it; }
template<class It> static void put_value(It& it,int v){ *it=v; ++it; }
template<class It> static void put_any(It& it,const int& v){ *it++=v; }
static std::vector<int> drain(std::queue<int> q){ std::vector<int> o; while(!q.empty()){ o.push_back(q.front()); q.pop(); } return o; }
FACET(assigned_inserters,6000){
  std::vector<int> v[2]; std::set<int> s[2]; std::queue<int> q[2]; for(int d=0;d<2;++d) for(size_t n=g.below(4);n;--n){ int x=(int)g.range(-50,50); v[d].push_back(x); s[d].insert(x); q[d].push(x); } int kind=(int)g.below(8); g.show("kind",kind);
  auto rv=[&](int d){ return v[d]; }; auto rs=[&](int d){ return std::vector<int>(s[d].begin(),s[d].end()); }; auto rq=[&](int d){ return drain(q[d]); };
  switch(kind){
    case 0: { typedef strtk::range_to_type_back_inserter_iterator<std::vector<int> > I; following<I>(g,I(v[0]),I(v[1]),rv,put_text<I>); break; }
    case 1: { typedef strtk::range_to_type_inserter_iterator<std::set<int> > I; following<I>(g,I(s[0]),I(s[1]),rs,put_text<I>,true); break; }
    case 2: { typedef strtk::range_to_type_push_inserter_iterator<std::queue<int> > I; following<I>(g,I(q[0]),I(q[1]),rq,put_text<I>); break; }
    case 3: { typedef strtk::back_inserter_with_valuetype_iterator<std::vector<int> > I; following<I>(g,I(v[0]),I(v[1]),rv,put_any<I>); break; }
    case 4: { typedef strtk::inserter_with_valuetype_iterator<std::set<int> > I; following<I>(g,I(s[0]),I(s[1]),rs,put_value<I>,true); break; }
    case 5: { typedef strtk::push_inserter_iterator<std::queue<int> > I; following<I>(g,I(q[0]),I(q[1]),rq,put_value<I>); break; }
    case 6: { size_t c[2]={g.below(9),g.below(9)}; typedef strtk::counting_back_inserter_iterator<int> I; size_t b[2]={c[0],c[1]}; // the counters read as that many zeros
      following<I>(g,I(c[0]),I(c[1]),[&](int d){ std::vector<int> o; for(size_t i=b[d];i<c[d]&&i<b[d]+99;++i) o.push_back(0); if(c[d]<b[d]) o.push_back(-1); return o; },[](I& it,int){ *it++=7; },false,true); break; }
    default: { int m[2][64]; size_t c[2]={0,0}; typedef strtk::range_to_ptr_type_iterator<int> I; std::unique_ptr<I> a(new I(strtk::range_to_ptr_type(m[0],c[0]))),b(new I(strtk::range_to_ptr_type(m[1],c[1]))); size_t n=1+g.below(8); int who=g.flip(); // written in turn, then continued through an assigned iterator
      std::vector<int> w[2]; for(size_t i=0;i<n;++i){ int d=(int)g.below(2),x=(int)g.range(-50,50); put_text(d?*b:*a,x); w[d].push_back(x); } I& from=who?*b:*a; I& to=who?*a:*b; to=from; size_t k=1+g.below(8); for(size_t i=0;i<k;++i){ int x=(int)g.range(-50,50); put_text(to,x); w[who].push_back(x); }
      for(int d=0;d<2;++d){ CHECK_EQ(c[d],w[d].size(),"values counted at destination "<<d); CHECK_EQ(std::vector<int>(m[d],m[d]+std::min<size_t>(c[d],64)),w[d],"values at destination "<<d); } g.nt(true); } }
}
FACET(set_and_push_inserters,2500){
  std::set<int> c; std::queue<int> q; std::priority_queue<int> pq; auto i1=strtk::range_to_type_inserter(c); auto i2=strtk::range_to_type_push_inserter(q); auto i3=strtk::range_to_type_push_inserter(pq); std::vector<int> none;
  std::vector<int> w=feed<int>(g,[&](unsigned form,const std::string& f,bool){ Exact x(f); auto r=std::make_pair(x.b(),x.e()); switch(form){ case 0: *i1=r; ++i1; *i2=r; ++i2; *i3=r; ++i3; break; case 1: *i1++=r; *i2++=r; *i3++=r; break; case 2: i1(r); i2(r); i3(r); break; default: { auto j1=i1; auto j2=i2; auto j3=i3; *j1=r; *j2=r; *j3=r; i1=j1; i2=j2; i3=j3; } } });
  check_content(c,none,w,"set"); check_content(q,none,w,"queue"); check_content(pq,none,w,"priority queue");
}
template<class T> static void to_pointer(G& g,const char* name){
  g.note(name); T a[16]; for(int i=0;i<16;++i) a[i]=T(); size_t count=0,before=g.below(5); count=before; auto it=strtk::range_to_ptr_type(a,count);
  std::vector<T> w=feed<T>(g,[&](unsigned form,const std::string& f,bool ok){ Exact x(f); auto r=std::make_pair(x.b(),x.e()); switch(form){ case 0: *it=f; ++it; break; case 1: *it++=r; break; case 2: { auto jt=it; *jt=r; it=jt; break; } case 3: { auto o=strtk::range_to_ptr_type(a+1); o=it; *it=r; break; } default: { bool threw=false; try { it(x.b(),x.e()); } catch(const std::invalid_argument&){ threw=true; } CHECK_EQ(threw,!ok,"refused"); } } });
  CHECK_EQ(count,before+w.size(),"insert count"); CHECK(same_all<T>(std::vector<T>(a,a+w.size()),w),"array content"); for(size_t i=w.size();i<16;++i) CHECK(Field<T>::same(a[i],T()),"beyond the values");
}
FACET(to_pointer_int,1500){ to_pointer<int>(g,"int"); } FACET(to_pointer_string,800){ to_pointer<std::string>(g,"string"); } FACET(to_pointer_double,800){ to_pointer<double>(g,"double"); }
LARGE1(unbounded_vector_int,10,20000) LARGE1(unbounded_vector_string,8,5000) LARGE1(unbounded_deque_double,6,5000) LARGE1(unbounded_list_ull,6,5000) LARGE1(unbounded_set_int,6,5000) LARGE1(unbounded_multiset_string,5,3000) LARGE1(unbounded_queue_short,5,5000) LARGE1(unbounded_stack_string,4,1500) LARGE1(unbounded_priority_queue_int,4,5000)
LARGE1(bounded_vector_int,10,20000) LARGE1(bounded_vector_string,8,5000) LARGE1(bounded_deque_double,6,5000) LARGE1(bounded_list_ull,6,5000) LARGE1(bounded_set_int,6,5000) LARGE1(bounded_multiset_string,5,3000) LARGE1(bounded_queue_short,5,5000) LARGE1(bounded_stack_string,4,1500) LARGE1(bounded_priority_queue_int,4,5000)
LARGE1(array_int,10,20000) LARGE1(array_string,5,5000) LARGE1(lines_vector,5,5000) LARGE1(mixed_vector,6,5000) LARGE1(mixed_deque,5,3000) LARGE1(sink_vector,6,5000) LARGE1(sink_list,5,5000) LARGE1(sink_set,5,3000) LARGE1(back_inserter_vector_int,5,3000) LARGE1(set_and_push_inserters,5,3000)
