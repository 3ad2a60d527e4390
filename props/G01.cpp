#include "gridmodel.hpp"
#include <fstream>
#include "faults.hpp"
namespace pbt { const char* const property_id="G01";
const char* const rule_text="A text of rows (ragged, empty, delimiter-only, with quoted tokens and unbalanced quotes) over generated row and column delimiters and options, loaded from a buffer, string or file through every constructor or load, then observed completely; or rows of typed fields read through every typed accessor, in and out of range; or a history of successful and failing loads. Oracle: the list-of-lists table of a reference split and reference acceptors per type. Non-trivial: at least two rows and four tokens. Distinct by text, options and entry."; }
using namespace model; using pbt::G;
static std::string fname(const char* n="a"){ return pbt::scratch(n); }
struct File { std::string f; File(const std::string& n,const std::string& c):f(n){ std::ofstream o(f.c_str(),std::ios::binary|std::ios::trunc); o<<c; } ~File(){ unlink(f.c_str()); } };
static size_t tokens(const Table& t){ size_t n=0; for(auto& r:t) n+=r.size(); return n; }
static void nt(G& g,const Table& t){ g.nt(t.size()>1&&tokens(t)>3); }

FACET(content,4000){
  GridCfg c=grid_cfg(g); std::string s=grid_text(g,c,10,c.dq||g.chance(1,10)); unsigned e=(unsigned)g.below(9);
  if(e>=5){ c.mode=COMPRESS; c.alt=false; c.dq=false; }
  g.show("text",s); g.show("rd",c.rd); g.show("cd",c.cd); g.show("mode",(int)c.mode); g.show("dq",c.dq); g.show("trim",c.trim); g.show("entry",e);
  Table t=table_of(s,c); nt(g,t); g.label("entry"+std::to_string(e)); Exact x(s); std::unique_ptr<Grid> p; std::unique_ptr<File> f; bool file=e==3||e==4||e==8;
  if(file) f.reset(new File(fname(),s));
  switch(e){
    case 0: p.reset(new Grid(x.b(),x.n,c.opt())); break;
    case 1: p.reset(new Grid((const unsigned char*)x.b(),x.n,c.opt())); break;
    case 2: { p.reset(new Grid(s,s.size(),c.opt())); break; }
    case 3: p.reset(new Grid(fname(),c.opt())); break;
    case 4: p.reset(new Grid()); CHECK_EQ(p->load(fname(),c.opt()),!s.empty(),"load(file)"); break;
    case 5: p.reset(new Grid(x.b(),x.n,c.cd,c.rd)); break;
    case 6: p.reset(new Grid((const unsigned char*)x.b(),x.n,c.cd,c.rd)); break;
    case 7: p.reset(new Grid(s,s.size(),c.cd,c.rd)); break;
    default: p.reset(new Grid(fname(),c.cd,c.rd));
  }
  f.reset(); bool bad=file&&s.empty(); CHECK_EQ(!*p,bad,"state"); if(file&&(e!=4||!bad)) CHECK_EQ(p->source_file(),fname(),"source file"); else CHECK_EQ(p->source_file(),std::string(),"no source file");
  observe(*p,t,"loaded");
}
FACET(setters,500){
  GridCfg c=grid_cfg(g); std::string s=grid_text(g,c,6,c.dq); g.show("text",s); g.show("rd",c.rd); g.show("cd",c.cd); g.show("mode",(int)c.mode);
  Grid::options o=Grid::default_options(); CHECK(o.row_delimiters=="\n\r"&&o.column_delimiters==",|;\t "&&!o.support_dquotes,"default options");
  o.set_row_delimiters(c.rd).set_column_delimiters(c.cd).set_column_split_option((strtk::split_options::type)opt_of(c.mode,c.alt)).set_row_split_option(strtk::split_options::compress_delimiters); o.support_dquotes=c.dq; o.trim_dquotes=c.trim;
  Table t=table_of(s,c); nt(g,t); Exact x(s); Grid p(x.b(),x.n,o); observe(p,t,"loaded");
  GridCfg d; d.cd=",|;\t "; Grid q(x.b(),x.n,Grid::default_options()); observe(q,table_of(s,d),"default options");
}
// A long text: row and token positions beyond small sizes, many rows.
FACET(large,40){
  GridCfg c; c.cd=","; size_t n=200+g.below(2000); std::string s; for(size_t i=0;i<n;++i){ size_t m=1+g.below(5); for(size_t j=0;j<m;++j){ if(j) s+=','; s+=std::to_string(i*7+j); } s+='\n'; } g.show("rows",n); g.nt(); Exact x(s); Grid p(x.b(),x.n,c.opt()); Table t=table_of(s,c); CHECK(dump(p)==t,"all rows"); CHECK_EQ(p.max_column_count(),max_cols(t),"max"); CHECK_EQ(p.min_column_count(),min_cols(t),"min");
}
// Typed tables: every column has its own type, some tokens invalid, some rows short.
typedef std::string Str;
template<unsigned K> struct Col; template<> struct Col<0>{ typedef int T; }; template<> struct Col<1>{ typedef Str T; }; template<> struct Col<2>{ typedef double T; }; template<> struct Col<3>{ typedef char T; }; template<> struct Col<4>{ typedef unsigned long long T; }; template<> struct Col<5>{ typedef short T; }; template<> struct Col<6>{ typedef float T; }; template<> struct Col<7>{ typedef long long T; }; template<> struct Col<8>{ typedef unsigned int T; }; template<> struct Col<9>{ typedef Str T; };
template<unsigned K> static Str cell(G& g,unsigned badness){ typedef typename Col<K>::T T; for(int i=0;i<20;++i){ Str s=g.chance(1,badness)?Field<T>::bad(g):Field<T>::gen(g); if(s.find_first_of(std::string(",\n\r",3))==Str::npos) return s; } return "1"; }
static Str cell(G& g,unsigned k,unsigned b){ switch(k){ case 0: return cell<0>(g,b); case 1: return cell<1>(g,b); case 2: return cell<2>(g,b); case 3: return cell<3>(g,b); case 4: return cell<4>(g,b); case 5: return cell<5>(g,b); case 6: return cell<6>(g,b); case 7: return cell<7>(g,b); case 8: return cell<8>(g,b); default: return cell<9>(g,b); } }
struct Vals { int v0; Str v1; double v2; char v3; unsigned long long v4; short v5; float v6; long long v7; unsigned v8; Str v9; Vals():v0(-7),v2(-7),v3('q'),v4(77),v5(-7),v6(-7),v7(-7),v8(77){} };
template<unsigned K> static bool want(const Row& r,size_t i,const typename Col<K>::T* got){ typename Col<K>::T w=typename Col<K>::T(); if(i>=r.size()||!Field<typename Col<K>::T>::valid(r[i],w)) return false; if(got) CHECK(Field<typename Col<K>::T>::same(*got,w),"value of column "<<i<<" from "<<pbt::quote(r[i])<<": got "<<value_text(*got)); return true; }
static bool want(const Row& r,const std::vector<size_t>& ix,const Vals* v){
  bool ok=true;
  #define W(K) if(K<ix.size()) ok=want<K>(r,ix[K],v?&v->v##K:0)&&ok;
  W(0) W(1) W(2) W(3) W(4) W(5) W(6) W(7) W(8) W(9)
  #undef W
  return ok;
}
static Table typed(G& g,Str& s,std::vector<unsigned>* kinds=0){
  size_t n=1+g.len(5); s.clear(); GridCfg c; c.mode=PLAIN; unsigned b=(unsigned)g.pick<int>({40,12,100000}); (void)kinds;
  for(size_t i=0;i<n;++i){ if(i) s+='\n'; size_t m=g.chance(1,3)?1+g.below(11):10+g.below(2); size_t at=s.size(); for(size_t j=0;j<m;++j){ if(j) s+=','; s+=cell(g,(unsigned)(j%10),b); } if(s.size()==at) s+="5"; }
  return table_of(s,c);
}
#define A0 v.v0
#define A1 A0,v.v1
#define A2 A1,v.v2
#define A3 A2,v.v3
#define A4 A3,v.v4
#define A5 A4,v.v5
#define A6 A5,v.v6
#define A7 A6,v.v7
#define A8 A7,v.v8
#define A9 A8,v.v9
static bool row_parse(const Grid::row_type& r,size_t n,Vals& v){ switch(n){ case 1: return r.parse(A0); case 2: return r.parse(A1); case 3: return r.parse(A2); case 4: return r.parse(A3); case 5: return r.parse(A4); case 6: return r.parse(A5); case 7: return r.parse(A6); case 8: return r.parse(A7); case 9: return r.parse(A8); default: return r.parse(A9); } }
static bool row_index(const Grid::row_type& r,const std::vector<size_t>& i,Vals& v){ switch(i.size()){
  case 1: return r.parse_with_index(i[0],A0); case 2: return r.parse_with_index(i[0],i[1],A1); case 3: return r.parse_with_index(i[0],i[1],i[2],A2); case 4: return r.parse_with_index(i[0],i[1],i[2],i[3],A3);
  case 5: return r.parse_with_index(i[0],i[1],i[2],i[3],i[4],A4); case 6: return r.parse_with_index(i[0],i[1],i[2],i[3],i[4],i[5],A5); case 7: return r.parse_with_index(i[0],i[1],i[2],i[3],i[4],i[5],i[6],A6);
  case 8: return r.parse_with_index(i[0],i[1],i[2],i[3],i[4],i[5],i[6],i[7],A7); case 9: return r.parse_with_index(i[0],i[1],i[2],i[3],i[4],i[5],i[6],i[7],i[8],A8); default: return r.parse_with_index(i[0],i[1],i[2],i[3],i[4],i[5],i[6],i[7],i[8],i[9],A9); } }
FACET(row_values,2500){
  Str s; Table t=typed(g,s); GridCfg c; c.mode=PLAIN; g.show("text",s); nt(g,t); Exact x(s); Grid p(x.b(),x.n,c.opt()); CHECK(dump(p)==t,"content");
  for(size_t i=0;i<t.size();++i){
    size_t n=1+g.below(10); g.show("arity",n); std::vector<size_t> ix; for(size_t k=0;k<n;++k) ix.push_back(k); Vals v; bool w=want(t[i],ix,0); bool r=row_parse(p.row(i),n,v); CHECK_EQ(r,w,"parse of "<<n<<" values of row "<<i); if(r) want(t[i],ix,&v);
    size_t m=1+g.below(10); g.show("index_arity",m); std::vector<size_t> jx; bool wild=g.chance(1,4); for(size_t k=0;k<m;++k) jx.push_back(wild?g.below(13):(g.chance(1,6)?g.below(12):k)); g.show("indices",jx);
    Vals u; bool w2=want(t[i],jx,0); bool r2=row_index(p.row(i),jx,u); CHECK_EQ(r2,w2,"parse_with_index of row "<<i); if(r2) want(t[i],jx,&u); g.label(r2?"indexed_ok":"indexed_refused");
  }
  Grid::row_type none; int z=3; CHECK(!none.parse(z)&&none.size()==0&&!none.parse_with_index(0,z),"a default row has no columns");
}
template<class T> static Table uniform(G& g,Str& s,size_t maxr,size_t maxc,unsigned b){ size_t n=1+g.len(maxr),many=cycle(g,n); s.clear(); for(size_t i=0;i<n;++i){ if(i) s+='\n'; size_t m=1+g.len(maxc),wide=cycle(g,m); size_t at=s.size(); for(size_t j=0;j<m;++j){ if(j) s+=','; Str k; do k=g.chance(1,b)?Field<T>::bad(g):Field<T>::gen(g); while(k.find_first_of(Str(",\n\r"))!=Str::npos); s+=k; } if(s.size()==at) s+="5"; if(wide) repeat(s,at,",",wide); } if(many) repeat(s,0,"\n",many); GridCfg c; c.mode=PLAIN; return table_of(s,c); }
template<class T> static std::vector<T> vals(const Row& r,size_t from,size_t to,bool& all,bool stop){ std::vector<T> v; all=true; for(size_t i=from;i<to;++i){ T x=T(); if(Field<T>::valid(r[i],x)) v.push_back(x); else { all=false; if(stop) break; } } return v; }
template<class T> static bool same_all(const std::vector<T>& a,const std::vector<T>& b){ if(a.size()!=b.size()) return false; for(size_t i=0;i<a.size();++i) if(!Field<T>::same(a[i],b[i])) return false; return true; }
template<class T> static void same_vec(const std::vector<T>& a,const std::vector<T>& b,const char* w){ CHECK(same_all(a,b),w<<": "<<a.size()<<" values, expected "<<b.size()); }
template<class T> static std::vector<T> drain(std::vector<T> c){ return c; } template<class T> static std::vector<T> drain(std::deque<T> c){ return std::vector<T>(c.begin(),c.end()); } template<class T> static std::vector<T> drain(std::list<T> c){ return std::vector<T>(c.begin(),c.end()); }
template<class T> static std::vector<T> drain(std::set<T> c){ return std::vector<T>(c.begin(),c.end()); } template<class T> static std::vector<T> drain(std::multiset<T> c){ return std::vector<T>(c.begin(),c.end()); }
template<class T> static std::vector<T> drain(std::queue<T> c){ std::vector<T> r; while(!c.empty()){ r.push_back(c.front()); c.pop(); } return r; } template<class T> static std::vector<T> drain(std::stack<T> c){ std::vector<T> r; while(!c.empty()){ r.insert(r.begin(),c.top()); c.pop(); } return r; } template<class T> static std::vector<T> drain(std::priority_queue<T> c){ std::vector<T> r; while(!c.empty()){ r.insert(r.begin(),c.top()); c.pop(); } return r; }
template<class C> struct Order { template<class T> static void f(std::vector<T>&){} }; struct Sorted { template<class T> static void f(std::vector<T>& v){ std::sort(v.begin(),v.end()); } }; struct Unique { template<class T> static void f(std::vector<T>& v){ std::sort(v.begin(),v.end()); v.erase(std::unique(v.begin(),v.end()),v.end()); } };
template<class T> struct Order<std::multiset<T> >:Sorted{}; template<class T> struct Order<std::priority_queue<T> >:Sorted{}; template<class T> struct Order<std::set<T> >:Unique{};
template<class C> static void into(G& g,const char* name){
  typedef typename C::value_type T; g.note(name); Str s; Table t=uniform<T>(g,s,4,7,(unsigned)g.pick<int>({15,1000}));  GridCfg c; c.mode=PLAIN; g.show("text",s); nt(g,t); Exact x(s); Grid p(x.b(),x.n,c.opt()); size_t i=g.below(t.size()); g.show("row",i); const Row& r=t[i]; Grid::row_type row=p.row(i); bool all; std::vector<T> w;
  { C q; w=vals<T>(r,0,r.size(),all,true); Order<C>::f(w); CHECK_EQ(row.parse(q),all,"parse of the whole row"); same_vec(drain(q),w,"whole row"); }
  { size_t a=g.below(r.size()+2),b=g.below(r.size()+2); bool open=g.chance(1,4); g.show("from",a); g.show("to",open?r.size():b); const Grid::col_range_t cr=open?row.range((unsigned)a):row.range((unsigned)a,(unsigned)b); if(open) b=r.size(); C q; bool ok=row.parse(cr,q); bool valid=a<=b&&b<=r.size(); g.label(valid?"range":"bad_range"); if(!valid){ CHECK(!ok&&drain(q).empty(),"an invalid column range is refused"); } else { w=vals<T>(r,a,b,all,true); Order<C>::f(w); CHECK_EQ(ok,all,"parse of a column range"); same_vec(drain(q),w,"column range"); } }
  { C q; w=vals<T>(r,0,r.size(),all,false); Order<C>::f(w); row.parse_checked(q); same_vec(drain(q),w,"parse_checked"); }
}
FACET(row_container_vector,400){ switch(g.below(3)){ case 0: into<std::vector<int> >(g,"vector<int>"); break; case 1: into<std::vector<double> >(g,"vector<double>"); break; default: into<std::vector<Str> >(g,"vector<string>"); } }
FACET(row_container_deque,300){ into<std::deque<unsigned long long> >(g,"deque<u64>"); }
FACET(row_container_list,300){ into<std::list<short> >(g,"list<short>"); }
FACET(row_container_set,400){ if(g.flip()) into<std::set<int> >(g,"set<int>"); else into<std::set<Str> >(g,"set<string>"); }
FACET(row_container_multiset,400){ if(g.flip()) into<std::multiset<unsigned> >(g,"multiset<unsigned>"); else into<std::multiset<Str> >(g,"multiset<string>"); }
FACET(row_container_queue,300){ into<std::queue<long long> >(g,"queue<i64>"); }
FACET(row_container_stack,300){ into<std::stack<int> >(g,"stack<int>"); }
FACET(row_container_pq,300){ into<std::priority_queue<int> >(g,"priority_queue<int>"); }
template<class T> static void outs(G& g,const char* name){
  g.note(name); Str s; Table t=uniform<T>(g,s,5,6,(unsigned)g.pick<int>({10,1000,100000})); GridCfg c; c.mode=PLAIN; g.show("text",s); nt(g,t); Exact x(s); Grid p(x.b(),x.n,c.opt());
  bool all; size_t i=g.below(t.size()); const Row& r=t[i]; Grid::row_type row=p.row(i); std::vector<T> w=vals<T>(r,0,r.size(),all,true);
  { std::vector<T> q; bool threw=false; try { row.template parse<T>(pbt::slots(q)); } catch(const std::invalid_argument&){ threw=true; } CHECK_EQ(threw,!all,"an unconvertible token is refused"); same_vec(q,w,"parse to an iterator"); }
  { std::vector<T> q; row.template parse_checked<T>(pbt::slots(q)); same_vec(q,vals<T>(r,0,r.size(),all,false),"parse_checked to an iterator"); }
  { size_t n=g.below(r.size()+3); g.show("n",n); std::deque<T> q; size_t k=row.parse_n(n,q); std::vector<T> w2=vals<T>(r,0,std::min(n,r.size()),all,true); CHECK_EQ(k,all?w2.size():0,"parse_n count"); same_vec(drain(q),w2,"parse_n values"); }
  for(size_t a=0;a<t.size();++a) for(size_t b=0;b<t[a].size();++b){ T v=T(),u=T(); bool ok=Field<T>::valid(t[a][b],v),k1=true,k2=true; try { u=p.template get<T>(a,b); } catch(const std::invalid_argument&){ k1=false; } CHECK_EQ(k1,ok,"get of "<<pbt::quote(t[a][b])); if(ok) CHECK(Field<T>::same(u,v),"get value"); try { u=p.row(a).template get<T>(b); } catch(const std::invalid_argument&){ k2=false; } CHECK_EQ(k2,ok,"row get"); if(ok) CHECK(Field<T>::same(u,v),"row get value"); }
  if(std::is_arithmetic<T>::value){ bool k=true; try { p.template get<T>(t.size(),0); } catch(const std::invalid_argument&){ k=false; } CHECK(!k,"get beyond the last row is refused"); k=true; try { p.template get<T>(0,t[0].size()); } catch(const std::invalid_argument&){ k=false; } CHECK(!k,"get beyond the row is refused"); }
}
FACET(row_outputs,800){ switch(g.below(3)){ case 0: outs<int>(g,"int"); break; case 1: outs<double>(g,"double"); break; default: outs<Str>(g,"string"); } }
// A column (of the rows that have it) as text, over a row range.
template<class T> static std::vector<T> column(const Table& t,size_t a,size_t b,size_t c,size_t need,bool& all,bool stop){ std::vector<T> v; all=true; for(size_t i=a;i<b;++i) if(need<t[i].size()){ T x=T(); if(Field<T>::valid(t[i][c],x)) v.push_back(x); else { all=false; if(stop) break; } } return v; }
FACET(columns,1500){
  typedef int T; Str s; Table t=uniform<T>(g,s,8,6,(unsigned)g.pick<int>({25,100000,100000})); GridCfg c; c.mode=PLAIN; g.show("text",s); nt(g,t); Exact x(s); Grid p(x.b(),x.n,c.opt()); size_t mc=max_cols(t);
  size_t a=g.below(t.size()+1),b=g.chance(1,10)?g.below(t.size()+3):a+g.below(t.size()-a+1); bool rv=a<=b&&b<=t.size(); size_t i0=g.below(mc+2); g.show("rows",std::make_pair(a,b)); g.show("col",i0); const Grid::row_range_t rr((unsigned)a,(unsigned)b); bool valid=rv&&i0<mc,all=true; g.label(valid?"valid":"invalid");
  std::vector<T> w,q,one(t.size()+1,-5);
  if(valid) w=column<T>(t,a,b,i0,i0,all,true);
  { bool threw=false,r=false; try { r=p.extract_column(rr,i0,strtk::back_inserter_with_valuetype(q)); } catch(const std::invalid_argument&){ threw=true; } if(!valid) CHECK(!r&&q.empty()&&!threw,"an invalid request is refused"); else { CHECK_EQ(threw,!all,"unconvertible token"); if(!threw) CHECK(r,"extract_column"); same_vec(q,w,"extract_column"); } }
  if(valid&&all){ T* o=one.data(); CHECK(p.extract_column(rr,i0,o),"extract_column to an array"); for(size_t i=0;i<w.size();++i) CHECK_EQ(one[i],w[i],"array element "<<i); CHECK_EQ(one[w.size()],-5,"nothing past the column"); }
  std::vector<T> wc; if(valid) wc=column<T>(t,a,b,i0,i0,all,false);
  { std::vector<T> k; CHECK_EQ(p.extract_column_checked(rr,i0,strtk::back_inserter_with_valuetype(k)),valid,"extract_column_checked"); same_vec(k,wc,"extract_column_checked"); }
  if(valid){ std::vector<T> k(t.size()+1,-5); std::vector<T>::iterator o=k.begin(); CHECK(p.extract_column_checked(rr,i0,o),"checked to an iterator"); for(size_t i=0;i<wc.size();++i) CHECK_EQ(k[i],wc[i],"element "<<i); }
  bool full=i0<mc; std::vector<T> wf; if(full) wf=column<T>(t,0,t.size(),i0,i0,all,false);
  { std::deque<T> k; p.extract_column_checked(i0,k); same_vec(drain(k),wf,"checked into a deque"); std::set<T> k2; p.extract_column_checked(i0,k2); std::vector<T> u=wf; Unique::f(u); same_vec(drain(k2),u,"checked into a set"); std::multiset<T> k3; p.extract_column_checked(i0,k3); u=wf; Sorted::f(u); same_vec(drain(k3),u,"checked into a multiset"); }
  // several columns at once: rows that have all of them
  size_t ix[5]; size_t n=2+g.below(4),m=0; bool ok=rv; for(size_t k=0;k<5;++k){ ix[k]=g.chance(1,12)?g.below(mc+2):g.below(mc); if(k<n){ m=std::max(m,ix[k]); ok=ok&&ix[k]<mc; } } g.show("cols",std::vector<size_t>(ix,ix+n));
  std::vector<Str> o[5]; bool r; 
  #define B(k) strtk::back_inserter_with_valuetype(o[k])
  switch(n){ case 2: r=p.extract_column(rr,ix[0],ix[1],B(0),B(1)); break; case 3: r=p.extract_column(rr,ix[0],ix[1],ix[2],B(0),B(1),B(2)); break; case 4: r=p.extract_column(rr,ix[0],ix[1],ix[2],ix[3],B(0),B(1),B(2),B(3)); break; default: r=p.extract_column(rr,ix[0],ix[1],ix[2],ix[3],ix[4],B(0),B(1),B(2),B(3),B(4)); }
  #undef B
  CHECK_EQ(r,ok,"extraction of "<<n<<" columns"); for(size_t k=0;k<n;++k){ std::vector<Str> u; if(ok) u=column<Str>(t,a,b,ix[k],m,all,false); CHECK_EQ(show_row(o[k]),show_row(u),"column "<<ix[k]<<" of "<<n); }
}
// Column ranges of a row.
FACET(column_ranges,800){
  GridCfg c=grid_cfg(g); c.dq=false; Str s=grid_text(g,c,5,false); Table t=table_of(s,c); if(t.empty()) return; g.show("text",s); g.show("cd",c.cd); nt(g,t); Exact x(s); Grid p(x.b(),x.n,c.opt()); size_t i=g.below(t.size()); const Row& r=t[i]; size_t a=g.below(r.size()+2),b=g.below(r.size()+3); g.show("row",i); g.show("from",a); g.show("to",b);
  const Grid::col_range_t cr((unsigned)a,(unsigned)b); bool ok=a<=b&&b<=r.size(); Grid::row_type row=p.row(i); CHECK_EQ(row.validate_column_range(cr),ok,"validity"); Row seen; TokSink k={&seen}; size_t n=row.for_each_column(cr,k); Row w; if(ok) w.assign(r.begin()+a,r.begin()+b); CHECK_EQ(n,w.size(),"columns visited"); CHECK_EQ(show_row(seen),show_row(w),"tokens of the range");
}
// Loads one after another into the same grid, some of which fail.
FACET(reload,700){
  Grid p; unsigned n=1+(unsigned)g.below(5); std::vector<std::unique_ptr<Exact> > keep; Table t; bool ok=false; std::vector<Str> kept;
  for(unsigned i=0;i<n;++i){
    GridCfg c=grid_cfg(g); Str s=grid_text(g,c,5,c.dq); unsigned e=(unsigned)g.below(6); g.show("op",e); g.show("text",s);
    if(e==0){ keep.push_back(std::unique_ptr<Exact>(new Exact(s))); kept.push_back(s); bool r=p.load((unsigned char*)keep.back()->p,s.size(),c.opt()); CHECK(r,"load(buffer)"); t=table_of(s,c); ok=true; CHECK_EQ(p.source_file(),Str(),"source"); }
    else if(e==1){ File f(fname("b"),s); bool r=p.load(fname("b"),c.opt()); CHECK_EQ(r,!s.empty(),"load(file)"); t=table_of(s,c); ok=r; if(r) CHECK_EQ(p.source_file(),fname("b"),"source"); }
    else if(e==2){ unlink(fname("no").c_str()); bool r=p.load(fname("no"),c.opt()); CHECK(!r,"a missing file is reported"); t.clear(); ok=false; g.label("missing"); }
    else if(e==3){ File f(fname("b"),""); CHECK(!p.load(fname("b"),c.opt()),"an empty file is reported"); t.clear(); ok=false; }
    else if(e==4&&!s.empty()){ File f(fname("b"),s); size_t k=g.below(s.size()+1); bool small=g.flip(); g.show(small?"read in pieces":"fails at",k); bool r; if(small){ faults::ShortReads q(1+k); r=p.load(fname("b"),c.opt()); k=s.size(); } else { faults::ReadFault q(k); r=p.load(fname("b"),c.opt()); } CHECK_EQ(r,k>=s.size(),"outcome of loading a file that fails at byte "<<k); ok=r; if(r) t=table_of(s,c); else t.clear(); g.label("fault"); }
    else { p.clear(); t.clear(); ok=false; CHECK_EQ(p.source_file(),Str(),"source"); }
    CHECK_EQ(!p,!ok,"state"); observe(p,t,"after a load"); if(i) nt(g,t);
  }
  for(size_t i=0;i<keep.size();++i) CHECK_EQ(keep[i]->str(),kept[i],"the caller's buffer is untouched");
}
FACET(owned_buffer,100){
  GridCfg c=grid_cfg(g); Str s=grid_text(g,c,5,c.dq); g.show("text",s); unsigned char* b=new unsigned char[s.size()+1]; memcpy(b,s.data(),s.size()); Grid p(b,s.size(),c.opt()); Table t=table_of(s,c); nt(g,t); observe(p,t,"loaded"); p.clear(true); observe(p,Table(),"cleared"); CHECK(!p,"state"); p.clear(); observe(p,Table(),"cleared twice");
}
LARGE1(content,12,70000) LARGE1(columns,12,70000) LARGE1(row_values,5,300) LARGE1(row_container_vector,8,70000) LARGE1(row_outputs,5,300) LARGE1(reload,4,300)
