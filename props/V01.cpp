#include "fields.hpp"
#include "strtk.hpp"
#include <list>
#include <map>
#include <memory>
namespace pbt { const char* const property_id="V01";
const char* const rule_text="A history over up to eight holders and twenty-four variables of eight types: construct (empty, bound, copied from const or non-const, moved into a growing vector, deque or map), bind, assign from another holder, destroy, convert a valid or invalid text through each entry point, report as text; attributes and semantic actions in the same way; scoped restorations over several types, nesting, switches and exceptions. Oracle: a table holder -> variable and the variables' expected values. Non-trivial: a conversion through a holder that was copied or rebound, or a restoration of a changed variable. Distinct by the history."; }
using namespace model; using pbt::G; typedef std::string Str; typedef strtk::util::value Value;
struct Var { virtual ~Var(){} virtual void bind(Value& v)=0; virtual Value* make()=0; virtual bool conv(const Str& s)=0; virtual void expect(const char* w)=0; virtual Str gen(G& g)=0; virtual void text(const Str& s,const char* w)=0; virtual void set(G& g)=0; virtual const char* name()=0; };
template<class T> static void text_is(const T& v,const Str& s,const char* w,const char* n){ CHECK_EQ(s,value_text(v),w<<": text of "<<n); }
static void text_is(double v,const Str& s,const char* w,const char*){ double a=strtod(s.c_str(),0); CHECK(a==v||std::fabs(a-v)<=1e-9*std::fabs(v),w<<": text "<<s<<" of "<<value_text(v)); }
static void text_is(float v,const Str& s,const char* w,const char*){ double a=strtod(s.c_str(),0); CHECK(a==v||std::fabs(a-v)<=1e-5*std::fabs(v),w<<": text "<<s<<" of "<<value_text(v)); }
template<class T> struct TVar:Var { T v,want; const char* n; TVar(const char* k):v(),want(),n(k){} void bind(Value& x){ x.assign(v); } Value* make(){ return new Value(v); }
  bool conv(const Str& s){ T t=T(); if(!Field<T>::valid(s,t)) return false; want=t; return true; }
  void expect(const char* w){ CHECK(Field<T>::same(v,want),w<<": "<<n<<" is "<<value_text(v)<<", expected "<<value_text(want)); want=v; }
  Str gen(G& g){ return g.chance(1,4)?Field<T>::bad(g):Field<T>::gen(g); }
  void text(const Str& s,const char* w){ text_is(v,s,w,n); }
  void set(G& g){ T t=T(); Field<T>::valid(Field<T>::gen(g),t); v=want=t; } const char* name(){ return n; } };
struct World { std::vector<std::unique_ptr<Var> > v; World(){ for(int i=0;i<3;++i){ v.emplace_back(new TVar<int>("int")); v.emplace_back(new TVar<Str>("string")); v.emplace_back(new TVar<double>("double")); v.emplace_back(new TVar<unsigned short>("ushort")); v.emplace_back(new TVar<long long>("llong")); v.emplace_back(new TVar<float>("float")); v.emplace_back(new TVar<char>("char")); v.emplace_back(new TVar<unsigned long long>("ullong")); } } void expect(const char* w){ for(auto& x:v) x->expect(w); } };
static bool convert(G& g,const Value& h,const Str& s){
  Exact x(s); bool r; switch(g.below(6)){ case 0: r=h(s); break; case 1: r=h(x.b(),x.e()); break; case 2: r=h((const unsigned char*)x.b(),(const unsigned char*)x.e()); break; case 3: r=h(std::make_pair(x.b(),x.e())); break; case 4: r=h(std::make_pair((const unsigned char*)x.b(),(const unsigned char*)x.e())); break; default: { Value c(h); r=strtk::string_to_type_converter(x.b(),x.e(),c); } } return r;
}
static void use(G& g,World& w,const Value& h,int to,bool interesting,const char* what){
  CHECK_EQ(!h,to<0,what<<": bound"); Str out="old";
  if(to<0){ CHECK(!convert(g,h,"1"),what<<": an empty holder refuses"); CHECK(!h.to_string(out),what<<": an empty holder has no text"); return; }
  Var& v=*w.v[to]; Str s=v.gen(g); g.note(v.name()); g.show("conv",s); bool ok=v.conv(s); CHECK_EQ(convert(g,h,s),ok,what<<": conversion of "<<pbt::quote(s)<<" to "<<v.name()); w.expect(what); if(ok&&interesting) g.nt(); g.label(ok?"converted":"refused");
  CHECK(h.to_string(out),what<<": text"); v.text(out,what); Str out2; CHECK(strtk::type_to_string(h,out2),what<<": type_to_string"); CHECK_EQ(out2,out,what<<": the same text");
}
FACET(holders,3000){
  World w; struct H { std::unique_ptr<Value> v; int to; bool hot; }; std::vector<H> hs; size_t n=1+g.len(16);
  for(size_t i=0;i<n;++i){
    unsigned op=(unsigned)g.below(10); g.show("op",op); size_t k=hs.empty()?0:g.below(hs.size()); int t=(int)g.below(w.v.size());
    if(hs.empty()&&op>1) op=op%2;
    switch(op){
      case 0: { H h; h.v.reset(new Value()); h.to=-1; h.hot=false; hs.push_back(std::move(h)); break; }
      case 1: { H h; h.v.reset(w.v[t]->make()); h.to=t; h.hot=false; g.show("var",t); hs.push_back(std::move(h)); break; }
      case 2: { g.show("h",k); g.show("var",t); w.v[t]->bind(*hs[k].v); hs[k].hot=true; hs[k].to=t; break; }
      case 3: { g.show("copy",k); H h; if(g.flip()) h.v.reset(new Value(*hs[k].v)); else h.v.reset(new Value(static_cast<const Value&>(*hs[k].v))); h.to=hs[k].to; h.hot=true; hs.push_back(std::move(h)); break; }
      case 4: { size_t m=g.below(hs.size()); g.show("from",k); g.show("to",m); *hs[m].v=*hs[k].v; hs[m].to=hs[k].to; hs[m].hot=true; break; }
      case 5: { g.show("destroy",k); memset((void*)hs[k].v.get(),0,0); hs.erase(hs.begin()+k); break; }
      case 6: { w.v[t]->set(g); break; }
      default: use(g,w,*hs[k].v,hs[k].to,hs[k].hot,"holder");
    }
    if(hs.size()>8) hs.erase(hs.begin());
  }
  for(auto& h:hs) use(g,w,*h.v,h.to,h.hot,"at the end");
  for(auto& a:hs) for(auto& b:hs) CHECK_EQ(*a.v==*b.v,a.to>=0&&a.to==b.to,"equality of holders bound to "<<a.to<<" and "<<b.to);
}
FACET(containers,1200){
  World w; std::vector<Value> v; std::deque<Value> d; std::map<int,Value> m; std::vector<int> tv,td; std::map<int,int> tm; size_t n=1+g.len(20);
  for(size_t i=0;i<n;++i){ int t=(int)g.below(w.v.size()); std::unique_ptr<Value> tmp(w.v[t]->make()); g.show("var",t); switch(g.below(4)){ case 0: v.push_back(*tmp); tv.push_back(t); break; case 1: d.push_front(*tmp); td.insert(td.begin(),t); break; case 2: { int k=(int)g.below(5); m[k]=*tmp; tm[k]=t; break; } default: if(!v.empty()){ size_t k=g.below(v.size()); if(g.flip()){ v.erase(v.begin()+k); tv.erase(tv.begin()+k); } else { v.insert(v.begin()+k,*tmp); tv.insert(tv.begin()+k,t); } } } }
  std::vector<Value> c(v); v.clear(); v.shrink_to_fit(); for(size_t i=0;i<c.size();++i) use(g,w,c[i],tv[i],true,"in a vector"); for(size_t i=0;i<d.size();++i) use(g,w,d[i],td[i],true,"in a deque"); for(auto& x:m) use(g,w,x.second,tm[x.first],true,"in a map");
  std::vector<Value> e; e.resize(g.below(5),Value()); for(auto& x:e) CHECK(!x,"resized with empty holders"); std::swap(c,e); for(size_t i=0;i<e.size();++i) use(g,w,e[i],tv[i],true,"after a swap");
}
// Holders as fields of a parsed line.
FACET(fields,800){
  World w; size_t n=1+g.below(4); std::vector<Value> h; std::vector<int> to; Str s; bool ok=true; std::vector<Str> fs; for(size_t i=0;i<n;++i){ int t=(int)g.below(w.v.size()); for(int o:to) if(o==t) t=-1; if(t<0){ --i; if(to.size()>20) break; continue; } std::unique_ptr<Value> x(w.v[t]->make()); h.push_back(*x); to.push_back(t); Str f; do f=w.v[t]->gen(g); while(f.empty()||f.find("|")!=Str::npos); if(i) s+="|"; s+=f; fs.push_back(f); }
  g.show("text",s); if(s.empty()) return; std::vector<bool> k; for(size_t i=0;i<n&&ok;++i) ok=w.v[to[i]]->conv(fs[i]);
  bool r; switch(n){ case 1: r=strtk::parse(s,"|",h[0]); break; case 2: r=strtk::parse(s,"|",h[0],h[1]); break; case 3: r=strtk::parse(s,"|",h[0],h[1],h[2]); break; default: r=strtk::parse(s,"|",h[0],h[1],h[2],h[3]); }
  CHECK_EQ(r,ok,"parse into holders"); if(ok){ w.expect("parsed"); g.nt(); }
}
template<class T> static void attr(G& g,const char* name){
  typedef strtk::util::attribute<T> A; g.note(name); auto val=[&](){ T t=T(); Field<T>::valid(Field<T>::gen(g),t); return t; };
  std::unique_ptr<A> a; T cur=T(),prev=T(); bool init=false; bool start=g.flip(); if(start){ cur=prev=val(); a.reset(new A(cur)); init=true; } else a.reset(new A()); bool pk=true; size_t n=g.len(10);
  for(size_t i=0;i<=n;++i){
    CHECK_EQ(a->initialised(),init,"initialised"); CHECK(Field<T>::same(a->value(),cur)&&Field<T>::same((*a)(),cur)&&Field<T>::same(static_cast<const A&>(*a)(),cur),"value"); cur=a->value(); T t=*a; CHECK(t==cur,"conversion"); CHECK_EQ(*a==cur,init,"equals its value"); CHECK_EQ(*a!=cur,!init,"differs from its value");
    if(pk){ CHECK(a->previous()==prev,"previous"); CHECK_EQ(a->changed(),init&&!(cur==prev),"changed"); }
    Str out="x"; bool r=strtk::type_to_string(*a,out); CHECK_EQ(r,init,"text when initialised"); if(init){ Str w; strtk::type_to_string(cur,w); CHECK_EQ(out,w,"text"); } std::ostringstream o,o2; o<<*a; o2<<cur; CHECK_EQ(o.str(),o2.str(),"stream output");
    if(i==n) break;
    switch(g.below(4)){
      case 0: { T v=val(); g.show("assign",value_text(v)); *a=v; prev=cur; cur=v; init=true; pk=true; if(i) g.nt(); break; }
      case 1: { Str s=g.chance(1,3)?Field<T>::bad(g):Field<T>::gen(g); g.show("conv",s); T v=T(); bool ok=Field<T>::valid(s,v); Exact x(s); bool rr=g.flip()?strtk::string_to_type_converter(x.b(),x.e(),*a):strtk::string_to_type_converter(s,*a); CHECK_EQ(rr,ok,"conversion into an attribute"); if(ok){ cur=v; init=true; pk=false; g.nt(); } break; } // whether a conversion counts as a change is not stated
      case 2: { A b(*a); a.reset(new A(b)); break; }
      default: { A b; b=*a; CHECK(Field<T>::same(b.value(),cur),"assigned attribute"); }
    }
  }
}
FACET(attributes,1500){ switch(g.below(6)){ case 0: attr<int>(g,"int"); break; case 1: attr<Str>(g,"string"); break; case 2: attr<double>(g,"double"); break; case 3: attr<unsigned short>(g,"ushort"); break; case 4: attr<long long>(g,"llong"); break; default: attr<char>(g,"char"); } }
struct Act { std::vector<Str> got; bool ret; bool operator()(const unsigned char* b,const unsigned char* e){ got.push_back(Str((const char*)b,(const char*)e)); return ret; } };
struct Ref { Act* a; bool operator()(const unsigned char* b,const unsigned char* e) const { return (*a)(b,e); } };
FACET(actions,1200){
  typedef strtk::util::semantic_action_impl S; std::vector<std::unique_ptr<Act> > acts; std::vector<std::unique_ptr<Ref> > refs; for(int i=0;i<3;++i){ acts.emplace_back(new Act()); acts[i]->ret=g.flip(); refs.emplace_back(new Ref()); refs[i]->a=acts[i].get(); } std::vector<std::vector<Str> > want(3);
  std::vector<std::unique_ptr<S> > ss; std::vector<int> to; size_t n=1+g.len(12);
  for(size_t i=0;i<n;++i){
    int t=(int)g.below(3); unsigned op=(unsigned)g.below(8); if(ss.empty()&&op>2) op%=3; g.show("op",op);
    size_t k=ss.empty()?0:g.below(ss.size());
    switch(op){
      case 0: ss.emplace_back(new S(strtk::util::semantic_action(*refs[t]))); to.push_back(t); break;
      case 1: ss.emplace_back(new S()); to.push_back(-1); break;
      case 2: ss.emplace_back(new S()); ss.back()->assign(*acts[t]); to.push_back(t); break;
      case 3: ss.emplace_back(g.flip()?new S(*ss[k]):new S(static_cast<const S&>(*ss[k]))); to.push_back(to[k]); g.nt(to[k]>=0); break;
      case 4: ss.erase(ss.begin()+k); to.erase(to.begin()+k); break;
      case 5: ss[k]->assign(*refs[t]); to[k]=t; break;
      default: { Str s=g.text("ab1,",6); Exact x(s); g.show("text",s); CHECK_EQ(!*ss[k],to[k]<0,"bound"); bool r; switch(g.below(5)){ case 0: r=(*ss[k])(s); break; case 1: r=(*ss[k])(x.b(),x.e()); break; case 2: r=(*ss[k])((const unsigned char*)x.b(),(const unsigned char*)x.e()); break; case 3: r=ss[k]->ref()(std::make_pair(x.b(),x.e())); break; default: r=strtk::string_to_type_converter(x.b(),x.e(),*ss[k]); } if(to[k]>=0) want[to[k]].push_back(s); CHECK_EQ(r,to[k]>=0&&acts[to[k]]->ret,"result of the action"); }
    }
    for(int j=0;j<3;++j) CHECK(acts[j]->got==want[j],"texts handed to action "<<j);
    size_t a=g.below(ss.size()+1),b=g.below(ss.size()+1); if(a<ss.size()&&b<ss.size()){ if(to[a]!=to[b]||to[a]<0) CHECK(!(*ss[a]==*ss[b]),"actions bound to "<<to[a]<<" and "<<to[b]<<" are equal"); else if(a==b) CHECK(*ss[a]==*ss[b],"an action equals itself"); if(to[a]>=0){ S c(static_cast<const S&>(*ss[a])); CHECK(c==*ss[a],"a copy of an action equals it"); } }
  }
}
FACET(action_fields,600){
  Act a,b; a.ret=!g.chance(1,5); b.ret=!g.chance(1,5); Ref ra={&a},rb={&b}; int x=-1; Str f0=g.fixed("abz",1+g.below(5)),f2=g.fixed("abz",1+g.below(5)); bool badn=g.chance(1,6); Str f1=badn?"q":std::to_string(g.range(-99,99)); Str s=f0+"|"+f1+"|"+f2; g.show("text",s); bool r=strtk::parse(s,"|",strtk::util::semantic_action(ra).ref(),x,strtk::util::semantic_action(rb).ref());
  CHECK_EQ(r,a.ret&&!badn&&b.ret,"parse with actions"); CHECK(a.got==std::vector<Str>(1,f0),"first action"); if(a.ret&&!badn){ CHECK_EQ(x,atoi(f1.c_str()),"value between"); CHECK(b.got==std::vector<Str>(1,f2),"second action"); g.nt(); }
}
template<class T> static void restore(G& g,const char* name){
  g.note(name); auto val=[&](){ T t=T(); Field<T>::valid(Field<T>::gen(g),t); return t; }; T x=val(); const T x0=x; bool on=g.flip(),sw=g.flip(),thrown=g.chance(1,3); bool fin=on; T last=x; T mid=x; g.show("on",on); g.show("switch",sw); g.show("throw",thrown);
  try { strtk::util::scoped_restore<T> r(x,on); CHECK(x==x0,"untouched at first"); CHECK_EQ(r.restore(),on,"restore flag"); last=x=val();
    if(g.flip()){ const T y=x; mid=y; { strtk::util::scoped_restore<T> in(x); x=val(); } CHECK(x==y,"inner restoration"); last=x; }
    if(sw){ r.restore()=!on; fin=!on; } if(thrown) throw 1; } catch(int){}
  CHECK(x==(fin?x0:last),"after the scope: "<<(fin?"restored":"kept")); g.nt(!(last==x0)); g.label(fin?"restored":"kept");
}
FACET(restoration,800){ switch(g.below(5)){ case 0: restore<int>(g,"int"); break; case 1: restore<Str>(g,"string"); break; case 2: restore<double>(g,"double"); break; case 3: restore<char>(g,"char"); break; default: restore<unsigned long long>(g,"ullong"); } }

FACET(text_attribute_comparison,1500){ Str a=g.text("ab",4),b=g.flip()?a:g.text("ab",4); g.show("a",a); g.show("b",b); g.nt(!a.empty()); strtk::util::attribute<Str> t(a); CHECK_EQ(b.c_str()==t,a==b,"text equals attribute"); CHECK_EQ(b.c_str()!=t,a!=b,"text differs from attribute"); CHECK_EQ(t==b,a==b,"attribute equals text"); CHECK_EQ(t!=b,a!=b,"attribute differs from text"); }
