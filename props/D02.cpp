#include "models.hpp"
#include "strtk.hpp"
#include <map>
#include <memory>
#include <random>
namespace pbt { const char* const property_id="D02";
const char* const rule_text="Histories of inserts (text, bytes, characters, plain values, ranges), copies, assignments, unions, intersections, clears and (for compressible filters) compressions over up to four filters of generated parameters (projected count, probability, size and hash bounds of any remainder, seed). Oracle: for every filter the set of elements it must contain; equality with a filter rebuilt from the same insertions in another order; after clear nothing is contained; counted false positives for random elements. Non-trivial: two or more distinct elements and a copy, combination, compression or clear. Distinct by parameters and history."; }
using pbt::G; using model::Exact;
typedef strtk::bloom::parameters P; typedef strtk::bloom::filter F; typedef strtk::bloom::compressible_filter CF;
struct Elem { int kind; std::string b; bool operator<(const Elem& o) const { return kind!=o.kind?kind<o.kind:b<o.b; } };
struct Pod { int a; unsigned char c[4]; };
template<class T> static T as(const std::string& b){ T t; std::memcpy((void*)&t,b.data(),sizeof(T)); return t; }
static Elem gen_elem(G& g,std::vector<Elem>& pool){
  if(!pool.empty()&&g.chance(1,4)) return pool[g.below(pool.size())];
  Elem e; e.kind=(int)g.below(6); switch(e.kind){ case 0: e.b=g.chance(1,3)?g.text("ab",6):g.bytes(24); break; case 1: e.b=g.nbytes(sizeof(int)); break; case 2: e.b=g.nbytes(sizeof(long long)); break; case 3: e.b=g.nbytes(sizeof(short)); break; case 4: e.b=g.nbytes(1); break; default: e.b=g.nbytes(sizeof(Pod)); }
  pool.push_back(e); return e;
}
static void insert(F& f,const Elem& e,unsigned form){ switch(e.kind){
  case 0: switch(form%3){ case 0: f.insert(e.b); break; case 1: { Exact x(e.b); f.insert(x.b(),e.b.size()); break; } default: { Exact x(e.b); f.insert((const unsigned char*)x.b(),e.b.size()); } } break;
  case 1: f.insert(as<int>(e.b)); break; case 2: f.insert(as<long long>(e.b)); break; case 3: f.insert(as<short>(e.b)); break; case 4: f.insert(e.b[0]); break; default: f.insert(as<Pod>(e.b)); } }
static bool contains(const F& f,const Elem& e,unsigned form){ switch(e.kind){
  case 0: switch(form%3){ case 0: return f.contains(e.b); case 1: { Exact x(e.b); return f.contains(x.b(),e.b.size()); } default: { Exact x(e.b); return f.contains((const unsigned char*)x.b(),e.b.size()); } }
  case 1: return f.contains(as<int>(e.b)); case 2: return f.contains(as<long long>(e.b)); case 3: return f.contains(as<short>(e.b)); case 4: return f.contains(e.b[0]); default: return f.contains(as<Pod>(e.b)); } }
static std::string et(const Elem& e){ return std::string(1,"sildcp"[e.kind])+pbt::quote(e.b); }
static P gen_params(G& g,std::string& t){
  P p; p.projected_element_count=1+g.below(g.chance(1,4)?2000:60); p.false_positive_probability=g.pick<double>({0.5,0.1,0.05,0.01,0.001,1e-6}); if(g.chance(1,3)) p.random_seed=1+g.any64()%0xFFFFFFFFFFFFFFFDULL;
  if(g.chance(1,3)) p.minimum_size=1+g.below(300); if(g.chance(1,3)) p.maximum_size=p.minimum_size+g.below(g.flip()?20:400);
  if(g.chance(1,4)) p.minimum_number_of_hashes=1+(unsigned)g.below(g.chance(1,5)?140:6); if(g.chance(1,4)) p.maximum_number_of_hashes=p.minimum_number_of_hashes+(unsigned)g.below(5);
  CHECK(p.compute_optimal_parameters(),"parameters are valid"); auto& o=p.optimal_parameters;
  CHECK(o.table_size>=p.minimum_size&&o.table_size<=p.maximum_size,"table of "<<o.table_size<<" bits, bounds "<<p.minimum_size<<".."<<p.maximum_size);
  CHECK(o.number_of_hashes>=p.minimum_number_of_hashes&&o.number_of_hashes<=p.maximum_number_of_hashes,"hash count "<<o.number_of_hashes<<", bounds "<<p.minimum_number_of_hashes<<".."<<p.maximum_number_of_hashes);
  std::ostringstream s; s<<p.projected_element_count<<"/"<<p.false_positive_probability<<"/"<<p.minimum_size<<"-"<<p.maximum_size<<"/"<<p.minimum_number_of_hashes<<"-"<<p.maximum_number_of_hashes<<"/"<<p.random_seed; t=s.str(); return p;
}
template<class T> struct Slot { std::unique_ptr<T> f; std::set<Elem> must; int par; std::vector<unsigned long long> sizes; bool pure; size_t count; std::vector<Elem> log; };
static bool do_compress(CF& f,double pc){ return f.compress(pc); } static bool do_compress(F&,double){ return false; }
template<class T> static void history(G& g,bool compressible){
  std::vector<P> ps; std::string t; for(size_t i=0,n=1+g.below(2);i<n;++i){ std::string s; ps.push_back(gen_params(g,s)); t+=s+" "; } g.show("parameters",t);
  std::vector<Slot<T> > v; std::vector<Elem> pool; std::string h; bool nt=false;
  auto fresh=[&](int par){ Slot<T> s; s.f.reset(new T(ps[par])); s.par=par; s.sizes.push_back(s.f->size()); s.pure=true; s.count=0; CHECK_EQ(s.f->size(),ps[par].optimal_parameters.table_size,"size of a new filter"); return s; };
  auto check=[&](const Slot<T>& s,const char* when){ unsigned k=0; for(auto& e:s.must) CHECK(contains(*s.f,e,k++),"an inserted element "<<et(e)<<" is not contained "<<when<<" after "<<h); };
  v.push_back(fresh(0)); size_t n=1+g.len(40);
  for(size_t step=0;step<n;++step){
    size_t a=g.below(v.size()),b=g.below(v.size()); unsigned op=(unsigned)g.below(compressible?13:11); std::ostringstream d;
    switch(op){
      case 0: case 1: case 2: { Elem e=gen_elem(g,pool); insert(*v[a].f,e,(unsigned)g.below(3)); v[a].must.insert(e); v[a].log.push_back(e); ++v[a].count; d<<" +"<<a<<et(e); break; }
      case 3: { std::vector<std::string> r; size_t m=g.below(6); for(size_t i=0;i<m;++i){ Elem e; e.kind=0; e.b=g.bytes(10); pool.push_back(e); r.push_back(e.b); v[a].must.insert(e); v[a].log.push_back(e); ++v[a].count; } v[a].f->insert(r.begin(),r.end()); d<<" range"<<a<<"x"<<m; CHECK(v[a].f->contains_all(r.begin(),r.end())==r.end(),"contains_all of a range just inserted"); if(m) CHECK(v[a].f->contains_none(r.begin(),r.end())==r.begin(),"contains_none of a range just inserted"); break; }
      case 4: if(v.size()<4){ v.push_back(fresh((int)g.below(ps.size()))); d<<" new"<<v.back().par; } break;
      case 5: if(v.size()<4){ Slot<T> s; s.f.reset(new T(*v[a].f)); CHECK(*s.f==*v[a].f&&!(*s.f!=*v[a].f),"a copy equals its original"); s.must=v[a].must; s.par=v[a].par; s.sizes=v[a].sizes; s.pure=v[a].pure; s.count=v[a].count; s.log=v[a].log; v.push_back(std::move(s)); d<<" copy"<<a; nt=true; } break;
      case 6: *v[a].f=*v[b].f; CHECK(*v[a].f==*v[b].f,"an assigned filter equals its source"); if(a!=b){ v[a].must=v[b].must; v[a].par=v[b].par; v[a].sizes=v[b].sizes; v[a].pure=v[b].pure; v[a].count=v[b].count; v[a].log=v[b].log; } d<<" "<<a<<"="<<b; nt=true; break;
      case 7: { std::set<Elem> w=v[a].must; bool same=v[a].par==v[b].par&&v[a].sizes==v[b].sizes; if(same) w.insert(v[b].must.begin(),v[b].must.end());
        if(!compressible&&g.flip()){ F r=*v[a].f|*v[b].f; unsigned k=0; for(auto& e:w) CHECK(contains(r,e,k++),"element "<<et(e)<<" of a union is missing after "<<h); d<<" "<<a<<"|"<<b; } else { *v[a].f|=*v[b].f; v[a].must=w; if(a!=b) v[a].pure=false; d<<" "<<a<<"|="<<b; } nt=true; break; }
      case 8: { std::set<Elem> w; bool same=v[a].par==v[b].par&&v[a].sizes==v[b].sizes; for(auto& e:v[a].must) if(v[b].must.count(e)) w.insert(e);
        if(!compressible&&g.flip()){ F r=*v[a].f&*v[b].f; unsigned k=0; for(auto& e:w) CHECK(contains(r,e,k++),"common element "<<et(e)<<" of an intersection is missing after "<<h); for(auto& e:pool) if(same) CHECK_EQ(contains(r,e,0),contains(r,e,0)&&contains(*v[a].f,e,0)&&contains(*v[b].f,e,0),"an intersection contains an element one side does not"); d<<" "<<a<<"&"<<b; } else { *v[a].f&=*v[b].f; v[a].must=w; if(a!=b) v[a].pure=false; d<<" "<<a<<"&="<<b; } nt=true; break; }
      case 9: v[a].f->clear(); v[a].must.clear(); v[a].log.clear(); v[a].count=0; v[a].pure=true; CHECK_EQ(v[a].f->element_count(),size_t(0),"element count after clear"); for(auto& e:pool) CHECK(!contains(*v[a].f,e,0),"cleared filter contains "<<et(e)); d<<" clear"<<a; nt=true; break;
      case 10: { Elem e=gen_elem(g,pool); bool c0=contains(*v[a].f,e,0); CHECK_EQ(contains(*v[a].f,e,1),c0,"forms of the same query disagree"); CHECK_EQ(contains(*v[a].f,e,2),c0,"forms of the same query disagree"); if(v[a].must.count(e)) CHECK(c0,"an inserted element is not contained"); d<<" ?"<<a<<et(e); break; }
      default: { double pc=g.pick<double>({1.0,10.0,25.0,33.3,50.0,50.1,60.0,75.0,90.0,99.0,0.0,-5.0,100.0,150.0}); unsigned long long s0=v[a].f->size(); bool r=do_compress((T&)*v[a].f,pc); unsigned long long s1=v[a].f->size(); if(r){ CHECK(s1<s0&&s1>=8&&s1%8==0,"compressed from "<<s0<<" to "<<s1<<" bits"); { double ex=double(s0)*(1-pc/100); CHECK(double(s1)<=ex+1&&double(s1)>ex-9,"compressed by "<<pc<<" percent from "<<s0<<" to "<<s1<<" bits"); } v[a].sizes.push_back(s1); v[a].pure=false; g.label("compressed"); } else CHECK_EQ(s1,s0,"a refused compression changes the size"); if(pc<=0||pc>=100) CHECK(!r,"compression by "<<pc<<" percent accepted"); d<<" compress"<<a<<"by"<<pc; nt=true; }
    }
    h+=d.str(); check(v[a],"in the filter operated on"); if(a!=b) check(v[b],"in the other filter"); if(v.size()>2) check(v.back(),"in the last filter");
  }
  g.show("history",h); g.nt(nt&&pool.size()>1);
  for(auto& s:v){ check(s,"at the end"); CHECK(!(!*s.f),"filter is usable");
    if(s.pure&&s.sizes.size()==1){ CHECK_EQ(s.f->element_count(),s.count,"element count"); Slot<T> r=fresh(s.par); for(size_t i=s.log.size();i-->0;) insert(*r.f,s.log[i],(unsigned)i); CHECK(*r.f==*s.f&&!(*r.f!=*s.f),"filters with equal parameters and insertions differ after "<<h); insert(*r.f,gen_elem(g,pool),0); CHECK(*r.f!=*s.f,"a filter with one more insertion is equal"); } }
}
FACET(filters,9000){ history<F>(g,false); }
FACET(compressible_filters,9000){ history<CF>(g,true); }
FACET(false_positives,40){
  P p; p.projected_element_count=300+g.below(1500); p.false_positive_probability=g.pick<double>({0.2,0.1,0.05,0.02,0.01,0.005}); if(g.flip()) p.random_seed=1+g.any64()%0xFFFFFFFFFFFFFFFDULL; unsigned kind=(unsigned)g.below(2); std::mt19937_64 r(g.any64()); size_t q=5000;
  g.show("projected",p.projected_element_count); g.show("probability",p.false_positive_probability); g.show("seed",p.random_seed); g.show("kind",kind); g.nt(); CHECK(p.compute_optimal_parameters(),"parameters are valid"); F f(p);
  std::set<std::string> in; auto key=[&]{ std::string s(kind?8:8+r()%12,0); for(auto& c:s) c=(char)r(); return s; }; size_t n=(size_t)p.projected_element_count; for(size_t i=0;i<n;++i){ std::string s=key(); in.insert(s); f.insert(s); }
  for(auto& s:in) CHECK(f.contains(s),"an inserted element is not contained"); size_t fp=0; for(size_t i=0;i<q;){ std::string s=key(); if(in.count(s)) continue; ++i; fp+=f.contains(s); }
  CHECK((double)fp<=2.5*p.false_positive_probability*(double)q+10,"false positives: "<<fp<<" of "<<q<<" queries at probability "<<p.false_positive_probability); double e=f.effective_fpp(); CHECK(e>0&&e<=2*p.false_positive_probability,"effective probability "<<e<<" at configured "<<p.false_positive_probability);
}
FACET(parameters_refused,600){ P p; unsigned k=(unsigned)g.below(8); g.show("kind",k); g.nt(); switch(k){ case 0: p.minimum_size=10+g.below(100); p.maximum_size=g.below(10); break; case 1: p.minimum_number_of_hashes=5; p.maximum_number_of_hashes=(unsigned)g.below(5); break; case 2: p.minimum_number_of_hashes=0; break; case 3: p.maximum_number_of_hashes=0; p.minimum_number_of_hashes=0; break; case 4: p.projected_element_count=0; break; case 5: p.false_positive_probability=-0.5; break; case 6: p.random_seed=0; break; default: p.random_seed=0xFFFFFFFFFFFFFFFFULL; } CHECK(!p,"invalid parameters are reported"); CHECK(!p.compute_optimal_parameters(),"invalid parameters are refused"); }
// Saved parameters come back through the binary streams.
FACET(parameters_stored,1500){ std::string t; P p=gen_params(g,t),q; g.show("parameters",t); g.nt(); std::vector<unsigned char> b(256); strtk::binary::writer w(&b[0],b.size()); CHECK(p(w),"parameters are written"); strtk::binary::reader r(&b[0],b.size()); q.random_seed=1; CHECK(q(r),"parameters are read"); CHECK(q.compute_optimal_parameters(),"read parameters are valid"); F a(p),c(q); CHECK(a==c,"filters of stored parameters differ"); CHECK_EQ(r.position(),w.position(),"positions"); }
// Short keys of one length are told apart: a filter filled to a fifth seldom reports one that was not inserted.
FACET(false_positives_short_keys,40){
  P p; p.projected_element_count=500; p.false_positive_probability=g.pick<double>({0.05,0.02,0.01}); p.random_seed=1+g.any64()%0xFFFFFFFFFFFFFFFDULL; size_t len=1+g.below(12); std::mt19937_64 r(g.any64()); g.show("length",len); g.show("probability",p.false_positive_probability); g.show("seed",p.random_seed); g.nt(); CHECK(p.compute_optimal_parameters(),"parameters are valid");
  F f(p); std::set<std::string> in; auto key=[&]{ std::string s(len,0); for(auto& c:s) c=(char)r(); return s; }; size_t k=len==1?20:100; while(in.size()<k){ std::string s=key(); if(in.insert(s).second) f.insert(s); }
  std::set<std::string> ask; for(size_t i=0;i<1000;++i){ std::string s=key(); if(!in.count(s)) ask.insert(s); } size_t q=ask.size(),fp=0; for(auto& s:ask) fp+=f.contains(s);
  CHECK((double)fp<=2*p.false_positive_probability*(double)q+10,"false positives: "<<fp<<" of "<<q<<" queries for keys of "<<len<<" bytes at probability "<<p.false_positive_probability);
  ask.clear(); for(auto& k:in) for(size_t i=0;i<len;++i){ std::string s=k; s[i]^=(char)(1u<<(r()%8)); if(!in.count(s)) ask.insert(s); } q=fp=0; for(auto& s:ask){ ++q; fp+=f.contains(s); }
  CHECK((double)fp<=0.25*(double)q+3,"false positives: "<<fp<<" of "<<q<<" keys of "<<len<<" bytes that differ in one bit from an inserted one");
}
LARGE(filters,6,300) LARGE(compressible_filters,5,300)
// Keys of any length: each is contained, and texts one byte away from them are told apart.
FACET(long_keys,50){
  P p; p.projected_element_count=200; p.false_positive_probability=1e-5; if(g.flip()) p.random_seed=1+g.any64()%0xFFFFFFFFFFFFFFFDULL; CHECK(p.compute_optimal_parameters(),"valid"); F f(p); std::vector<std::string> ks; size_t n=1+g.below(4); std::vector<unsigned long> ls; bool nt=false;
  for(size_t i=0;i<n;++i){ size_t l=1+g.big(70000); ks.push_back(g.nbytes(l)); ls.push_back(l); nt=nt||l>64; f.insert(ks.back()); } g.show("lengths",ls); g.nt(nt);
  for(auto& k:ks){ Exact x(k); CHECK(f.contains(k)&&f.contains(x.b(),k.size())&&f.contains((const unsigned char*)x.b(),k.size()),"an inserted key of "<<k.size()<<" bytes is not contained");
    size_t at=g.below(k.size()),in=0; unsigned char c=(unsigned char)k[at]; for(unsigned d=1;d<=5;++d){ k[at]=char(c^(d*37)); in+=f.contains(k); } k[at]=(char)c; CHECK(in<3,"texts that differ from a key in byte "<<at<<" of "<<k.size()<<" are taken for it");
    in=0; for(unsigned d=1;d<=4;++d) in+=f.contains(k+std::string(d,char(c+d))); CHECK(in<3,"longer texts are taken for a key of "<<k.size()<<" bytes"); }
}
// The bits of a combined filter are the bitwise combination of the operands' bits; filters of different shape are left alone.
FACET(table_algebra,1200){
  std::string pt; P p=gen_params(g,pt),q=p; g.show("parameters",pt); bool other=g.chance(1,4); if(other){ q.random_seed=p.random_seed^0x55555555ULL; if(g.flip()) q.projected_element_count=p.projected_element_count*3+50; q.compute_optimal_parameters(); } std::vector<Elem> pool; F a(p),b(q); size_t n=g.below(12),m=g.below(12); for(size_t i=0;i<n;++i) insert(a,gen_elem(g,pool),0); for(size_t i=0;i<m;++i) insert(b,gen_elem(g,pool),0);
  g.show("a",n); g.show("b",m); g.show("other",other); g.nt(n&&m); size_t sa=(size_t)(a.size()/8); auto bits=[](const F& f){ return std::string((const char*)f.table(),(size_t)(f.size()/8)); }; std::string A=bits(a),B=bits(b); const F a0(a);
  unsigned op=(unsigned)g.below(3); g.show("op",op); F r(a); switch(op){ case 0: r&=b; break; case 1: r|=b; break; default: r^=b; } std::string W=A; if(!other) for(size_t i=0;i<sa;++i) W[i]=op==0?A[i]&B[i]:op==1?A[i]|B[i]:A[i]^B[i];
  CHECK(bits(r)==W,"combined table"); F s=op==0?a&b:op==1?a|b:a^b; CHECK(bits(s)==W,"combined table (operator)"); CHECK(bits(a)==A&&bits(b)==B,"operands unchanged"); CHECK(a==a0,"operand unchanged");
  if(!other){ F x(a); x^=b; x^=b; CHECK(bits(x)==A,"difference undone"); x^=x; CHECK(bits(x)==std::string(sa,0),"difference with itself"); for(auto& e:pool) CHECK(!contains(x,e,0),"an empty table contains "<<et(e)); }
  std::vector<std::string> ks; for(size_t i=0,k=g.below(8);i<k;++i){ ks.push_back(g.text("abc",5)); if(g.flip()) a.insert(ks.back()); } size_t f0=0,f1=0; while(f0<ks.size()&&a.contains(ks[f0])) ++f0; while(f1<ks.size()&&!a.contains(ks[f1])) ++f1; CHECK_EQ((size_t)(a.contains_all(ks.begin(),ks.end())-ks.begin()),f0,"first key that is missing"); CHECK_EQ((size_t)(a.contains_none(ks.begin(),ks.end())-ks.begin()),f1,"first key that is contained");
}
