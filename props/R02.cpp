#define strtk_enable_regex
#define strtk_enable_random
#include <new>
// Failing allocations: while armed, the allocation number `at` (and, when `rest`, every one after it) throws std::bad_alloc.
namespace inject { static bool armed=false,rest=false; static unsigned long long at=0,made=0,failed=0;
  static bool fails(){ if(!armed) return false; unsigned long long i=made++; if(i==at||(rest&&i>at)){ ++failed; return true; } return false; }
  struct Arm { Arm(unsigned long long k,bool r){ at=k; rest=r; made=failed=0; armed=true; } ~Arm(){ armed=false; } };
  struct Pause { bool was; Pause():was(armed){ armed=false; } ~Pause(){ armed=was; } }; } // streams swallow exceptions; what the harness writes into its own is not disturbed
#define OPS_UNDISTURBED inject::Pause undisturbed;
#include "ops.hpp"
#include "gridmodel.hpp"
#include <map>
#include <new>
#include "plan.hpp"
static void* get(std::size_t n){ if(inject::fails()) throw std::bad_alloc(); void* p=malloc(n?n:1); if(!p) throw std::bad_alloc(); return p; }
void* operator new(std::size_t n){ return get(n); } void* operator new[](std::size_t n){ return get(n); }
void* operator new(std::size_t n,const std::nothrow_t&) noexcept { return inject::fails()?0:malloc(n?n:1); } void* operator new[](std::size_t n,const std::nothrow_t&) noexcept { return inject::fails()?0:malloc(n?n:1); }
void operator delete(void* p) noexcept { free(p); } void operator delete[](void* p) noexcept { free(p); } void operator delete(void* p,std::size_t) noexcept { free(p); } void operator delete[](void* p,std::size_t) noexcept { free(p); }
void operator delete(void* p,const std::nothrow_t&) noexcept { free(p); } void operator delete[](void* p,const std::nothrow_t&) noexcept { free(p); }
namespace pbt { const char* const property_id="R02";
const char* const rule_text="Operations: each of about sixty operations over generated input, run with the k-th allocation failing (that one or all from it on), for sampled k up to the number it makes. Objects: histories on prefix trees, bloom filters, token grids, key-value parsers, delimiter sets and binary readers in which any step may meet a failing allocation. Callbacks: operations with a callback, predicate or comparison that throws at its n-th call. Oracle: the exception reaches the caller or the result is that of an undisturbed run; no allocated byte and no descriptor stays behind; the objects involved can be used and destroyed afterwards and hold what they held before or what the operation would have given them; the operation repeated undisturbed gives its usual result. Non-trivial when at least one failure was delivered. Distinct by operations, inputs and failure points."; }
using pbt::G; typedef std::string Str; using model::Exact; using model::Grid; using model::GridCfg; using model::Table;
static const ops::Named all_ops[]={
#define O(n) {#n,ops::n}
OPS_LIST };
enum { OPS=sizeof(all_ops)/sizeof(all_ops[0]) };
using namespace plan;
static size_t bytes(){ return __sanitizer_get_current_allocated_bytes(); }
static void tidy(const Str& f){ for(const char* e:{".t",".u",".l",".p"}) unlink((f+e).c_str()); }
// f with the k-th allocation failing; true when an exception reached the caller
template<class F> static bool attempt(unsigned long long k,bool rest,F f){ bool thrown=false; try { inject::Arm a(k,rest); f(); } catch(const std::exception&){ thrown=true; } return thrown; }
static unsigned long long failures(){ return inject::failed; }
template<class F> static unsigned long long allocations(F f){ inject::Arm a(~0ull,false); f(); return inject::made; }

// Every operation of the catalogue, with one allocation or all from one on failing.
FACET(operations,3000){
  size_t op=g.below(OPS); ops::In x=ops::gen_in(g); g.note(all_ops[op].name); g.show("text",x.s); g.show("delims",x.d); x.file=pbt::scratch("o"); auto run=[&]{ return all_ops[op].op(x); };
  const Str want=run(); unsigned long long n=allocations([&]{ run(); }); g.show("allocations",n); bool hit=false;
  for(size_t r=0;r<4;++r){ unsigned long long k=g.below(n+1); bool rest=g.chance(1,4); g.show("failing",k); g.show("and all later",rest);
    Str got; bool thrown=attempt(k,rest,[&]{ got=run(); }); tidy(x.file); Str().swap(got); size_t a=bytes(); int d=lowest_fd();
    thrown=attempt(k,rest,[&]{ got=run(); }); unsigned long long f=failures(); hit=hit||f; tidy(x.file); if(thrown) Str().swap(got); Str res=got; Str().swap(got); Str keep; keep.swap(res); bool same=thrown||keep==want; Str shown=pbt::quote(keep.substr(0,200)); Str().swap(keep); size_t heap=shown.capacity()>15?shown.capacity()+1:0;
    size_t b=bytes()-heap; int e=lowest_fd();
    CHECK(a==b,all_ops[op].name<<": "<<(long long)(b-a)<<" bytes stay behind"); CHECK_EQ(e,d,all_ops[op].name<<": descriptors stay behind"); g.label(f?(thrown?"passed on":"absorbed"):"not reached");
    CHECK(same,all_ops[op].name<<": no exception, but the result is "<<shown<<" instead of "<<pbt::quote(want.substr(0,200))); }
  CHECK_EQ(run(),want,all_ops[op].name<<" afterwards"); g.nt(hit);
}
// Prefix trees: any step of a history may fail.
FACET(prefix_trees,2000){
  Plan p(g,30+g.below(60),2,"abc"); size_t n=2+g.len(20),hits=0; g.show("steps",n);
  balance(p,"prefix tree",[&](Plan& q){ typedef strtk::trie::prefix<Str::const_iterator,Str> T; std::vector<std::unique_ptr<T> > t; std::vector<std::map<Str,Str> > m; t.reserve(8); m.reserve(8); t.emplace_back(new T()); m.resize(1); hits=0;
    auto key=[&]{ Str k; size_t l=1+q.below(5); for(size_t i=0;i<l;++i) k+="abc"[q.below(3)]; return k; };
    auto see=[&](size_t i){ for(auto& e:m[i]){ Str v="none"; const Str& k=e.first; CHECK(t[i]->find(k.begin(),k.end(),v),"key "<<k<<" is lost"); CHECK_EQ(v,e.second,"value of "<<k); } for(int z=0;z<3;++z){ const Str k=key(); Str v; if(!m[i].count(k)) CHECK(!t[i]->find(k.begin(),k.end(),v),"key "<<k<<" was never inserted"); } };
    for(size_t s=0;s<n;++s){ size_t i=q.below(t.size()),j=q.below(t.size()); unsigned long long k=q.below(12); bool rest=q.chance(1,4); const Str w=key(); const Str v(20+q.below(20),(char)('A'+q.below(26)));
      switch(q.below(5)){
        case 0: { if(t.size()>5) break; T* c=0; bool th=attempt(k,rest,[&]{ c=new T(*t[i]); }); hits+=th; if(!th){ t.emplace_back(c); std::map<Str,Str> y=m[i]; m.push_back(y); see(t.size()-1); } break; }
        case 1: { bool th=attempt(k,rest,[&]{ *t[i]=*t[j]; }); hits+=th; if(!th){ std::map<Str,Str> y=m[j]; m[i]=y; } see(i); see(j); break; }
        default: { bool th=attempt(k,rest,[&]{ t[i]->insert(w.begin(),w.end(),v); }); hits+=th; if(th){ Str got; bool f=t[i]->find(w.begin(),w.end(),got); if(m[i].count(w)) CHECK(f&&(got==v||got==m[i][w]),"the key whose insertion failed"); else CHECK(!f||got==v,"the key whose insertion failed"); if(f) m[i][w]=got; } else m[i][w]=v; see(i); } } } });
  g.nt(hits);
}
// Bloom filters: copies, assignments, compressions, storing and loading may fail.
FACET(bloom_filters,2000){
  Plan p(g,30+g.below(40),1+g.below(6)); size_t n=2+g.len(16),hits=0; g.show("steps",n); const Str f=pbt::scratch("b");
  balance(p,"bloom filter",[&](Plan& q){ typedef strtk::bloom::filter F; typedef strtk::bloom::compressible_filter C; typedef std::set<Str> S; hits=0;
    auto par=[&]{ strtk::bloom::parameters r; r.projected_element_count=1+q.below(60); r.false_positive_probability=q.flip()?0.2:0.01; r.random_seed=77; r.compute_optimal_parameters(); return r; };
    std::vector<std::unique_ptr<F> > a; std::vector<std::unique_ptr<C> > c; std::vector<S> ma,mc; a.reserve(8); c.reserve(8); ma.reserve(8); mc.reserve(8); a.emplace_back(new F(par())); c.emplace_back(new C(par())); ma.resize(1); mc.resize(1);
    auto see=[&]{ for(size_t i=0;i<a.size();++i) for(auto& s:ma[i]) CHECK(a[i]->contains(s),"an inserted element is forgotten"); for(size_t i=0;i<c.size();++i) for(auto& s:mc[i]) CHECK(c[i]->contains(s),"an inserted element is forgotten (compressible)"); };
    for(size_t s=0;s<n;++s){ size_t i=q.below(a.size()),j=q.below(a.size()),x=q.below(c.size()),y=q.below(c.size()); unsigned long long k=q.below(5); bool rest=q.chance(1,4),th=false; const Str& t=q.text();
      switch(q.below(9)){
        case 0: { if(a.size()>5) break; F* z=0; th=attempt(k,rest,[&]{ z=new F(*a[i]); }); if(!th){ a.emplace_back(z); S o=ma[i]; ma.push_back(o); } break; }
        case 1: { if(a.size()>5) break; strtk::bloom::parameters r=par(); F* z=0; th=attempt(k,rest,[&]{ z=new F(r); }); if(!th){ a.emplace_back(z); ma.push_back(S()); } break; }
        case 2: { if(c.size()>5) break; C* z=0; strtk::bloom::parameters r=par(); bool copy=q.flip(); th=attempt(k,rest,[&]{ z=copy?new C(*c[x]):new C(r); }); if(!th){ c.emplace_back(z); S o=copy?mc[x]:S(); mc.push_back(o); } break; }
        case 3: { th=attempt(k,rest,[&]{ *a[i]=*a[j]; }); if(!th){ S o=ma[j]; ma[i]=o; } break; }
        case 4: { th=attempt(k,rest,[&]{ *c[x]=*c[y]; }); if(!th){ S o=mc[y]; mc[x]=o; } break; }
        case 5: { th=attempt(k,rest,[&]{ c[x]->compress(10+q.below(60)); }); break; }
        case 6: { bool w=false; if(!a[i]->write_to_file(f)) break; th=attempt(k,rest,[&]{ w=a[j]->read_from_file(f); }); if(!th&&w){ S o=ma[i]; ma[j]=o; } else { F z(par()); *a[j]=z; ma[j].clear(); } break; } // a refused load leaves an empty filter
        case 7: { th=attempt(k,rest,[&]{ a[i]->write_to_file(f); }); break; }
        default: a[i]->insert(t); ma[i].insert(t); c[x]->insert(t); mc[x].insert(t); }
      hits+=th; see(); }
    unlink(f.c_str()); });
  g.nt(hits);
}
// Token grids: a failed load or edit leaves a grid that can be walked, reloaded and released.
struct Short { bool operator()(const Grid::range_t& r) const { return r.second-r.first<2; } };
struct FewTokens { bool operator()(const Grid::row_type& r) const { return r.size()<2; } };
static void walk(Grid& t,const Str& text){ size_t sum=0; for(size_t i=0;i<t.row_count();++i){ Grid::row_type r=t.row(i); for(size_t j=0;j<r.size();++j){ Str k=model::str(r.token(j)); CHECK(text.find(k)!=Str::npos,"token "<<pbt::quote(k)<<" is not of the text"); sum+=k.size(); } } CHECK(sum<=text.size(),"tokens overlap"); }
static Str many(Plan& q){ const Str& t=q.text(); size_t n=q.chance(1,3)?1+q.below(40):1; Str o; for(size_t i=0;i<n;++i) o+=t; return o; }
FACET(grids,2000){
  Plan p(g,30+g.below(40),1+g.below(5),"ab,1;\n\n,,=|\x80"); size_t n=2+g.len(12),hits=0; g.show("steps",n); const Str f=pbt::scratch("g");
  balance(p,"token grid",[&](Plan& q){ hits=0; Str text=q.text(); std::unique_ptr<Grid> t(new Grid()); std::vector<std::unique_ptr<Exact> > keep; keep.reserve(64); GridCfg c; c.mode=model::PLAIN; Table want; bool known=false;
    for(size_t s=0;s<n;++s){ unsigned long long k=q.below(24); bool rest=q.chance(1,4),th=false; c.mode=q.flip()?model::COMPRESS:model::PLAIN; Grid::options o=c.opt(); size_t what=q.below(10); bool edit=what>4; Table held=model::dump(*t);
      switch(what){
        case 0: case 1: { const Str x=many(q); keep.emplace_back(new Exact(x)); Exact& e=*keep.back(); bool ok=false; th=attempt(k,rest,[&]{ ok=t->load((unsigned char*)e.p,e.n,o); }); text=th?text+'\x01'+x:x; if(!th){ want=model::table_of(x,c); known=ok; if(!ok) want.clear(); } else known=false; break; }
        case 2: { const Str x=many(q); { std::ofstream z(f.c_str(),std::ios::binary); z<<x; } bool ok=false; th=attempt(k,rest,[&]{ ok=t->load(f,o); }); text=th?text+'\x01'+x:x; if(!th){ want=model::table_of(x,c); known=ok; } else known=false; break; }
        case 3: { const Str x=many(q); { std::ofstream z(f.c_str(),std::ios::binary); z<<x; } Grid* z=0; th=attempt(k,rest,[&]{ z=new Grid(f,o); }); if(!th){ t.reset(z); text=x; want=model::table_of(x,c); known=!x.empty(); } break; }
        case 4: { const Str x=many(q); keep.emplace_back(new Exact(x)); Exact& e=*keep.back(); Grid* z=0; th=attempt(k,rest,[&]{ z=new Grid((unsigned char*)e.p,e.n,o); }); if(!th){ t.reset(z); text=x; want=model::table_of(x,c); known=true; } break; }
        case 5: th=attempt(k,rest,[&]{ t->remove_token_if(t->all_rows(),Short()); }); known=false; break;
        case 6: th=attempt(k,rest,[&]{ t->remove_row_if(FewTokens()); }); known=false; break;
        case 7: { size_t w=q.below(4); th=attempt(k,rest,[&]{ t->enforce_column_count(w); }); known=false; break; }
        case 8: { size_t r=q.below(t->row_count()+1); if(r<t->row_count()){ th=attempt(k,rest,[&]{ t->remove_row(r); }); known=false; } break; }
        default: { std::vector<Str> v; Str j; if(t->row_count()) th=attempt(k,rest,[&]{ t->join_row(0,"-",j); t->extract_column(0,strtk::back_inserter_with_valuetype(v)); }); } }
      hits+=th; walk(*t,text); if(th&&edit) CHECK(model::dump(*t)==held,"an edit that failed changed the grid"); if(known) CHECK(model::dump(*t)==want,"the grid does not hold its text"); }
    t.reset(); unlink(f.c_str()); });
  g.nt(hits);
}
// Key-value parsers, holders, sinks and delimiter sets.
FACET(parsers,1500){
  Plan p(g,30+g.below(30),4,"ab1=;,"); size_t n=2+g.len(10),hits=0; g.show("steps",n);
  balance(p,"key-value parser",[&](Plan& q){ hits=0; strtk::keyvalue::options<unsigned char> o; o.pair_block_delimiter=';'; o.pair_delimiter='='; typedef strtk::keyvalue::parser<strtk::keyvalue::stringkey_map> P; P kv(o); std::vector<Str> names; std::deque<Str> got; names.reserve(20);
    for(size_t s=0;s<n;++s){ unsigned long long k=q.below(8); bool rest=q.chance(1,4),th=false; Str name=Str(18,'k')+(char)('a'+s%20); got.push_back("unset"); Str& target=got.back();
      th=attempt(k,rest,[&]{ kv.register_keyvalue(name,target); }); hits+=th; if(th) kv.register_keyvalue(name,target); names.push_back(name);
      Str in; for(size_t i=0;i<names.size();++i) in+=names[i]+"="+Str(20,(char)('a'+q.below(26)))+std::to_string(i)+";"; k=q.below(12); th=attempt(k,rest,[&]{ kv(in,true); }); hits+=th;
      CHECK(kv(in,true),"a parse after a failed one"); size_t at=0; for(size_t i=0;i<names.size();++i){ at=in.find('=',at)+1; CHECK_EQ(got[i],in.substr(at,in.find(';',at)-at),"value of key "<<i); } } });
  balance(p,"holders",[&](Plan& q){ Str a="first value, on the heap..............",b="second value, on the heap.............."; std::vector<int> list; strtk::util::value va(a),vb(b); for(size_t s=0;s<n;++s){ unsigned long long k=q.below(4); Str t(20+(q.flip()?40*(s+1):0)+q.below(9),(char)('a'+q.below(26))),was=a; bool ok=false; bool th=attempt(k,false,[&]{ strtk::util::value w(va); w=vb; w=va; ok=w(t); }); hits+=th; CHECK(th?(a==was||a==t):ok&&a==t,"a holder's variable"); Str back; CHECK(va.to_string(back)&&back==a,"a holder reports its variable"); strtk::util::value c(vb); CHECK(c==vb&&!(c==va),"bindings"); } });
  balance(p,"delimiter set",[&](Plan& q){ for(size_t s=0;s<n;++s){ std::vector<Str> d; size_t c=q.chance(1,3)?40:q.below(8); for(size_t i=0;i<c;++i) d.push_back(Str(20,'d')+std::to_string(i)); unsigned long long k=q.below(c+2); typedef strtk::multiple_delimiter_predicate<Str> D; std::unique_ptr<D> m; bool th=attempt(k,false,[&]{ m.reset(q.flip()?new D(d.begin(),d.end()):new D(d.data(),d.size())); }); hits+=th; if(!th) for(auto& x:d) CHECK((*m)(x),"a delimiter"); } });
  g.nt(hits);
}
// Binary readers: a read that fails for want of memory leaves a reader that can go on.
FACET(readers,1500){
  Plan p(g,30+g.below(30),3); size_t n=1+g.len(8),hits=0; g.show("steps",n);
  balance(p,"binary reader",[&](Plan& q){ hits=0; for(size_t s=0;s<n;++s){ std::vector<Str> v; size_t c=q.below(6); for(size_t i=0;i<c;++i) v.push_back(Str(16+q.below(20),(char)('a'+i))); Str t(30,'t'); std::vector<double> raw(q.below(9),1.5); Str b(4096,'\0'); strtk::binary::writer w(&b[0],b.size()); const double* rp=raw.data(); CHECK(w(v)&&w(t)&&w(rp,(unsigned)raw.size(),true),"written");
      Exact x(b.substr(0,w.position())); strtk::binary::reader r(x.p,x.n); unsigned long long k=q.below(12); bool rest=q.flip(); double* block=0; unsigned bn=0; std::list<Str> l; std::set<Str> u; Str tt; bool set=q.flip();
      bool th=attempt(k,rest,[&]{ bool ok=(set?r(u):r(l))&&r(tt)&&r(block,bn); (void)ok; }); hits+=th; delete[] block; block=0; CHECK(r.position()<=x.n,"position");
      r.reset(); l.clear(); u.clear(); CHECK((set?r(u):r(l))&&r(tt)&&r(block,bn),"read again"); CHECK_EQ(r.position(),x.n,"position"); CHECK(set?u==std::set<Str>(v.begin(),v.end()):std::vector<Str>(l.begin(),l.end())==v,"values"); CHECK_EQ(tt,t,"text"); CHECK(std::vector<double>(block,block+raw.size())==raw,"block"); delete[] block; } });
  g.nt(hits);
}
// Callbacks and predicates that throw at their n-th call.
struct Stop : std::exception {};
struct Thrower { Str* seen; long long* left; bool answer; void hit(const Str& s) const { if((*left)--==0) throw Stop(); *seen+="["+s+"]"; } void operator()(const Str& s) const { hit(s); } template<class I> void operator()(const std::pair<I,I>& r) const { hit(Str(r.first,r.second)); } template<class I> bool operator()(I a,I b) const { hit(Str(a,b)); return true; } };
struct PredThrower { Str* seen; long long* left; bool operator()(char c) const { if((*left)--==0) throw Stop(); *seen+=c; return c=='a'||c==','; } bool operator()(char a,char b) const { if((*left)--==0) throw Stop(); *seen+=a; *seen+=b; return a==b; } };
struct RowThrower { Str* seen; long long* left; bool operator()(const Grid::row_type& r) const { if((*left)--==0) throw Stop(); Str o; for(size_t c=0;c<r.size();++c) o+=r.get<Str>(c)+","; *seen+=o+"/"; return r.size()<2; } };
struct TokThrower { Str* seen; long long* left; bool operator()(const Grid::range_t& r) const { if((*left)--==0) throw Stop(); *seen+=Str(r.first,r.second)+"/"; return r.second-r.first<2; } };
static void with(size_t kind,const ops::In& x,Thrower f){ const Str& s=x.s; Str* seen=f.seen; long long* left=f.left;
  switch(kind){
    case 0: strtk::split(strtk::multiple_char_delimiter_predicate(x.d),s,strtk::functional_inserter(f)); break; case 1: strtk::for_each_token(s,x.d,f); break; case 2: { std::istringstream i(s); strtk::for_each_line(i,f); break; }
    case 3: { Str p=s.substr(0,5),q=p; try { strtk::for_each_combination(p.begin(),p.end(),std::min<size_t>(2,p.size()),f); } catch(...){ std::sort(p.begin(),p.end()); std::sort(q.begin(),q.end()); CHECK_EQ(p,q,"the sequence's elements"); throw; } break; }
    case 4: { Str p=s.substr(0,4),q=p; try { strtk::for_each_permutation(p.begin(),p.end(),f); } catch(...){ std::sort(p.begin(),p.end()); std::sort(q.begin(),q.end()); CHECK_EQ(p,q,"the sequence's elements"); throw; } break; }
    case 5: case 6: case 7: case 8: { Exact e(s); GridCfg c; c.rd=";"; Grid t((unsigned char*)e.p,e.n,c.opt()); Str none; RowThrower r={seen,left}; TokThrower k={seen,left}; try { if(kind==5) t.for_each_row(r); else if(kind==6) t.remove_row_if(r); else if(kind==7) t.remove_token_if(t.all_rows(),k); else if(t.row_count()) t.row(0).for_each_column(f); } catch(...){ walk(t,s); CHECK(model::dump(t)==model::table_of(s,c),"an edit that failed changed the grid"); Exact e2(x.d+"1;2,3"); CHECK(t.load((unsigned char*)e2.p,e2.n,c.opt()),"reloads"); CHECK(model::dump(t)==model::table_of(e2.str(),c),"the reloaded grid"); throw; } break; }
    case 9: { strtk::util::semantic_action_impl a=strtk::util::semantic_action(f); Str t,u; strtk::parse(s,x.d,a,t,u); break; }
    case 10: { strtk::keyvalue::options<unsigned char> o; o.pair_block_delimiter=(unsigned char)x.d[0]; o.pair_delimiter='='; strtk::keyvalue::parser<strtk::keyvalue::stringkey_map> p(o); strtk::util::semantic_action_impl a=strtk::util::semantic_action(f); Str b; p.register_keyvalue("a",a); p.register_keyvalue("b",b); Str good=Str("b=x")+x.d[0]; try { p(s,true); } catch(...){ CHECK(p(good,true)&&b=="x","the parser afterwards"); throw; } break; }
    case 11: strtk::split_regex("[0-9]+",s,strtk::functional_inserter(f)); break;
    case 12: { Str n=x.file+".t"; strtk::fileio::write_file(n,s); strtk::for_each_line(n,f); break; }
    case 13: { PredThrower p={seen,left}; std::vector<ops::R> v; strtk::split(p,s.data(),s.data()+s.size(),std::back_inserter(v)); break; }
    case 14: { PredThrower p={seen,left}; Str t=s; strtk::remove_inplace(p,t); break; }
    case 15: { PredThrower p={seen,left}; Str t=s,o; strtk::remove_consecutives_inplace(p,t); strtk::remove_trailing(p,&t[0],&t[0]+t.size()); break; }
    case 16: { strtk::filter_on_wildcard_match<Thrower> w("*1*",f); std::vector<Str> v; strtk::parse(s,x.d,v); for(auto& k:v) w(k); break; }
    default: { PredThrower p={seen,left}; std::vector<ops::R> v; strtk::split_on_consecutive((size_t)2,p,s.data(),s.data()+s.size(),std::back_inserter(v)); } } }
FACET(callbacks,4000){
  ops::In x=ops::gen_in(g); size_t kind=g.below(18); g.show("kind",kind); g.show("text",x.s); g.show("delims",x.d); x.file=pbt::scratch("c"); Str all; long long big=1ll<<40,left=big; Thrower f={&all,&left,true}; with(kind,x,f); long long calls=big-left; g.show("calls",calls); g.nt(calls>0);
  for(size_t r=0;r<3;++r){ long long k=(long long)g.below((size_t)calls+1); g.show("throws at",k); size_t a=0; int d=0; Str seen; for(int round=0;round<2;++round){ Str().swap(seen); if(round){ a=bytes(); d=lowest_fd(); } left=k; Thrower t={&seen,&left,true}; bool th=false; try { with(kind,x,t); } catch(const Stop&){ th=true; } tidy(x.file); CHECK_EQ(th,k<calls,"the exception reaches the caller"); }
    size_t heap=seen.capacity()>15?seen.capacity()+1:0,b=bytes()-heap; CHECK(a==b,(long long)(b-a)<<" bytes stay behind"); CHECK_EQ(lowest_fd(),d,"descriptors stay behind"); CHECK(all.compare(0,seen.size(),seen)==0,"what the callback was given: "<<pbt::quote(seen)<<" and undisturbed "<<pbt::quote(all)); }
}
