#include "gridmodel.hpp"
#include "faults.hpp"
#include <map>
#include "plan.hpp"
namespace pbt { const char* const property_id="R01";
const char* const rule_text="A generated history of operations on a component that owns storage or files (token grid, prefix tree, bloom filters, delimiter sets, reader blocks, combination counts, containers of pointers, key-value parsers, holders and adapters, file and text helpers), failing operations included: loads of missing, empty, truncated and unreadable files, refused reads, full devices. The history is run twice from construction to destruction. Oracle: the second run leaves exactly as many allocated bytes (the sanitizer allocator's count) and open descriptors as before, every counted object is destroyed exactly once, buffers of the caller are untouched and still the caller's; AddressSanitizer rejects any double release. Non-trivial: at least two operations, one of which allocates. Distinct by history."; }
using namespace model; using pbt::G; typedef std::string Str;
using namespace plan;
static Str path(const char* n){ return pbt::scratch(n); }
static void put(const Str& f,const Str& s){ FILE* o=fopen(f.c_str(),"wb"); if(!o) return; if(!s.empty()) fwrite(s.data(),1,s.size(),o); fclose(o); }
struct TokOne { bool operator()(const Grid::range_t& r) const { return (r.second-r.first)==1; } };
struct RowOne { bool operator()(const Grid::row_type& r) const { return r.size()<2; } };
struct Nothing { template<class T> void operator()(const T&) const {} };
FACET(grid,1500){
  Plan p(g,12+g.below(40),1+g.below(5)); g.nt(); const Str f=path("g"),no=path("none"); size_t n=2+g.below(12); g.show("ops",n);
  balance(p,"token grid",[&](Plan& q){
    std::vector<std::unique_ptr<Exact> > keep; std::vector<Str> was; std::unique_ptr<Grid> t;
    auto fresh=[&]{ const Str& s=q.text(); switch(q.below(4)){ case 0: t.reset(new Grid()); break; case 1: put(f,s); t.reset(new Grid(f,",","\n")); break; case 2: keep.push_back(std::unique_ptr<Exact>(new Exact(s))); was.push_back(s); t.reset(new Grid(keep.back()->b(),s.size(),",","\n")); break; default: t.reset(new Grid(no,",","\n")); } };
    fresh();
    for(size_t i=0;i<n;++i){ Grid::options o(strtk::split_options::compress_delimiters,strtk::split_options::compress_delimiters,"\n",q.flip()?",":" ;"); const Str& s=q.text();
      switch(q.below(12)){
        case 0: put(f,s); t->load(f,o); break; case 1: unlink(f.c_str()); t->load(f,o); break; case 2: put(f,""); t->load(f,o); break;
        case 3: { put(f,s); faults::ReadFault r(q.below(s.size()+1)); t->load(f,o); break; }
        case 4: keep.push_back(std::unique_ptr<Exact>(new Exact(s))); was.push_back(s); t->load((unsigned char*)keep.back()->p,s.size(),o); break;
        case 5: t->clear(); break; case 6: { unsigned char* b=new unsigned char[s.size()+1]; memcpy(b,s.data(),s.size()); t.reset(new Grid(b,s.size(),o)); t->clear(true); break; }
        case 7: t->remove_row(q.below(t->row_count()+1)); break; case 8: t->remove_row_if(RowOne()); break; case 9: t->remove_token_if(t->all_rows(),TokOne()); break; case 10: fresh(); break;
        default: { Nothing z; t->for_each_row(z); Str out; t->join_row(0,"-",out); t->enforce_column_count(q.below(4)); } } }
    t.reset(); for(size_t i=0;i<keep.size();++i) CHECK_EQ(keep[i]->str(),was[i],"the caller's buffer");
    unlink(f.c_str()); });
}
// every payload counts itself
struct Counted { static long long live; Str s; Counted():s("payload of some length, on the heap"){ ++live; } explicit Counted(const Str& x):s(x+"............................"){ ++live; } Counted(const Counted& c):s(c.s){ ++live; } Counted& operator=(const Counted& c){ s=c.s; return *this; } ~Counted(){ --live; } };
long long Counted::live=0;
FACET(prefix_tree,1500){
  Plan p(g,12+g.below(40),1+g.below(12),"ab\x80"); g.nt(); size_t n=2+g.below(30); g.show("ops",n); long long live=Counted::live;
  balance(p,"prefix tree",[&](Plan& q){
    typedef strtk::trie::prefix<Str::const_iterator,Counted> T; std::vector<std::unique_ptr<T> > v; v.emplace_back(new T());
    for(size_t i=0;i<n;++i){ T& t=*v[q.below(v.size())]; const Str& s=q.text(); switch(q.below(8)){ case 0: v.emplace_back(new T(t)); break; case 1: *v[q.below(v.size())]=t; break; case 2: if(v.size()>1) v.erase(v.begin()+q.below(v.size())); break; case 3: { Counted c; t.find(s.begin(),s.end(),c); t.find_prefix(s.begin(),s.end()); break; } default: t.insert(s.begin(),s.end(),Counted(s)); } } });
  CHECK_EQ(Counted::live,live,"payloads alive");
}
FACET(bloom_filters,1200){
  Plan p(g,12+g.below(40),1+g.below(6)); g.nt(); size_t n=2+g.below(16); g.show("ops",n); const Str f=path("b"),no=path("none");
  balance(p,"bloom filter",[&](Plan& q){
    typedef strtk::bloom::filter F; typedef strtk::bloom::compressible_filter C;
    auto par=[&]{ strtk::bloom::parameters r; r.projected_element_count=1+q.below(60); r.false_positive_probability=q.flip()?0.2:0.01; r.random_seed=77; r.compute_optimal_parameters(); return r; };
    std::vector<std::unique_ptr<F> > a; std::vector<std::unique_ptr<C> > c; a.emplace_back(new F(par())); c.emplace_back(new C(par()));
    for(size_t i=0;i<n;++i){ F& x=*a[q.below(a.size())]; C& y=*c[q.below(c.size())]; const Str& s=q.text();
      switch(q.below(14)){
        case 0: a.emplace_back(q.flip()?new F(x):new F(par())); break; case 1: c.emplace_back(q.flip()?new C(y):new C(par())); break; case 2: *a[q.below(a.size())]=x; break; case 3: *c[q.below(c.size())]=y; break;
        case 4: x|=*a[q.below(a.size())]; x&=*a[q.below(a.size())]; x^=*a[q.below(a.size())]; break; case 5: y.compress(1+q.below(120)); break; case 6: x.clear(); break;
        case 7: x.write_to_file(f); break; case 8: x.read_from_file(f); break; case 9: y.read_from_file(q.flip()?f:no); break;
        case 10: { x.write_to_file(f); Str z; strtk::fileio::load_file(f,z); z.resize(q.below(z.size()+1)); put(f,z); a[0]->read_from_file(f); break; }
        case 11: { faults::ReadFault r(q.below(100)); x.read_from_file(f); break; } case 12: { faults::WriteLimit l(q.below(60)); x.write_to_file(f); break; }
        default: x.insert(s); y.insert(s); x.contains(s); } }
    unlink(f.c_str()); });
}
FACET(delimiter_sets,1200){
  Plan p(g,10+g.below(20),1+g.below(5)); g.nt(); size_t n=1+g.below(5); g.show("ops",n);
  balance(p,"delimiter set",[&](Plan& q){
    for(size_t i=0;i<n;++i){ size_t k=q.below(3)?28+q.below(10):q.below(90); const Str& s=q.text(); std::vector<Str> d; std::vector<int> e; Str c; for(size_t j=0;j<k;++j){ d.push_back(Str(30,'d')+std::to_string(j)); e.push_back((int)j); c+=(char)(j+33); }
      switch(q.below(6)){
        case 0: { strtk::multiple_delimiter_predicate<Str> m(d.begin(),d.end()); m(s); break; } case 1: { strtk::multiple_delimiter_predicate<int> m(e.data(),e.size()); m(7); break; }
        case 2: { strtk::multiple_delimiter_predicate<char> m(c.data(),c.data()+c.size()); std::vector<Str> o; strtk::split(m,s,strtk::range_to_type_back_inserter(o)); break; }
        case 3: { strtk::multiple_delimiter_predicate<char> m(c.begin(),c.end()); std::deque<Str> o; strtk::split_n(m,s,2,strtk::range_to_type_back_inserter(o)); break; }
        case 4: { strtk::multiple_char_delimiter_predicate m(c); std::list<Str> o; strtk::split(m,s,strtk::range_to_type_back_inserter(o)); break; }
        default: { strtk::range::adapter<char> r(&c[0],&c[0]+c.size()); strtk::multiple_delimiter_predicate<char> m(r); strtk::std_string::tokenizer<strtk::multiple_delimiter_predicate<char> >::type t(s,m); size_t z=0; for(auto it=t.begin();it!=t.end();++it) ++z; } } } });
}
template<class T> static void block(Plan& q,size_t k,size_t cut){
  std::vector<T> v(k); Str b(8+k*sizeof(T),'\0'); strtk::binary::writer w(&b[0],b.size()); const T* d=v.data(); w(d,(unsigned int)k,true); b.resize(cut%(w.position()+1)); bool whole=b.size()==w.position(); Exact x(b); strtk::binary::reader r(x.p,x.n); T* t=0; bool ok; if(q.flip()){ unsigned int n=0; ok=r(t,n); if(ok) CHECK_EQ((size_t)n,k,"length"); } else { unsigned long long n=0; ok=r(t,n); if(ok) CHECK_EQ((size_t)n,k,"length"); }
  CHECK_EQ(ok,whole,"outcome"); CHECK_EQ(t!=0,ok,"a block is handed over exactly when it was read"); delete[] t;
}
FACET(reader_blocks,1500){
  Plan p(g,6,0); size_t k=g.len(30); if(!k) k=1; size_t cut=g.chance(1,3)?4+k*g.pick<size_t>({1,2,8}):g.below(300),ty=g.below(4); g.show("elements",k); g.show("cut",cut); g.nt();
  balance(p,"reader",[&](Plan& q){ switch(ty){ case 0: block<char>(q,k,cut); break; case 1: block<unsigned short>(q,k,cut); break; case 2: block<double>(q,k,cut); break; default: block<long long>(q,k,cut); }
    strtk::binary::reader none((char*)0,0); std::vector<Str> vs; none(vs); Exact x(Str("\x03\0\0\0\x02\0\0\0ab\x7f\0\0\0zz",16)); strtk::binary::reader r(x.p,x.n); std::vector<Str> v; r(v); strtk::binary::reader s(x.p,x.n); std::list<std::pair<Str,Str> > l; s(l); });
}
FACET(combination_counts,300){
  Plan p(g,4,0); unsigned long long n=g.flip()?g.below(180):100+g.below(4),k=g.below(n+2); g.show("n",n); g.show("k",k); g.nt(n>100);
  balance(p,"n_choose_k",[&](Plan&){ unsigned long long r=strtk::n_choose_k(n,k); if(k==1) CHECK_EQ(r,n,"n choose 1"); std::vector<int> v; strtk::nth_combination_sequence(3,8,3,std::back_inserter(v)); Str s="abcdefg"; std::vector<Str> o; strtk::combination_iterator<Str::iterator> it(3,s); for(int j=0;j<4;++j,++it) o.push_back(Str((*it).first,(*it).second)); });
}
template<class C> static void drop(C& c,bool all){ struct Q { bool operator()(const Counted* x) const { return x->s.size()%2; } }; if(!all) strtk::util::delete_if(Q(),c); strtk::util::delete_all(c); CHECK(c.empty(),"the container is empty"); }
template<class C> static void drop_map(C& c,bool all){ struct Q { bool operator()(const typename C::value_type& x) const { return x.second->s.size()%2; } }; if(!all) strtk::util::delete_if(Q(),c); strtk::util::delete_all(c); CHECK(c.empty(),"the container is empty"); }
FACET(pointer_containers,1200){
  Plan p(g,3,1+g.below(9)); size_t n=g.len(20),ty=g.below(7); bool all=g.flip(); g.show("elements",n); g.show("container",ty); g.show("all at once",all); g.nt(n>1); long long live=Counted::live;
  balance(p,"container of pointers",[&](Plan& q){ switch(ty){
    case 0: { std::vector<Counted*> c; for(size_t i=0;i<n;++i) c.push_back(new Counted(q.text())); drop(c,all); break; } case 1: { std::deque<Counted*> c; for(size_t i=0;i<n;++i) c.push_back(new Counted(q.text())); drop(c,all); break; } case 2: { std::list<Counted*> c; for(size_t i=0;i<n;++i) c.push_back(new Counted(q.text())); drop(c,all); break; }
    case 3: { std::set<Counted*> c; for(size_t i=0;i<n;++i) c.insert(new Counted(q.text())); drop(c,all); break; } case 4: { std::multiset<Counted*> c; for(size_t i=0;i<n;++i) c.insert(new Counted(q.text())); drop(c,all); break; }
    case 5: { std::map<size_t,Counted*> c; for(size_t i=0;i<n;++i) c[i]=new Counted(q.text()); drop_map(c,all); break; } default: { std::multimap<size_t,Counted*> c; for(size_t i=0;i<n;++i) c.insert(std::make_pair(i%3,new Counted(q.text()))); drop_map(c,all); } } });
  CHECK_EQ(Counted::live,live,"objects alive");
}
FACET(key_values,800){
  Plan p(g,10+g.below(20),1+g.below(6),"ab=|1,"); size_t n=1+g.below(6); g.show("ops",n); g.nt();
  balance(p,"key-value parser",[&](Plan& q){ namespace kv=strtk::keyvalue; kv::options<unsigned char> o; o.pair_block_delimiter='|'; o.pair_delimiter='='; typedef kv::parser<kv::key_map<Str> > P; std::unique_ptr<P> x(new P(o)); int i=0; Str s; std::vector<int> v; std::set<Str> st; strtk::vector_sink<int>::type vs(","); strtk::set_sink<Str>::type ss(","); vs(v); ss(st); strtk::util::attribute<int> at;
    for(size_t k=0;k<n;++k) switch(q.below(7)){ case 0: x->register_keyvalue("a",i); break; case 1: x->register_keyvalue("b",s); break; case 2: x->register_keyvalue("ab",vs); break; case 3: x->register_keyvalue("1",ss); break; case 4: x->register_keyvalue("ba",at); break; case 5: x.reset(new P(o)); break; default: (*x)(q.text()); } (*x)(q.text()); });
}
struct Fun { Str s; bool operator()(const unsigned char* a,const unsigned char* b) const { return a!=b||!s.empty(); } };
FACET(holders,1000){
  Plan p(g,10+g.below(30),1+g.below(6)); size_t n=2+g.below(14); g.show("ops",n); g.nt();
  balance(p,"holder",[&](Plan& q){ typedef strtk::util::value V; int i=0; Str s; double d=0; std::vector<int> v; strtk::vector_sink<int>::type vs(","); vs(v); std::vector<V> h; h.emplace_back(s); Fun f={Str(60,'f')}; strtk::util::semantic_action_impl a=strtk::util::semantic_action(f),b(a); strtk::util::attribute<Str> at,au;
    for(size_t k=0;k<n;++k){ V& x=h[q.below(h.size())]; const Str& t=q.text(); switch(q.below(9)){ case 0: h.emplace_back(x); break; case 1: h[q.below(h.size())]=x; break; case 2: x.assign(s); break; case 3: x.assign(i); break; case 4: x.assign(d); break; case 5: x(t); break; case 6: { Str o; x.to_string(o); break; } case 7: { at=t; au=at; strtk::util::scoped_restore<Str> keep(s); s=t+Str(40,'x'); break; } default: b(t.data(),t.data()+t.size()); strtk::parse(t,",",x,vs); } } });
}
FACET(texts_and_files,1200){
  Plan p(g,10+g.below(30),1+g.below(6)); size_t n=1+g.below(8); g.show("ops",n); g.nt(); const Str f=path("t"),h=path("u"),no=path("none");
  balance(p,"text and file helpers",[&](Plan& q){
    for(size_t k=0;k<n;++k){ const Str& s=q.text(); std::vector<Str> v; std::list<int> l; Str o; int i=0; switch(q.below(16)){
      case 0: strtk::parse(s,",;",v); break; case 1: strtk::parse(s,",;",i,l); break; case 2: strtk::parse(s,", ",o,i); break; case 3: strtk::split(",",s,strtk::range_to_type_back_inserter(v)); break; case 4: { std::vector<Str> r; strtk::split_regex("[a-b]+",s,strtk::range_to_type_back_inserter(r)); break; }
      case 5: strtk::replace_pattern(s,"a","a longer text than before",o); break; case 6: { strtk::parse(s,",",v); o=strtk::join("--",v); break; } case 7: o.resize(s.size()*2); if(!s.empty()) strtk::convert_bin_to_hex((const unsigned char*)s.data(),(const unsigned char*)s.data()+s.size(),(unsigned char*)&o[0]); break;
      case 8: { faults::WriteLimit w(q.below(40)); strtk::fileio::write_file(f,s); break; } case 9: strtk::fileio::write_file(f,s); strtk::fileio::load_file(q.flip()?f:no,o); break; case 10: { faults::ReadFault r(q.below(20)); strtk::fileio::copy_file(f,h); strtk::fileio::concatenate(f,f,h); strtk::fileio::files_identical(f,h); break; }
      case 11: strtk::fileio::copy_file(q.flip()?f:no,h); strtk::fileio::concatenate(f,q.flip()?f:no,h); strtk::fileio::files_identical(f,h); break; case 12: strtk::load_from_text_file(f,v); strtk::write_to_text_file(h,v,"\n"); strtk::for_each_line(f,Nothing()); break;
      case 13: { strtk::ext_string e(s); e*=3; o=(e+"x").as_string(); break; } case 14: { char b[9]; strtk::fileio::read_at_offset(f,q.below(9),b,sizeof b); strtk::fileio::read_at_offset(f,q.below(9),o,9); break; }
      default: strtk::remove_consecutives_inplace(o=s); } }
    unlink(f.c_str()); unlink(h.c_str()); });
}
