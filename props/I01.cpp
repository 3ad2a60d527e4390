// sanitizer: thread
#define strtk_enable_regex
#define strtk_enable_random
#include "ops.hpp"
#include <thread>
#include <atomic>
#include <list>
#include <queue>
#include <memory>
namespace pbt { const char* const property_id="I01";
const char* const rule_text="About seventy operations across the library (splitting, tokenizing, parsing, sinks, conversions, joining, text helpers, matching, codecs, grids, tries, filters, binary records, key-value parsing, holders, combinatorics, random data, files, hashing) over generated texts and numbers. First use: several threads make a process's first use of an operation together. Threads: two to four threads run generated lists of operations on their own inputs; shared: several threads read one grid, trie, filter, tokenizer, predicate, table or text; nested: an operation with a callback runs another operation inside each call of the callback. Oracle: every operation gives the same result as alone, and the thread sanitizer sees no access to shared memory without synchronisation. Non-trivial when at least two threads ran at least one operation each on non-empty texts, or the callback ran at least twice. Distinct by operations, inputs and interleaving plan."; }
using pbt::G; typedef strtk::token_grid Grid;
using namespace ops;
#define OP(n) static Str n(const In& x)
OP(within); // an operation with a callback, so that callbacks nest (below)
static const Named ops_[]={
#define O(n) {#n,n}
OPS_LIST,O(within),O(clocks) };
enum { OPS=sizeof(ops_)/sizeof(ops_[0]) };
static std::atomic<unsigned> files_made(0);
static In with_file(const In& x){ In y(x); y.file=pbt::scratch("i"+std::to_string(files_made++)); return y; }
static Str alone(size_t op,const In& x){ return ops_[op].op(with_file(x)); }
struct Job { size_t op; In x; Str want,got; };
struct Start { std::atomic<int> waiting; explicit Start(int n):waiting(n){} void operator()(){ --waiting; while(waiting.load()>0) std::this_thread::yield(); } };
static void ready(){ static bool done=false; if(!done){ done=true; strtk::initialize_n_choose_k(); } } // documented preparation of the shared table of combination counts
// The first use of an operation in a process happens in several threads at once (each case is a process of its own; this facet runs before the library has been used).
FACET(first_use,250){
  size_t op=g.below(OPS),T=2+g.below(2); std::vector<In> x; for(size_t t=0;t<T;++t) x.push_back(gen_in(g)); g.note(ops_[op].name); for(auto& i:x) g.show("text",i.s); g.nt(!x[0].s.empty()&&!x[1].s.empty());
  fflush(0); pid_t p=fork(); if(p==0){ if(!strcmp(ops_[op].name,"combos")) ready(); std::vector<Str> got(T); Start go((int)T); std::vector<std::thread> th; for(size_t t=0;t<T;++t) th.emplace_back([&,t]{ go(); got[t]=alone(op,x[t]); }); for(auto& t:th) t.join(); bool ok=true; for(size_t t=0;t<T;++t) ok=ok&&got[t]==alone(op,x[t]); _exit(ok?0:7); }
  CHECK(p>0,"fork"); int st=0; while(waitpid(p,&st,0)<0&&errno==EINTR){} if(WIFEXITED(st)&&WEXITSTATUS(st)==99) _exit(99); CHECK(!WIFSIGNALED(st),"killed by signal "<<WTERMSIG(st)); CHECK(WEXITSTATUS(st)==0,ops_[op].name<<" gives another result when first used in several threads");
}
// Operations on unrelated data in several threads at once.
FACET(threads,500){
  ready(); size_t T=2+g.below(3); std::vector<std::vector<Job> > jobs(T); bool same=g.flip(),before=g.flip(); size_t op=g.below(OPS),full=0;
  for(size_t t=0;t<T;++t){ size_t n=1+g.below(5); bool text=false; for(size_t i=0;i<n;++i){ Job j; j.op=same?op:g.below(OPS); j.x=gen_in(g); text=text||!j.x.s.empty(); jobs[t].push_back(j); g.note(pbt::S(t)+":"+ops_[j.op].name+"("+pbt::quote(j.x.s)+")"); } full+=text; }
  auto expect=[&]{ for(auto& l:jobs) for(auto& j:l) j.want=alone(j.op,j.x); }; if(before) expect();
  Start go((int)T); std::vector<std::thread> th; for(size_t t=0;t<T;++t) th.emplace_back([&,t]{ go(); for(auto& j:jobs[t]) j.got=alone(j.op,j.x); }); for(auto& t:th) t.join();
  if(!before) expect(); g.nt(full>1); g.label(same?"same operation":"mixed");
  for(auto& l:jobs) for(auto& j:l) CHECK_EQ(j.got,j.want,ops_[j.op].name<<" beside other threads");
}
// Objects that nobody changes, read from several threads at once.
FACET(shared_readers,300){
  In x=gen_in(g); size_t T=2+g.below(3); size_t kind=g.below(10); g.show("text",x.s); g.show("delims",x.d); g.show("kind",kind); g.show("threads",T); g.nt(x.s.size()>2);
  std::function<Str()> f; std::vector<Str> w; strtk::parse(x.s,x.d,w); const Str& s=x.s; std::shared_ptr<void> keep;
  switch(kind){
    case 0: { auto p=std::make_shared<strtk::token_grid>(s,s.size(),strtk::token_grid::options(strtk::split_options::compress_delimiters,strtk::split_options::default_mode,";",",|")); const strtk::token_grid& r=*p; keep=p; f=[&r]{ return grid_of(r); }; break; }
    case 1: { typedef strtk::trie::prefix<Str::const_iterator,int> P; auto p=std::make_shared<P>(); for(size_t i=0;i<w.size();++i) if(!w[i].empty()) p->insert(((const Str&)w[i]).begin(),((const Str&)w[i]).end(),(int)i); keep=p; P* q=p.get(); f=[q,&w]{ Str o; for(const Str& k:w){ int v=-1; if(!k.empty()){ o+=T2S(q->find(k.begin(),k.end(),v)); o+=T2S(v); } } return o; }; break; }
    case 2: { strtk::bloom::parameters b; b.projected_element_count=50; b.false_positive_probability=0.01; b.random_seed=x.k|1; b.compute_optimal_parameters(); auto p=std::make_shared<strtk::bloom::filter>(b); for(size_t i=0;i<w.size();i+=2) p->insert(w[i]); keep=p; const strtk::bloom::filter& r=*p; f=[&r,&w]{ Str o; for(const Str& k:w) o+=T2S(r.contains(k)); return o+T2S(r.effective_fpp()>=0); }; break; }
    case 3: { auto p=std::make_shared<strtk::multiple_char_delimiter_predicate>(x.d); keep=p; const strtk::multiple_char_delimiter_predicate& r=*p; f=[&r,&s]{ std::vector<R> v; strtk::split(r,s,std::back_inserter(v)); return ranges(v); }; break; }
    case 4: { auto p=std::make_shared<strtk::multiple_delimiter_predicate<char> >(x.d.begin(),x.d.end()); keep=p; const strtk::multiple_delimiter_predicate<char>& r=*p; f=[&r,&s]{ std::vector<R> v; strtk::split(r,s,std::back_inserter(v)); return ranges(v); }; break; }
    case 5: { typedef strtk::std_string::tokenizer<>::type K; auto d=std::make_shared<strtk::single_delimiter_predicate<char> >(x.d[0]); auto p=std::shared_ptr<K>(new K(s,*d)); keep=std::make_shared<std::pair<decltype(d),decltype(p)> >(d,p); const K& r=*p; f=[&r]{ Str o; for(auto i=r.begin();i!=r.end();++i) o+=show(i.as_string()); return o; }; break; }
    case 6: { auto p=std::make_shared<strtk::translation_table>("abc123","xyz789"); keep=p; const strtk::translation_table& r=*p; f=[&r,&s]{ return strtk::translate(r,s); }; break; }
    case 7: { auto p=std::make_shared<strtk::ext_string>(s); keep=p; const strtk::ext_string& r=*p; f=[&r,&x]{ std::vector<Str> v; r.split(x.d,v); return (r*2).as_string()+all(v)+T2S(r.imatch(x.s)); }; break; }
    case 8: { auto i=std::make_shared<int>((int)x.k); auto p=std::make_shared<strtk::util::value>(*i); keep=std::make_shared<std::pair<decltype(i),decltype(p)> >(i,p); const strtk::util::value& r=*p; f=[&r]{ Str o; r.to_string(o); strtk::util::value c(r); Str q; c.to_string(q); return o+q+T2S(c==r); }; break; }
    default: { size_t op=g.below(OPS); f=[op,&x]{ return alone(op,x); }; g.note(ops_[op].name); } // the same text and numbers as input to the same operation
  }
  bool before=g.flip(); Str want=before?f():Str(); std::vector<Str> got(T); Start go((int)T); std::vector<std::thread> th; for(size_t t=0;t<T;++t) th.emplace_back([&,t]{ go(); for(int k=0;k<2;++k) got[t]=f(); }); for(auto& t:th) t.join(); if(!before) want=f();
  for(auto& o:got) CHECK_EQ(o,want,"read beside other threads");
}
// An operation run inside another one's callback, on the same input or another.
struct Inner { size_t op; const In* x; Str want; Str* trace; size_t* calls; bool* good;
  void run(const Str& s) const { *trace+=show(s); ++*calls; if(alone(op,*x)!=want) *good=false; }
  void operator()(const Str& s) const { run(s); } template<class I> void operator()(const std::pair<I,I>& r) const { run(Str(r.first,r.second)); } template<class I> bool operator()(I a,I b) const { run(Str(a,b)); return true; } };
struct Row { Inner in; void operator()(const strtk::token_grid::row_type& r) const { Str o; for(size_t c=0;c<r.size();++c) o+=r.get<Str>(c)+","; in.run(o); } };
static Str outer(size_t kind,const In& x,const Inner& in){ const Str& s=x.s;
  switch(kind){
    case 0: strtk::split(strtk::multiple_char_delimiter_predicate(x.d),s,strtk::functional_inserter(in)); return ""; case 1: return T2S(strtk::for_each_token(s,x.d,in)); case 2: { std::istringstream i(s); return T2S(strtk::for_each_line(i,in)); }
    case 3: { Str p=s.substr(0,4); strtk::for_each_combination(p.begin(),p.end(),std::min<size_t>(2,p.size()),in); return p; } case 4: { Str p=s.substr(0,3); strtk::for_each_permutation(p.begin(),p.end(),in); return p; }
    case 5: { strtk::token_grid g(s,s.size(),strtk::token_grid::options(strtk::split_options::compress_delimiters,strtk::split_options::default_mode,";",",|")); Row r={in}; return T2S(g.for_each_row(r))+grid_of(g); }
    case 6: { strtk::util::semantic_action_impl a=strtk::util::semantic_action(in); Str t,u; bool ok=strtk::parse(s,x.d,a,t,u); return T2S(ok)+t; }
    case 7: { strtk::keyvalue::options<unsigned char> o; o.pair_block_delimiter=(unsigned char)x.d[0]; o.pair_delimiter='='; strtk::keyvalue::parser<strtk::keyvalue::stringkey_map> p(o); strtk::util::semantic_action_impl a=strtk::util::semantic_action(in); Str b; p.register_keyvalue("a",a); p.register_keyvalue("b",b); bool r=p(s,true); return T2S(r)+b+T2S(p.failure_count()); }
    case 8: { strtk::multiple_char_delimiter_predicate d(x.d); strtk::std_string::tokenizer<strtk::multiple_char_delimiter_predicate>::type t(s,d); for(auto i=t.begin();i!=t.end();++i) in.run(i.as_string()); return ""; }
    case 9: { strtk::split_regex("[0-9]+",s,strtk::functional_inserter(in)); return ""; }
    case 10: { Str f=x.file+".n"; strtk::fileio::write_file(f,s); size_t n=strtk::for_each_line(f,in); unlink(f.c_str()); return T2S(n); }
    default: { Str t=s.empty()?Str("q"):s; strtk::filter_on_wildcard_match<const Inner> w("*1*",in); std::vector<Str> v; strtk::parse(t,x.d,v); for(auto& k:v) w(k); return ""; } } }
OP(within){ Str t; size_t calls=0; bool good=true; In z=with_file(x); Inner in={OPS-1,&z,alone(OPS-1,z),&t,&calls,&good}; Str o=outer(x.k%12,z,in); return o+t+T2S(calls)+T2S(good); }
FACET(nested,2500){
  ready(); In x=gen_in(g),y=g.chance(1,3)?x:gen_in(g); size_t kind=g.below(12),op=g.chance(1,6)?OPS-2:g.below(OPS); if(op==OPS-2&&g.flip()) y.k=y.k/12*12+kind; g.show("outer",kind); g.show("inner",ops_[op].name); g.show("text",x.s); g.show("inner text",y.s); g.show("delims",x.d);
  Str want=alone(op,y),t1,t2; size_t c1=0,c2=0; bool good=true; struct Nop { static Str f(const In&){ return ""; } }; 
  In z; Inner quiet={op,&y,want,&t1,&c1,&good},loud=quiet; loud.trace=&t2; loud.calls=&c2; size_t bit=OPS-1; quiet.op=bit; quiet.want=alone(bit,y); // the outer operation with an inert callback
  x=with_file(x); Str a=outer(kind,x,quiet),b=outer(kind,x,loud); CHECK_EQ(b,a,"result of the outer operation"); CHECK_EQ(t2,t1,"what the callback was given"); CHECK_EQ(c2,c1,"calls"); CHECK(good,ops_[op].name<<" inside a callback gives another result than alone"); g.nt(c1>1);
}
