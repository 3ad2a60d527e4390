// A small property-based testing engine for strtk.
//
// A case is a function of a stream of choices ("take a number below n"). Every
// generator draws from that stream only, so one mechanism gives random
// generation (choices from a PRNG seeded by VERIF_SEED, the facet's name and
// the case index), replay (choices from a file), shrinking (edit the choices,
// run again) and coverage-guided fuzzing (choices decoded from libFuzzer's
// bytes, built with -DPBT_FUZZ). Cases run in forked workers under ASan/UBSan:
// a failed CHECK, a foreign exception, a sanitizer report, a signal, running
// out of memory and a case that burns its CPU limit are all failures.
#ifndef PBT_HPP
#define PBT_HPP
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <sstream>
#include <algorithm>
#include <limits>
#include <typeinfo>
#include <functional>
#include <type_traits>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
namespace pbt { extern const char* const property_id;
// a file name of this process inside the run's scratch directory (removed by check.sh)
inline std::string scratch(const std::string& n){ const char* e=getenv("PBT_TMP"); return std::string(e?e:"/tmp")+"/"+property_id+"."+std::to_string(getpid())+"."+n; } }
#include <signal.h>
#include <fcntl.h>
#include <time.h>

namespace pbt {
typedef std::uint64_t u64;

struct Fail { std::string msg; };

inline u64 mix(u64 x){ x+=0x9E3779B97F4A7C15ull; x=(x^(x>>30))*0xBF58476D1CE4E5B9ull; x=(x^(x>>27))*0x94D049BB133111EBull; return x^(x>>31); }
inline u64 hash_str(const std::string& s,u64 h=1469598103934665603ull){ for(unsigned char c:s){ h^=c; h*=1099511628211ull; } return mix(h); }

inline std::string quote(const std::string& s,size_t cap=400){
  std::string r="\"";
  for(size_t i=0;i<s.size();++i){
    if(i>=cap){ r+="...(+"+std::to_string(s.size()-i)+")"; break; }
    unsigned char c=s[i];
    if(c=='"'||c=='\\'){ r+='\\'; r+=char(c); }
    else if(c>=32&&c<127) r+=char(c);
    else { char b[8]; snprintf(b,8,"\\x%02x",c); r+=b; }
  }
  return r+"\"";
}
inline std::string S(const std::string& s){ return quote(s); }
inline std::string S(const char* s){ return quote(s); }
inline std::string S(bool b){ return b?"true":"false"; }
inline std::string S(char c){ return quote(std::string(1,c)); }
inline std::string S(unsigned char c){ return std::to_string(unsigned(c)); }
inline std::string S(double d){ char b[64]; snprintf(b,64,"%.17g",d); return b; }
inline std::string S(float d){ char b[64]; snprintf(b,64,"%.9g",d); return b; }
inline std::string S(long double d){ char b[64]; snprintf(b,64,"%.21Lg",d); return b; }
template<class T> typename std::enable_if<std::is_integral<T>::value,std::string>::type S(const T& t){ return std::to_string(t); }
template<class A,class B> std::string S(const std::pair<A,B>& p);
template<class C> auto S(const C& c)->typename std::enable_if<!std::is_integral<C>::value,decltype(c.begin(),std::string())>::type{
  std::string r="["; size_t n=0;
  for(auto it=c.begin();it!=c.end();++it){ if(n) r+=","; if(n++>60){ r+="..."; break; } r+=S(*it); }
  return r+"]";
}
template<class A,class B> std::string S(const std::pair<A,B>& p){ return "("+S(p.first)+","+S(p.second)+")"; }

// ---------------------------------------------------------------- choices
struct Shared {                    // survives a crash of the worker
  volatile u64 facet, index, started; // current case
  volatile u64 failed;             // 1: message below is valid
  char msg[4096];
  volatile u64 nrec;
  u64 rec[1<<18];
};

class G {
 public:
  enum Mode { RANDOM, REPLAY, BYTES } mode;
  u64 s; const std::vector<u64>* rp; size_t pos;
  const unsigned char* b; size_t bn;
  Shared* sh; std::vector<u64> rec;
  std::string desc; bool nontriv; std::vector<std::string> labels; bool describe;
  size_t large; bool once; // 0, or the size that lengths and counts of this case may reach (all of them, or one)
  G():mode(RANDOM),s(0),rp(0),pos(0),b(0),bn(0),sh(0),nontriv(false),describe(true),large(0),once(false){}

  u64 below(u64 n){
    u64 v;
    if(n==0) n=1;
    if(mode==RANDOM){ s+=0x9E3779B97F4A7C15ull; u64 z=s; z=(z^(z>>30))*0xBF58476D1CE4E5B9ull; z=(z^(z>>27))*0x94D049BB133111EBull; z^=z>>31; v=n==1?0:z%n; }
    else if(mode==REPLAY){ v=pos<rp->size()?(*rp)[pos]:0; ++pos; if(v>=n) v=n-1; }
    else { int k=n<=1?0:n<=256?1:n<=65536?2:8; v=0; for(int i=0;i<k;++i){ v=v<<8; if(pos<bn) v|=b[pos++]; } v%=n; }
    if(sh){ u64 i=sh->nrec; if(i<(1<<18)){ sh->rec[i]=v; sh->nrec=i+1; } }
    else if(mode==BYTES) rec.push_back(v);
    return v;
  }
  u64 any64(){ u64 hi=below(1ull<<32), lo=below(1ull<<32); return hi<<32|lo; }
  long long range(long long lo,long long hi){ return lo+(long long)below((u64)(hi-lo)+1); }
  bool chance(unsigned num,unsigned den){ return below(den)>=den-num; }  // 0 shrinks to false
  bool flip(){ return below(2)==1; }
  template<class T> T pick(std::initializer_list<T> l){ return *(l.begin()+below(l.size())); }
  template<class C> const typename C::value_type& of(const C& c){ return c[below(c.size())]; }
  // A length: mostly small, sometimes at the edges of powers of two, up to max.
  size_t len(size_t max){
    if(large&&below(4)!=0) return grow();
    switch(below(10)){
      case 0: case 1: case 2: case 3: case 4: return below(std::min<size_t>(max,8)+1);
      case 5: case 6: return below(std::min<size_t>(max,24)+1);
      case 7: return below(std::min<size_t>(max,80)+1);
      case 8: { static const size_t e[]={8,16,32,64,100,128,256,512,1000,1024,2048,4096};
        size_t k=0; while(k<12&&e[k]<=max) ++k; if(!k) return below(max+1);
        size_t v=e[below(k)]+below(5); v=v>=2?v-2:0; return std::min(v,max); }
      default: return below(max+1);
    }
  }
  // A size around the widths at which counters, tables and blocks change, up to max.
  size_t big(size_t max){
    static const size_t e[]={32,64,128,256,512,1000,1024,2048,4096,8192,10000,16384,32768,65536};
    size_t k=0; while(k<14&&e[k]<=max) ++k;
    if(!k||below(4)==0) return below(max+1);
    size_t v=e[below(4)==0?k-1:below(k)]+below(7); v-=3; return std::min(v,max);
  }
  // A count below n (or a large one, in a large case).
  size_t count(size_t n){ if(large&&below(4)!=0) return grow(); return below(n); }
  size_t grow(){ size_t m=large; if(once) large=0; return big(m); }
  std::string text(const std::string& alphabet,size_t max){ size_t n=len(max); return fixed(alphabet,n); }
  // Long texts come from one seed (runs of one character mixed with single ones) or repeat a short unit, so that they stay replayable.
  std::string stretch(const std::string& alphabet,size_t n){
    std::string r; r.reserve(n); u64 kind=below(5); size_t m=alphabet.size();
    if(kind>2){ std::string unit; size_t k=kind==3?1:1+below(4); for(size_t i=0;i<k;++i) unit+=alphabet[below(m)]; while(r.size()<n) r+=unit; r.resize(n); return r; } // as many tokens, lines, matches as can be
    u64 x=any64()|1; bool runs=kind==1;
    while(r.size()<n){ x^=x<<13; x^=x>>7; x^=x<<17; u64 h=x*0x2545F4914F6CDD1Dull; char c=alphabet[(h>>20)%m]; size_t k=runs&&(h>>60)==0?1+(h>>50)%300:1; while(k--&&r.size()<n) r+=c; }
    return r;
  }
  std::string fixed(const std::string& alphabet,size_t n){ if(n>2500) return stretch(alphabet,n); std::string r; r.reserve(n); for(size_t i=0;i<n;++i) r+=alphabet[below(alphabet.size())]; return r; }
  unsigned char byte(){ return (unsigned char)below(256); }
  // Bytes over an alphabet that is itself a choice.
  std::string bytes(size_t max){
    size_t n=len(max); return nbytes(n);
  }
  std::string nbytes(size_t n){
    if(n>2500){ static std::string all; if(all.empty()) for(int i=0;i<256;++i) all+=char(i); return flip()?stretch(all,n):stretch("ab\n 0\xff",n); }
    std::string r; r.reserve(n);
    switch(below(5)){
      case 0: for(size_t i=0;i<n;++i) r+=char('a'+below(3)); break;
      case 1: for(size_t i=0;i<n;++i) r+=char(32+below(95)); break;
      case 2: for(size_t i=0;i<n;++i) r+=char(below(256)); break;
      case 3: { static const char e[]={0,1,0x7f,char(0x80),char(0xff),' ','\n','A','z','0'}; for(size_t i=0;i<n;++i) r+=e[below(10)]; break; }
      default: { char c=char(below(256)); char d=char(below(256)); for(size_t i=0;i<n;++i) r+=below(6)==5?d:c; }
    }
    return r;
  }
  // An integer of type T: small, at a limit, near a power of two or ten, any digit count, uniform.
  template<class T> T integer(){
    typedef std::numeric_limits<T> L;
    switch(below(7)){
      case 0: return T(below(20));
      case 1: { u64 k=below(12); return flip()?T(L::max()-T(std::min<u64>(k,(u64)L::max()))):T(L::min()+T(std::min<u64>(k,(u64)L::max()))); }
      case 2: { u64 v=1ull<<below(sizeof(T)*8); v+=below(5); v-=2; return T(v); }
      case 3: { u64 v=1; u64 k=below(20); for(u64 i=0;i<k;++i) v*=10; v+=below(5); v-=2; T t=T(v); return L::is_signed&&flip()?T(0-(u64)t):t; }
      case 4: { u64 v=any64()>>below(64); T t=T(v); return L::is_signed&&flip()?T(0-(u64)t):t; }
      case 5: { u64 v=0; u64 k=1+below(20); for(u64 i=0;i<k;++i) v=v*10+below(10); T t=T(v); return L::is_signed&&flip()?T(0-(u64)t):t; }
      default: return T(any64());
    }
  }
  template<class T> void show(const char* name,const T& t){ if(describe&&desc.size()<6000){ if(!desc.empty()) desc+=" "; desc+=name; desc+="="; desc+=S(t); } }
  void note(const std::string& t){ if(describe&&desc.size()<6000){ if(!desc.empty()) desc+=" "; desc+=t; } }
  void nt(bool c=true){ if(c) nontriv=true; }
  void label(std::string l){ for(char& c:l) if((unsigned char)c<=32) c='_'; labels.push_back(l); }
};

struct Facet { std::string name; u64 quick; void(*fn)(G&); };
inline std::vector<Facet>& facets(){ static std::vector<Facet> f; return f; }
// The facets coverage-guided fuzzing drives: those on inputs of ordinary size.
inline std::vector<Facet> fuzzed_facets(){ std::vector<Facet> r; for(auto& f:facets()) if(f.name.size()<6||f.name.compare(f.name.size()-6,6,"_large")!=0) r.push_back(f); return r; }
struct Reg { Reg(const char* n,u64 q,void(*fn)(G&)){ Facet f; f.name=n; f.quick=q; f.fn=fn; facets().push_back(f); } };
#define FACET(id,quick) static void facet_##id(pbt::G& g); static pbt::Reg reg_##id(#id,quick,facet_##id); static void facet_##id(pbt::G& g)
// The same property over large inputs: lengths and counts reach up to `size`.
#define LARGE(id,quick,size) static void large_##id(pbt::G& g){ g.large=size; facet_##id(g); } static pbt::Reg reg_large_##id(#id "_large",quick,large_##id);
#define LARGE1(id,quick,size) static void large_##id(pbt::G& g){ g.large=size; g.once=true; facet_##id(g); } static pbt::Reg reg_large_##id(#id "_large",quick,large_##id);
#define CHECK(c,m) do{ if(!(c)){ std::ostringstream pbt_o; pbt_o<<"CHECK failed: " #c " : "<<m; throw pbt::Fail{pbt_o.str()}; } }while(0)
#define CHECK_EQ(a,b,m) do{ auto pbt_a=(a); decltype(pbt_a) pbt_b=(b); if(!(pbt_a==pbt_b)){ std::ostringstream pbt_o; pbt_o<<"CHECK_EQ failed: " #a " = "<<pbt::S(pbt_a)<<", expected "<<pbt::S(pbt_b)<<" : "<<m; throw pbt::Fail{pbt_o.str()}; } }while(0)

// Provided by the harness.
extern const char* const property_id;
extern const char* const rule_text;

// Runs one case; returns true if it passed.
inline bool run_case(const Facet& f,G& g,std::string& why){
  try { f.fn(g); return true; }
  catch(const Fail& e){ why=e.msg; }
  catch(const std::exception& e){ why=std::string("exception ")+typeid(e).name()+": "+e.what(); }
  catch(...){ why="unknown exception"; }
  return false;
}
inline u64 case_seed(u64 seed,const Facet& f,u64 i){ return mix(mix(seed*0x2545F4914F6CDD1Dull+hash_str(f.name))+i); }
// An output iterator that, like a pointer into an array, keeps its place until it
// is incremented: a missed increment overwrites, a doubled one leaves a gap.
template<class C> class slot_iterator {
  C* c; size_t i;
public:
  typedef std::output_iterator_tag iterator_category; typedef void value_type; typedef void difference_type; typedef void pointer; typedef void reference; typedef C container_type;
  explicit slot_iterator(C& k):c(&k),i(k.size()){}
  struct slot { C* c; size_t i; template<class T> slot& operator=(const T& t){ if(c->size()<=i) c->resize(i+1); auto it=c->begin(); std::advance(it,(std::ptrdiff_t)i); *it=typename C::value_type(t); return *this; } };
  slot operator*() const { slot s={c,i}; return s; }
  slot_iterator& operator++(){ ++i; return *this; }
  slot_iterator operator++(int){ slot_iterator t(*this); ++i; return t; }
};
template<class C> slot_iterator<C> slots(C& c){ return slot_iterator<C>(c); }
} // namespace pbt

extern "C" inline const char* pbt_asan_opts(){ return ""; }
extern "C" __attribute__((used,visibility("default"))) const char* __asan_default_options(){
  return "detect_leaks=0:exitcode=99:allocator_may_return_null=0:max_allocation_size_mb=1500:symbolize=0:print_summary=1:detect_stack_use_after_return=0:quarantine_size_mb=16:handle_segv=1:handle_abort=0:print_legend=0:malloc_context_size=12:strict_memcmp=0:intercept_strlen=1";
}
extern "C" __attribute__((used,visibility("default"))) const char* __tsan_default_options(){ return "exitcode=99:halt_on_error=1:symbolize=0:report_signal_unsafe=0:die_after_fork=0:history_size=2"; }
extern "C" __attribute__((used,visibility("default"))) const char* __ubsan_default_options(){ return "halt_on_error=1:print_stacktrace=0:symbolize=0"; }

#include "pbt_main.hpp"
#endif
