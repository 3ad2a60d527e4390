// Histories of operations whose storage and descriptors are balanced.
#ifndef PLAN_HPP
#define PLAN_HPP
#include "pbt.hpp"
#include <unistd.h>
#include <sanitizer/allocator_interface.h>
namespace plan { using pbt::G; typedef std::string Str;
// Decisions drawn beforehand, so that both runs of a history take the same ones and the engine records nothing meanwhile.
struct Plan { std::vector<unsigned long long> v; std::vector<Str> s; size_t i,k; Plan():i(0),k(0){}
  Plan(G& g,size_t n,size_t texts,const char* alpha="ab,1;\n =|\x80"):i(0),k(0){ for(size_t j=0;j<n;++j) v.push_back(g.below(1u<<20)); for(size_t j=0;j<texts;++j) s.push_back(g.text(alpha,g.chance(1,5)?60:12)); g.show("plan",v); g.show("texts",s); }
  size_t below(size_t n){ if(v.empty()||!n) return 0; size_t x=v[i++%v.size()]; return (size_t)((x+i/v.size()*7919)%n); } bool flip(){ return below(2)!=0; } bool chance(size_t a,size_t b){ return below(b)<a; }
  const Str& text(){ static const Str none; return s.empty()?none:s[k++%s.size()]; } void restart(){ i=k=0; } };
static int lowest_fd(){ int f=dup(0); if(f>=0) close(f); return f; }
template<class F> static void balance(Plan& p,const char* what,F f){
  p.restart(); f(p); p.restart(); size_t a=__sanitizer_get_current_allocated_bytes(); int d=lowest_fd(); f(p); size_t b=__sanitizer_get_current_allocated_bytes(); int e=lowest_fd();
  CHECK(a==b,what<<": "<<(long long)(b-a)<<" bytes are not given back"); CHECK_EQ(e,d,what<<": descriptors are not given back");
}
}
#endif
