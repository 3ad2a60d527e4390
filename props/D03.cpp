#include "models.hpp"
#include "strtk.hpp"
#include <fstream>
#include <memory>
#include <unistd.h>
#include "faults.hpp"
namespace pbt { const char* const property_id="D03";
const char* const rule_text="A filter (plain or compressible) of generated parameters and contents is written to a file, the file is kept, truncated at any length, extended, or has any of its bytes, size fields or counts changed, and is loaded into a new, used or copied filter. Oracle: an intact file answers every query as the original and compares equal; a truncated or inconsistent file is refused and leaves an empty filter; whatever was loaded can be queried, filled, copied, combined, stored again without touching memory outside its table (address sanitizer). Non-trivial: a filter holding an element. Distinct by parameters, contents and damage."; }
using pbt::G;
typedef strtk::bloom::parameters P; typedef strtk::bloom::filter F; typedef strtk::bloom::compressible_filter CF;
static std::string path(const char* n){ return pbt::scratch(n); }
static void spit(const std::string& f,const std::string& s){ std::ofstream o(f.c_str(),std::ios::binary|std::ios::trunc); o.write(s.data(),(std::streamsize)s.size()); }
static std::string slurp(const std::string& f){ std::ifstream i(f.c_str(),std::ios::binary); std::ostringstream o; o<<i.rdbuf(); return o.str(); }
struct Gone { std::string f; Gone(const std::string& n):f(n){ unlink(f.c_str()); } ~Gone(){ unlink(f.c_str()); } };
static P gen_params(G& g){ P p; p.projected_element_count=1+g.below(40); p.false_positive_probability=g.pick<double>({0.5,0.1,0.01,0.001}); if(g.chance(1,3)) p.random_seed=1+g.any64()%1000000007ULL; if(g.chance(1,3)) p.minimum_size=1+g.below(200); if(g.chance(1,3)) p.maximum_size=p.minimum_size+g.below(60); if(g.chance(1,5)) p.minimum_number_of_hashes=1+(unsigned)g.below(g.chance(1,6)?140:8); p.compute_optimal_parameters(); std::ostringstream o; o<<p.projected_element_count<<"/"<<p.false_positive_probability<<"/"<<p.minimum_size<<"-"<<p.maximum_size<<"/"<<p.random_seed; g.show("parameters",o.str()); return p; }
static std::vector<std::string> gen_keys(G& g){ std::vector<std::string> k; size_t n=g.len(30); for(size_t i=0;i<n;++i) k.push_back(g.flip()?g.bytes(12):g.text("ab",4)); return k; }
// Everything a user may do with a loaded (or refused) filter must stay inside its table.
template<class T> static void exercise(T& f,const std::vector<std::string>& keys,const char* what,bool intact=true){
  for(auto& k:keys) f.contains(k); std::string x="exercise"; f.insert(x); CHECK(f.contains(x),what<<": an element inserted after loading is not contained"); f.insert(12345); CHECK(f.contains(12345),what<<": a number inserted after loading is not contained");
  T c(f); if(intact) CHECK(c==f,what<<": a copy of the loaded filter differs"); CHECK(c.contains(x),what<<": a copy of the loaded filter forgets"); T d(c); d=f; d|=c; d&=c; CHECK(d.contains(x),what<<": combined copies forget"); if(!!f){ Gone t(path("again")); CHECK(f.write_to_file(t.f),what<<": loaded filter cannot be stored"); F r; CHECK(r.read_from_file(t.f),what<<": a stored loaded filter is refused"); CHECK(r.contains(x),what<<": a reloaded filter forgets"); } c.clear();
}
template<class T> static void round_trip(G& g,const char* name){
  g.note(name); P p=gen_params(g); T f(p); auto keys=gen_keys(g); for(auto& k:keys) f.insert(k); g.show("elements",keys.size()); g.nt(!keys.empty()); Gone file(path("rt"));
  CHECK(f.write_to_file(file.f),"filter is written"); std::string bytes=slurp(file.f); unsigned into=(unsigned)g.below(4); g.show("into",into); P q=into==2?gen_params(g):p; std::unique_ptr<F> r;
  if(into==0) r.reset(new F()); else r.reset(new F(q)); if(into==3) for(auto& k:gen_keys(g)) r->insert(k);
  CHECK(r->read_from_file(file.f),"stored filter is loaded"); CHECK_EQ(slurp(file.f)==bytes,true,"loading changes the file"); CHECK(*r==(F&)f&&!(*r!=(F&)f),"the loaded filter differs from the stored one");
  CHECK_EQ(r->size(),f.size(),"size"); CHECK_EQ(r->element_count(),f.element_count(),"element count"); CHECK_EQ(r->hash_count(),f.hash_count(),"hash count"); for(auto& k:keys) CHECK(r->contains(k),"the loaded filter forgets "<<pbt::quote(k)); for(size_t i=0;i<30;++i){ std::string k=g.bytes(10); CHECK_EQ(r->contains(k),f.contains(k),"answer for "<<pbt::quote(k)); }
  Gone again(path("rt2")); CHECK(r->write_to_file(again.f),"loaded filter is written"); CHECK(slurp(again.f)==bytes,"storing the loaded filter gives another file"); exercise(*r,keys,"loaded");
  if(g.flip()){ CF c(into==2?q:p); CHECK(c.read_from_file(file.f),"loaded into a compressible filter"); CHECK_EQ(c.size(),f.size(),"size of the compressible filter"); for(auto& k:keys) CHECK(c.contains(k),"the compressible filter forgets "<<pbt::quote(k)); if(c.compress(g.pick<double>({20.0,50.0,70.0}))) for(auto& k:keys) CHECK(c.contains(k),"the compressed loaded filter forgets "<<pbt::quote(k)); }
}
FACET(round_trip_filter,1500){ round_trip<F>(g,"filter"); }
FACET(round_trip_compressible,800){ round_trip<CF>(g,"compressible_filter"); }
static void refused(F& r,const char* what){ CHECK(!r,what<<": the refused filter is not empty"); CHECK_EQ(r.element_count(),size_t(0),what<<": element count of the refused filter"); }
FACET(truncated,2500){
  P p=gen_params(g); F f(p); auto keys=gen_keys(g); for(auto& k:keys) f.insert(k); g.nt(!keys.empty()); Gone file(path("tr")); CHECK(f.write_to_file(file.f),"filter is written"); std::string b=slurp(file.f); size_t n=g.flip()?b.size()-1-g.below(std::min<size_t>(b.size(),24)):g.below(b.size()); g.show("kept",n); g.show("size",b.size()); spit(file.f,b.substr(0,n));
  bool comp=g.flip(); if(comp){ CF r(p); CHECK(!r.read_from_file(file.f),"truncated file accepted"); refused(r,"truncated"); for(auto& k:keys) r.contains(k); r.insert(std::string("x")); CF c(r); c|=r; c.clear(); } else { F r(p); if(g.flip()) r.insert(7); CHECK(!r.read_from_file(file.f),"truncated file accepted"); refused(r,"truncated"); for(auto& k:keys) r.contains(k); r.insert(std::string("x")); F c(r); c|=r; c.clear(); Gone t(path("tr2")); CHECK(!r.write_to_file(t.f),"an empty filter is stored"); spit(file.f,b); CHECK(r.read_from_file(file.f),"the whole file is loaded afterwards"); CHECK(r==f,"the filter loaded afterwards differs"); }
}
// Layout-independent damage: any bytes, any aligned field of 4 or 8 bytes.
template<class T> static void damaged(G& g,const char* name){
  g.note(name); P p=gen_params(g); F f(p); auto keys=gen_keys(g); for(auto& k:keys) f.insert(k); g.nt(!keys.empty()); Gone file(path("dm")); CHECK(f.write_to_file(file.f),"filter is written"); std::string b=slurp(file.f); size_t head=std::min<size_t>(b.size(),64); std::string d;
  for(size_t i=0,n=1+g.below(2);i<n;++i) switch(g.below(5)){
    case 0: { size_t k=g.below(b.size()); b[k]=(char)(b[k]^(1<<g.below(8))); d+=" bit@"+std::to_string(k); break; }
    case 1: { size_t k=g.below(head-3); unsigned v=g.flip()?(unsigned)g.below(300):(unsigned)g.any64(); std::memcpy(&b[k],&v,4); d+=" u32@"+std::to_string(k)+"="+std::to_string(v); break; }
    case 2: { size_t k=g.below(head-7); unsigned long long v=g.flip()?g.below(300):g.any64(); std::memcpy(&b[k],&v,8); d+=" u64@"+std::to_string(k)+"="+std::to_string(v); break; }
    case 3: { size_t k=g.below(head-3); unsigned v; std::memcpy(&v,&b[k],4); v+=(unsigned)g.below(17)-8u; std::memcpy(&b[k],&v,4); d+=" u32@"+std::to_string(k)+"->"+std::to_string(v); break; }
    default: { size_t k=g.below(b.size()); std::string x=g.bytes(8); if(g.flip()) b.insert(k,x); else b.erase(k,g.below(9)); d+=" shift@"+std::to_string(k); if(b.size()<16) b.resize(16); head=std::min<size_t>(b.size(),64); } }
  g.show("damage",d); spit(file.f,b); T r(p); bool ok=r.read_from_file(file.f); g.label(ok?"loaded":"refused");
  if(!ok){ refused(r,"damaged"); for(auto& k:keys) r.contains(k); r.insert(std::string("x")); T c(r); c|=r; c.clear(); } else if(!!r) exercise(r,keys,"damaged",false);
}
FACET(damaged_filter,4000){ damaged<F>(g,"filter"); }
FACET(damaged_compressible,2000){ damaged<CF>(g,"compressible_filter"); }
FACET(arbitrary_file,1500){ P p=gen_params(g); Gone file(path("ar")); std::string b=g.bytes(120); g.show("file",b); g.nt(b.size()>40); spit(file.f,b); F r(p); bool ok=r.read_from_file(file.f); if(!ok) refused(r,"arbitrary"); else exercise(r,{},"arbitrary",false); }
// A compressed filter's file does not hold its size history; loading it must be refused or give every answer.
FACET(stored_compressed,1000){
  P p=gen_params(g); CF f(p); auto keys=gen_keys(g); for(auto& k:keys) f.insert(k); g.nt(!keys.empty()); if(!f.compress(g.pick<double>({20.0,50.0,70.0}))) return; g.label("compressed"); Gone file(path("sc")); if(!f.write_to_file(file.f)) return;
  F r; if(r.read_from_file(file.f)){ for(auto& k:keys) CHECK(r.contains(k),"a compressed filter loaded from its file forgets "<<pbt::quote(k)); } else refused(r,"compressed"); CF c(p); if(c.read_from_file(file.f)){ for(auto& k:keys) CHECK(c.contains(k),"a compressed filter loaded from its file forgets "<<pbt::quote(k)); } else refused(c,"compressed");
}
FACET(missing_file,300){ P p=gen_params(g); F f(p); auto keys=gen_keys(g); for(auto& k:keys) f.insert(k); g.nt(); F before(f); CHECK(!f.read_from_file(path("none")),"a missing file is reported"); CHECK(!f.write_to_file(path("none")+"/none"),"an unwritable file is reported"); CHECK(!f.write_to_file("/dev/full"),"a full device is reported"); CHECK(f==before,"a filter changed by a missing file"); for(auto& k:keys) CHECK(f.contains(k),"forgets after a missing file"); F e; CHECK(!e,"a default filter is empty"); CHECK(!e.write_to_file(path("none")),"an empty filter is not stored"); }
// The device fills up while a filter is stored, or stops being readable while it is loaded: the outcome says so.
template<class T> static void faulty(G& g,const char* name){
  g.note(name); P p=gen_params(g); T f(p); auto keys=gen_keys(g); for(auto& k:keys) f.insert(k); g.nt(!keys.empty()); Gone file(path("fd")); CHECK(f.write_to_file(file.f),"filter is written"); std::string b=slurp(file.f); size_t k=g.chance(1,4)?b.size()+g.below(2):g.below(b.size()); g.show("at byte",k); g.show("size",b.size());
  if(g.flip()){ g.label("stored"); Gone o(path("fe")); bool ok; { faults::WriteLimit l(k); ok=f.write_to_file(o.f); } CHECK_EQ(ok,k>=b.size(),"outcome of storing on a device with room for "<<k<<" of "<<b.size()<<" bytes"); if(ok) CHECK(slurp(o.f)==b,"stored bytes"); return; }
  g.label("loaded"); T r(p); if(g.flip()) r.insert(7); bool ok; { if(g.chance(1,6)){ faults::ShortReads s(1+g.below(50)); k=b.size(); ok=r.read_from_file(file.f); } else { faults::ReadFault e(k); ok=r.read_from_file(file.f); } }
  CHECK_EQ(ok,k>=b.size(),"outcome of loading a file that fails at byte "<<k<<" of "<<b.size()); if(ok) for(auto& x:keys) CHECK(r.contains(x),"the loaded filter forgets"); else { refused(r,"unreadable"); for(auto& x:keys) r.contains(x); r.insert(std::string("x")); CHECK(r.read_from_file(file.f),"the file is loaded once it can be read"); for(auto& x:keys) CHECK(r.contains(x),"the filter loaded afterwards forgets"); }
}
FACET(faulty_device,1200){ if(g.flip()) faulty<F>(g,"filter"); else faulty<CF>(g,"compressible_filter"); }
