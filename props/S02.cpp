#include <cmath>
#include "binmodel.hpp"
#include <fstream>
#include "faults.hpp"
namespace pbt { const char* const property_id="S02";
const char* const rule_text="Read programs of up to 14 operations over 40 kinds of value run against (a) arbitrary bytes, (b) valid encodings cut at any point, (c) valid encodings with counts and bytes overwritten; write programs against every capacity from zero to a little more than needed, in exactly sized heap buffers under AddressSanitizer. A reference decoder/encoder predicts success of each operation. Kinds with invalid bit patterns (bool, long double) are excluded from corrupted input. Non-trivial: at least one operation fails and at least one succeeds. Distinct by generated inputs."; }
using namespace model; using pbt::G; using namespace bm;
static Ops make(G& g,size_t lo,bool any){ Ops o; size_t n=lo+g.below(14); for(size_t i=0;i<n;++i) o.v.push_back(op(g,any)); return o; }
static void reads(G& g,const Ops& o,const std::string& bytes){
  Exact b(bytes); R r(b.p,b.n); size_t pos=0,ok=0,bad=0; bool carry=g.flip(); g.show("after_failure_continue",carry);
  for(size_t i=0;i<o.v.size();++i){ auto& p=o.v[i]; Enc got,want; In in={bytes,pos}; bool w=p->d(in,want); bool k=p->read(r,got); CHECK_EQ(k,w,"reading "<<p->name<<" (operation "<<i<<") at "<<pos<<" of "<<bytes.size()); size_t q=r.position(); CHECK(q<=bytes.size(),"position "<<q<<" within "<<bytes.size()); CHECK_EQ((size_t)(r.position_ptr()-b.p),q,"pointer and position agree");
    if(w){ CHECK_EQ(got,want,"value of "<<p->name); CHECK_EQ(q,in.p,"position after "<<p->name); pos=q; ++ok; } else { ++bad; if(carry) pos=q; else { CHECK(r.rewind(q),"rewind after failure"); CHECK(r.seek((int)pos),"seek back after failure"); CHECK_EQ((size_t)r.position(),pos,"position restored"); } } }
  CHECK_EQ(b.str(),bytes,"reading leaves the source unchanged"); r.reset(); CHECK_EQ((size_t)r.position(),(size_t)0,"reset"); char c; CHECK_EQ(r(c),!bytes.empty(),"usable after failures"); g.nt(ok&&bad);
}
static std::string counts(G& g){ // bytes that look like plausible counts
  std::string s; size_t n=g.below(30); for(size_t i=0;i<n;++i) switch(g.below(4)){ case 0: { unsigned v=(unsigned)g.below(6); s.append((char*)&v,4); break; } case 1: { unsigned v=(unsigned)g.integer<unsigned>(); s.append((char*)&v,4); break; } case 2: { unsigned short v=(unsigned short)g.below(9); s.append((char*)&v,2); break; } default: s+=g.fixed("0123456789-+ a",g.below(12)); } return s; }
FACET(arbitrary_bytes,9000){ Ops o=make(g,1,false); std::string b=g.flip()?counts(g):g.bytes(200); g.show("bytes",b); g.note(o.names()); reads(g,o,b); }
FACET(truncated,9000){ Ops o; size_t n=1+g.below(10); Enc e; for(size_t i=0;i<n;++i){ P p=op(g,false); if(!p->writable()) continue; p->e(e); o.v.push_back(std::move(p)); } size_t cut=g.below(e.b.size()+1); if(g.chance(1,3)) cut=e.b.size()-std::min<size_t>(e.b.size(),g.below(4)); g.show("cut",(unsigned long)cut); g.show("of",(unsigned long)e.b.size()); g.note(o.names()); reads(g,o,e.b.substr(0,cut)); }
FACET(corrupted,9000){ Ops o; size_t n=1+g.below(8); Enc e; for(size_t i=0;i<n;++i){ P p=op(g,false); if(!p->writable()) continue; p->e(e); o.v.push_back(std::move(p)); } size_t k=1+g.below(4); for(size_t i=0;i<k&&!e.b.empty();++i){ size_t at=g.below(e.b.size()); switch(g.below(4)){ case 0: e.b[at]=char(g.below(256)); break; case 1: e.b[at]^=char(1<<g.below(8)); break; case 2: for(size_t j=at;j<at+4&&j<e.b.size();++j) e.b[j]=char(0xff); break; default: e.b[at]=char(e.b[at]+g.pick({1,-1})); } } if(g.chance(1,4)) e.b.resize(g.below(e.b.size()+1)); g.show("bytes",e.b); g.note(o.names()); reads(g,o,e.b); }
FACET(short_capacity,9000){ // writing
  Ops o=make(g,1,true); size_t need=0; for(auto& p:o.v) if(p->writable()){ Enc e; p->e(e); need+=e.b.size(); } size_t cap=g.chance(1,3)?need-std::min<size_t>(need,g.below(5)):g.below(need+8); g.show("capacity",(unsigned long)cap); g.show("needed",(unsigned long)need); g.note(o.names());
  Exact b(std::string(cap,'\x5A')); W w(b.p,b.n); size_t pos=0,ok=0,bad=0; bool carry=g.flip(); g.show("after_failure_continue",carry); std::string img(cap,'\x5A');
  for(auto& p:o.v){ Enc e; bool wr=p->writable(); if(wr) p->e(e); bool want=wr&&e.b.size()<=cap-pos; if(!carry) w.mark(); bool k=p->write(w); CHECK_EQ(k,want,"writing "<<p->name<<" ("<<e.b.size()<<" bytes) at "<<pos<<" of "<<cap); size_t q=w.position(); CHECK(q<=cap,"position "<<q<<" within "<<cap); CHECK_EQ((size_t)(w.position_ptr()-b.p),q,"pointer and position agree");
    std::string now=b.str(); CHECK_EQ(now.substr(0,pos),img.substr(0,pos),"earlier bytes kept"); if(want){ CHECK_EQ(q,pos+e.b.size(),"position after "<<p->name); Enc got; got.b=now.substr(pos,e.b.size()); got.m=e.m; CHECK_EQ(got,e,"bytes of "<<p->name); pos=q; ++ok; } else { ++bad; if(carry) pos=q; else { CHECK(w.reset_to_mark(),"back to the mark"); CHECK_EQ((size_t)w.position(),pos,"position restored"); } } img=now; }
  g.nt(ok&&bad);
}
FACET(null_and_empty,500){ size_t n=g.below(3); std::unique_ptr<char[]> m(new char[n]); R r((char*)0,0); W w((char*)0,0); CHECK(!r&&!w,"null buffer is not usable"); int x=7; std::string s="z"; std::vector<int> v; CHECK(!r(x)&&!r(s)&&!r(v)&&!w(x)&&!w(s)&&!w(v),"nothing fits"); CHECK_EQ(x,7,"untouched"); CHECK_EQ(s,"z","untouched"); R r2(m.get(),n); W w2(m.get(),n); CHECK(!w2(5)&&!r2(x),"too small"); g.nt(n>0); }
LARGE1(truncated,20,1200) LARGE1(corrupted,20,1200) LARGE1(short_capacity,20,1200)
// The reader's buffer filled from a stream: never more bytes than its size, and success exactly when all bytes asked for arrived.
FACET(filled_from_a_stream,800){
  std::string c=g.bytes(200); if(g.chance(1,6)) c+=std::string(16000+g.below(2000),'x'); std::string f=pbt::scratch("s02"); { std::ofstream o(f.c_str(),std::ios::binary); o<<c; } size_t n=g.chance(1,3)?c.size():g.below(c.size()+20),cap=g.chance(1,3)?n:g.chance(1,4)?n/2:n+g.below(30); if(!cap) cap=1; bool fault=g.chance(1,3); size_t k=fault?g.below(c.size()+1):c.size(); g.show("stream",c.size()); g.show("asked",n); g.show("buffer",cap); g.show("readable",k); g.nt(n>0); bool pre=g.chance(1,4);
  Exact b(std::string(cap,'\x5A')); R r(b.p,b.n); size_t used=0; if(pre){ char x; while(used<std::min(n,cap)&&r(x)) ++used; g.note("by the amount read so far"); n=used; } bool ok; { faults::ReadFault e(fault?k:~0ull>>1); std::ifstream s(f.c_str(),std::ios::binary); ok=pre?r(s):r(s,n); } unlink(f.c_str());
  bool want=n<=cap&&n<=k&&!(pre&&n==0); if(!n&&!pre) return; CHECK_EQ(ok,want,"filling "<<n<<" bytes from a stream of "<<k); std::string got=b.str(); if(n>cap){ CHECK(got==std::string(cap,'\x5A'),"a refused request changed the buffer"); return; } CHECK(got.substr(0,std::min(n,k))==c.substr(0,std::min(n,k)),"bytes from the stream"); CHECK(got.substr(n)==std::string(cap-n,'\x5A'),"bytes beyond the request");
}
