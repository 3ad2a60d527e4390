#include <cmath>
#include <fstream>
#include "binmodel.hpp"
namespace pbt { const char* const property_id="S01";
const char* const rule_text="Sequences of up to 14 values drawn from 44 kinds (all arithmetic types, strings with 8/16/32-bit counts, plain arrays, pointer+length blocks with every length type, vector/deque/list/set/multiset of scalars, strings, pairs, nested containers and user classes, padded text, byte-ordered integers), written to an exactly sized heap buffer (or one with slack), directly or through a file, and read back. The bytes written are compared with a reference encoding, the values with the originals, positions with the encoded size. Non-trivial: at least two values and at least 8 bytes. Distinct by generated inputs."; }
using namespace model; using pbt::G; using namespace bm;
static Ops make(G& g,size_t lo){ Ops o; size_t n=lo+g.below(14); for(size_t i=0;i<n;++i){ P p=op(g); if(p->writable()) o.v.push_back(std::move(p)); } return o; }
static void readback(G&,const Ops& o,const std::string& bytes,R& r){ size_t pos=0; for(auto& p:o.v){ Enc w,got; p->e(w); bool k=p->read(r,got); CHECK(k,"reading "<<p->name<<" back at "<<pos); 
    { In in={bytes,pos}; Enc want; CHECK(p->d(in,want),"model"); CHECK_EQ(got,want,"value of "<<p->name); pos=in.p; } CHECK_EQ((size_t)r.position(),pos,"reader position after "<<p->name); CHECK_EQ((size_t)r.amount_read(),pos,"amount read"); } }
FACET(round_trip,9000){
  Ops o=make(g,1); g.note(o.names()); Enc e; for(auto& p:o.v) p->e(e); size_t slack=g.chance(1,3)?g.below(40):0; g.show("slack",(unsigned long)slack); g.show("bytes",e); g.nt(o.size()>1&&e.b.size()>=8);
  Exact buf(std::string(e.b.size()+slack,'\x5A')); { W w(buf.p,buf.n); size_t pos=0; for(auto& p:o.v){ Enc x; p->e(x); CHECK(p->write(w),"writing "<<p->name<<" at "<<pos); pos+=x.b.size(); CHECK_EQ((size_t)w.position(),pos,"writer position after "<<p->name); CHECK_EQ((size_t)w.amount_written(),pos,"amount written"); CHECK_EQ((size_t)(w.position_ptr()-buf.p),pos,"pointer"); } }
  Enc got; got.b=buf.str().substr(0,e.b.size()); got.m=e.m; CHECK_EQ(got,e,"encoded bytes"); CHECK_EQ(buf.str().substr(e.b.size()),std::string(slack,'\x5A'),"bytes beyond untouched");
  R r(buf.p,buf.n); readback(g,o,got.b,r); r.reset(); CHECK_EQ((size_t)r.position(),(size_t)0,"reset"); readback(g,o,got.b,r);
}
FACET(through_a_file,300){
  Ops o=make(g,1); g.note(o.names()); Enc e; for(auto& p:o.v) p->e(e); g.show("bytes",e); g.nt(o.size()>1&&e.b.size()>=8); if(e.b.empty()) return; std::string f=std::string(getenv("PBT_TMP")?getenv("PBT_TMP"):"/tmp")+"/s01."+std::to_string(getpid());
  Exact a(std::string(e.b.size(),'\0')); W w(a.p,a.n); for(auto& p:o.v) CHECK(p->write(w),"write"); { std::ofstream s(f.c_str(),std::ios::binary); CHECK_EQ((size_t)w(s),e.b.size(),"written to stream"); } Exact b(std::string(e.b.size(),'\0')); R r(b.p,b.n); { std::ifstream s(f.c_str(),std::ios::binary); bool k=r(s,(std::size_t)e.b.size()+1); bool j=r(s,(std::size_t)e.b.size()); unlink(f.c_str()); CHECK(!k,"more than the buffer is refused"); CHECK(j,"stream read"); } CHECK_EQ(b.str(),a.str(),"same bytes"); readback(g,o,a.str(),r);
}
FACET(element_buffers,3000){ // buffers of wider elements: the length counts elements
  size_t n=g.below(20); g.show("elements",(unsigned long)n); g.nt(n>1); std::unique_ptr<unsigned long long[]> b(new unsigned long long[n]); W w(b.get(),n); for(size_t i=0;i<n;++i) CHECK(w((unsigned long long)(i*i+1)),"fits"); CHECK(!w('x'),"full"); CHECK_EQ((size_t)w.position(),8*n,"position"); R r(b.get(),n); for(size_t i=0;i<n;++i){ unsigned long long x=0; CHECK(r(x),"read"); CHECK_EQ(x,(unsigned long long)(i*i+1),"value"); } char c; CHECK(!r(c),"exhausted"); CHECK_EQ(!w,n==0,"usable writer"); CHECK_EQ(!r,n==0,"usable reader");
}
FACET(rereading,5000){ // marks, rewinding and seeking reposition exactly
  Ops o=make(g,2); if(o.v.empty()) return; g.note(o.names()); Enc e; for(auto& p:o.v) p->e(e); g.nt(o.size()>1&&e.b.size()>=8); Exact buf(std::string(e.b.size(),'\0')); W w(buf.p,buf.n); std::vector<size_t> at; for(auto& p:o.v){ at.push_back(w.position()); CHECK(p->write(w),"write"); } std::string bytes=buf.str(); R r(buf.p,buf.n); size_t cur=0; std::vector<size_t> marks;
  size_t n=1+g.below(25); for(size_t s=0;s<n;++s){ switch(g.below(5)){ case 0: r.mark(); marks.push_back(cur); break; case 1: { bool k=r.reset_to_mark(); CHECK_EQ(k,!marks.empty(),"reset to mark"); if(k){ cur=marks.back(); marks.pop_back(); } break; } case 2: { size_t d=g.below(cur+3); bool k=r.rewind(d); CHECK_EQ(k,d<=cur,"rewind"); if(k) cur-=d; break; } case 3: { int d=(int)g.range(-(long long)cur-2,(long long)(buf.n-cur)+2); bool k=r.seek(d); bool ok=d<0?(size_t)-d<=cur:cur+d<=buf.n; CHECK_EQ(k,ok,"seek "<<d); if(k) cur+=d; break; }
      default: { size_t i=g.below(at.size()); CHECK(r.seek((int)((long long)at[i]-(long long)cur)),"seek to a value"); Enc got,want; CHECK(o.v[i]->read(r,got),"read "<<o.v[i]->name); In in={bytes,at[i]}; o.v[i]->d(in,want); CHECK_EQ(got,want,"value of "<<o.v[i]->name); cur=in.p; } }
    CHECK_EQ((size_t)r.position(),cur,"position"); CHECK_EQ((size_t)(r.position_ptr()-buf.p),cur,"pointer"); }
  W v(buf.p,buf.n); size_t k=g.below(o.size()+1); for(size_t i=0;i<k;++i) o.v[i]->write(v); size_t mk=v.position(); v.mark(); for(size_t i=k;i<o.size();++i) o.v[i]->write(v); CHECK(v.reset_to_mark(),"writer mark"); CHECK_EQ((size_t)v.position(),mk,"writer back at mark"); CHECK(!v.reset_to_mark(),"one mark"); for(size_t i=k;i<o.size();++i) CHECK(o.v[i]->write(v),"rewrite"); Enc got; got.b=buf.str(); got.m=e.m; CHECK_EQ(got,e,"rewritten bytes"); v.clear(); CHECK_EQ(buf.str(),std::string(buf.n,'\0'),"cleared"); CHECK_EQ((size_t)v.position(),(size_t)0,"cleared");
}
FACET(appending,4000){ // sequences read into a filled container keep what is there, vectors are replaced
  std::list<int> a,b; std::vector<int> v,x; std::set<int> s,t; gen(g,a); gen(g,b); gen(g,v); gen(g,x); gen(g,s); gen(g,t); g.show("list",a); g.show("into",b); g.nt(a.size()>1); Enc e; enc(e,a); enc(e,v); enc(e,s); Exact buf(std::string(e.b.size(),'\0')); W w(buf.p,buf.n); CHECK(w(a)&&w(v)&&w(s),"write"); R r(buf.p,buf.n); std::list<int> wb=b; wb.insert(wb.end(),a.begin(),a.end()); std::set<int> wt=t; wt.insert(s.begin(),s.end()); CHECK(r(b)&&r(x)&&r(t),"read"); CHECK_EQ(b,wb,"list appended"); CHECK_EQ(x,v,"vector replaced"); CHECK_EQ(t,wt,"set merged");
}
FACET(unset_short_strings,200){ Exact b(std::string(8,'\0')); g.nt(g.flip()); W w(b.p,8); R r(b.p,8); strtk::binary::short_string s; strtk::binary::pascal_string p; CHECK(!w(s)&&!w(p)&&!r(s)&&!r(p),"unset"); std::string t="ab"; s.set(t); CHECK(w(s),"set"); s.clear(); CHECK(!w(s),"cleared"); CHECK_EQ((size_t)w.position(),(size_t)4,"position"); }
// Starting over: a cleared writer's (or reader's) whole buffer is zero and is used from the start again.
FACET(cleared,1500){
  Ops o=make(g,1); g.note(o.names()); Enc e; for(auto& p:o.v) p->e(e); size_t slack=g.below(9); Exact buf(std::string(e.b.size()+slack,'\x5A')); g.show("bytes",e); g.nt(o.size()>1&&e.b.size()>=8); unsigned form=(unsigned)g.below(4); g.show("form",form);
  W w(buf.p,buf.n); size_t k=g.below(o.size()+1); for(size_t i=0;i<k;++i) CHECK(o.v[i]->write(w),"write"); std::string part=buf.str();
  switch(form){ case 0: w.reset(true); break; case 1: w.clear(); break; case 2: w.reset(); CHECK_EQ(buf.str(),part,"a plain reset keeps the bytes"); break; default: { R r(buf.p,buf.n); if(buf.n){ char c; r(c); } r.reset(true); CHECK_EQ((size_t)r.position(),(size_t)0,"reader position"); w.reset(); break; } }
  if(form!=2) CHECK_EQ(buf.str(),std::string(buf.n,'\0'),"bytes after clearing"); CHECK_EQ((size_t)w.position(),(size_t)0,"position"); CHECK_EQ(w.position_ptr(),(const char*)buf.p,"pointer");
  for(auto& p:o.v) CHECK(p->write(w),"write again"); Enc got; got.b=buf.str().substr(0,e.b.size()); got.m=e.m; CHECK_EQ(got,e,"encoded bytes"); R r(buf.p,buf.n); readback(g,o,got.b,r);
}
LARGE1(round_trip,40,2500) LARGE1(rereading,20,1200) LARGE1(cleared,10,1200) LARGE(appending,10,2500)
// Texts and plain sequences longer than any short count, one value after another.
template<class C> static void lengthy(G& g,const char* n){
  size_t k=g.big(150000); g.note(n); g.show("elements",(unsigned long)k); g.nt(k>300); std::string raw=g.nbytes(k*sizeof(typename C::value_type)); typedef typename C::value_type T; C c,d; for(size_t i=0;i<k;++i){ T t; memcpy(&t,raw.data()+i*sizeof t,sizeof t); c.insert(c.end(),t); }
  Enc e; enc(e,c); unsigned after=0xA1B2C3D4u,x=0; enc(e,after); Exact b(std::string(e.b.size(),'\0')); { W w(b.p,b.n); CHECK(w(c)&&w(after),"writing"); CHECK_EQ((size_t)w.position(),b.n,"writer position"); } CHECK(b.str()==e.b,"encoded bytes");
  R r(b.p,b.n); CHECK(r(d)&&r(x),"reading"); CHECK(c==d,"value"); CHECK_EQ(x,after,"value after"); CHECK_EQ((size_t)r.position(),b.n,"reader position");
  size_t cut=g.below(b.n); Exact q(e.b.substr(0,cut)); R s(q.p,q.n); C y; bool k1=s(y),k2=k1&&s(x); CHECK(!k2&&(k1==(cut+4>=b.n)),"cut at "<<cut<<" of "<<b.n); Exact o(std::string(cut,'\0')); W v(o.p,o.n); bool w1=v(c); CHECK_EQ(w1,cut+4>=b.n,"capacity "<<cut);
}
FACET(long_values,40){ switch(g.below(6)){ case 0: lengthy<std::string>(g,"string"); break; case 1: lengthy<std::vector<int> >(g,"vector<int>"); break; case 2: lengthy<std::deque<short> >(g,"deque<short>"); break; case 3: lengthy<std::list<char> >(g,"list<char>"); break; case 4: lengthy<std::vector<unsigned char> >(g,"vector<unsigned char>"); break; default: lengthy<std::multiset<unsigned short> >(g,"multiset<ushort>"); } }
