#include <deque>
#include <list>
#include "models.hpp"
#include "strtk.hpp"
namespace pbt { const char* const property_id="E02";
const char* const rule_text="Byte strings of 0..300 bytes over all values, pairs of equal, near-equal and unequal-length strings (flipping a few bits), words of every width, bit positions anywhere in a buffer; the interleave, population-count and character tables are swept over all 256 (x 256) values. Results compared with bit-by-bit definitions, outputs in exactly sized heap buffers. Non-trivial: at least two bytes of input. Distinct by generated inputs."; }
using namespace model; using pbt::G; typedef unsigned char u8; static char lc(char c){ return c>=65&&c<=90?char(c+32):c; } static char uc(char c){ return c>=97&&c<=122?char(c-32):c; } typedef unsigned long long u64;
static size_t pop(const std::string& s){ size_t n=0; for(u8 c:s) for(int i=0;i<8;++i) n+=(c>>i)&1; return n; }
static std::string inter(const std::string& a,const std::string& b){ std::string r; for(size_t i=0;i<a.size();++i){ unsigned w=0; for(int j=0;j<8;++j){ w|=(unsigned)(((u8)a[i]>>j)&1)<<(2*j); w|=(unsigned)(((u8)b[i]>>j)&1)<<(2*j+1); } r+=char(w&255); r+=char(w>>8); } return r; }
static std::string partner(G& g,const std::string& a){ std::string b=a; switch(g.below(4)){ case 0: return g.bytes(300); case 1: { size_t k=g.below(4); for(size_t i=0;i<k&&!b.empty();++i) b[g.below(b.size())]^=char(1u<<g.below(8)); return b; } case 2: return g.nbytes(a.size()); default: if(g.flip()) b+=char(g.below(256)); else if(!b.empty()) b.resize(b.size()-1); return b; } }
struct Out { Exact e; Out(size_t n):e(std::string(n,'\x5A')){} char* c(){ return e.p; } u8* u(){ return (u8*)e.p; } std::string str(){ return std::string(e.b(),e.e()); } };
FACET(interleave,10000){
  std::string a=g.bytes(300),b=partner(g,a); g.show("a",a); g.show("b",b); bool ok=a.size()==b.size(); g.nt(a.size()>1&&ok); Exact x(a),y(b); std::string w=ok?inter(a,b):std::string(2*a.size(),'\x5A');
  { Out o(2*a.size()); CHECK_EQ(strtk::twoway_bitwise_interleave((const u8*)x.b(),(const u8*)x.e(),(const u8*)y.b(),(const u8*)y.e(),o.u()),ok,"uchar"); CHECK_EQ(o.str(),w,"uchar"); } { Out o(2*a.size()); CHECK_EQ(strtk::twoway_bitwise_interleave((const char*)x.b(),(const char*)x.e(),(const char*)y.b(),(const char*)y.e(),o.c()),ok,"char"); CHECK_EQ(o.str(),w,"char"); }
  std::string o="keep"; CHECK_EQ(strtk::twoway_bitwise_interleave(a,b,o),ok,"string"); if(ok) CHECK_EQ(o,w,"string");
}
FACET(interleave_all_pairs,300){ unsigned i=(unsigned)g.below(256); g.show("byte",i); g.nt(i!=0); std::string a(256,char(i)),b; for(int k=0;k<256;++k) b+=char(k); std::string o; strtk::twoway_bitwise_interleave(a,b,o); CHECK_EQ(o,inter(a,b),"row"); strtk::twoway_bitwise_interleave(b,a,o); CHECK_EQ(o,inter(b,a),"column"); }
template<size_t N,class T> static void table(){ struct { T before; T t[256]; T after; } s; s.before=s.after=(T)0x5A5A; strtk::create_nway_interleave_table<N>(s.t); CHECK(s.before==(T)0x5A5A&&s.after==(T)0x5A5A,"nothing outside the table"); for(unsigned i=0;i<256;++i){ u64 w=0; for(unsigned j=0;j<8;++j) if(i>>j&1) w|=1ull<<(j*N); CHECK_EQ((u64)s.t[i],w,N<<"-way entry "<<i); } }
FACET(nway_tables,30){ unsigned e=(unsigned)g.below(3); g.show("table",e); g.nt(true); if(e==0) table<2,unsigned short>(); else if(e==1) table<4,unsigned int>(); else table<8,u64>(); }
FACET(bitwise,10000){
  std::string a=g.bytes(300),b=partner(g,a); g.show("a",a); g.show("b",b); strtk::bitwise_operation::type op=g.pick({strtk::bitwise_operation::eAND,strtk::bitwise_operation::eOR,strtk::bitwise_operation::eXOR}); g.show("op",(int)op); g.nt(a.size()>1&&a.size()==b.size());
  std::string o="keep"; if(a.size()!=b.size()){ strtk::bitwise_transform(op,a,b,o); CHECK_EQ(o,"keep","unequal sizes do nothing"); b.resize(a.size(),'\x11'); } std::string w; for(size_t i=0;i<a.size();++i) w+=op==strtk::bitwise_operation::eAND?char(a[i]&b[i]):op==strtk::bitwise_operation::eOR?char(a[i]|b[i]):char(a[i]^b[i]);
  strtk::bitwise_transform(op,a,b,o); CHECK_EQ(o,w,"string"); Exact x(a),y(b); { Out r(a.size()); strtk::bitwise_transform(op,(const u8*)x.b(),(const u8*)x.e(),(const u8*)y.b(),r.u()); CHECK_EQ(r.str(),w,"uchar"); } { Out r(a.size()); strtk::bitwise_transform(op,(const char*)x.b(),(const char*)x.e(),(const char*)y.b(),r.c()); CHECK_EQ(r.str(),w,"char"); } strtk::bitwise_transform(op,(const char*)x.b(),(const char*)x.e(),(const char*)y.b(),x.p); CHECK_EQ(x.str(),w,"in place");
}
FACET(counts,10000){
  std::string a=g.bytes(300); g.show("a",a); u64 q=g.any64(); g.show("word",q); g.nt(a.size()>1); Exact x(a); size_t w=pop(a);
  CHECK_EQ(strtk::high_bit_count(a),w,"string"); CHECK_EQ(strtk::high_bit_count((const u8*)x.b(),(const u8*)x.e()),w,"uchar"); CHECK_EQ(strtk::high_bit_count((const char*)x.b(),(const char*)x.e()),w,"char"); auto pc=[](u64 v){ size_t n=0; for(;v;v>>=1) n+=v&1; return n; };
  CHECK_EQ(strtk::high_bit_count((u8)q),pc((u8)q),"byte"); CHECK_EQ(strtk::high_bit_count((unsigned short)q),pc((unsigned short)q),"short"); CHECK_EQ(strtk::high_bit_count((unsigned)q),pc((unsigned)q),"int"); CHECK_EQ(strtk::high_bit_count((long long)q),pc(q),"long long");
}
FACET(byte_sweeps,40){ unsigned off=(unsigned)g.below(8); g.show("offset",off); g.nt(true); for(unsigned c=0;c<256;++c){ size_t n=0; for(int j=0;j<8;++j) n+=c>>j&1; CHECK_EQ(strtk::high_bit_count((u8)c),n,"bits of "<<c); std::string s(off,'x'); s+=char(c); std::string p=s,u=s,l=s; strtk::convert_to_printable_chars(p); strtk::convert_to_uppercase(u); strtk::convert_to_lowercase(l); CHECK_EQ((unsigned)(u8)p[off],(c>0x20&&c<0x7F)?c:(unsigned)'.',"printable "<<c); CHECK_EQ((unsigned)(u8)u[off],c>='a'&&c<='z'?c-32:c,"upper "<<c); CHECK_EQ((unsigned)(u8)l[off],c>='A'&&c<='Z'?c+32:c,"lower "<<c); } }
FACET(bits,10000){
  std::string a=g.bytes(60); if(a.empty()) a="\x0f"; g.show("a",a); size_t k=g.below(8*a.size()); g.show("bit",(unsigned long)k); g.nt(a.size()>1); Exact x(a); bool was=((u8)a[k/8]>>(k%8))&1; u8* p=(u8*)x.b(); CHECK_EQ(strtk::bit_state(k,p),was,"state");
  std::string hi=a,lo=a; hi[k/8]=char(hi[k/8]|(1<<(k%8))); lo[k/8]=char(lo[k/8]&~(1<<(k%8))); strtk::set_bit_high(k,p); CHECK_EQ(x.str(),hi,"set"); CHECK_EQ(strtk::bit_state(k,p),true,"set"); strtk::set_bit_low(k,p); CHECK_EQ(x.str(),lo,"cleared"); CHECK_EQ(strtk::bit_state(k,p),false,"cleared"); strtk::set_bit_low(k,p); CHECK_EQ(x.str(),lo,"cleared twice"); strtk::set_bit_high(k,p); CHECK_EQ(x.str(),hi,"set again");
}
FACET(hamming,10000){
  std::string a=g.bytes(300),b=partner(g,a); g.show("a",a); g.show("b",b); bool ok=a.size()==b.size(); g.nt(a.size()>1&&ok); size_t none=(size_t)-1,d=none,e=none; if(ok){ std::string x=a; e=0; for(size_t i=0;i<a.size();++i){ x[i]^=b[i]; e+=a[i]!=b[i]; } d=pop(x); } Exact x(a),y(b);
  CHECK_EQ(strtk::hamming_distance(a,b),d,"string"); CHECK_EQ(strtk::hamming_distance(b,a),d,"symmetric"); CHECK_EQ(strtk::hamming_distance((const u8*)x.b(),(const u8*)x.e(),(const u8*)y.b(),(const u8*)y.e()),d,"uchar"); CHECK_EQ(strtk::hamming_distance((const char*)x.b(),(const char*)x.e(),(const char*)y.b(),(const char*)y.e()),d,"char");
  CHECK_EQ(strtk::hamming_distance_elementwise(a,b),e,"elementwise"); CHECK_EQ(strtk::hamming_distance_elementwise(b,a),e,"elementwise symmetric"); CHECK_EQ(strtk::hamming_distance_elementwise(x.b(),x.e(),y.b(),y.e()),e,"elementwise range"); std::list<char> l(a.begin(),a.end()),m(b.begin(),b.end()); CHECK_EQ(strtk::hamming_distance_elementwise(l.begin(),l.end(),m.begin(),m.end()),e,"elementwise list");
}
FACET(cases,10000){
  std::string a=g.flip()?g.bytes(200):g.text("azAZ@[`{ 09mM\xe9",200); g.show("a",a); g.nt(a.size()>1); std::string up,lo,pr; for(char c:a){ up+=uc(c); lo+=lc(c); pr+=(u8)c>0x20&&(u8)c<0x7F?c:'.'; }
  #define V(F,W) { Exact x(a); strtk::F((u8*)x.b(),(u8*)x.e()); CHECK_EQ(x.str(),W,#F " uchar"); } { Exact x(a); strtk::F(x.p,x.p+x.n); CHECK_EQ(x.str(),W,#F " char"); } { std::string s=a; strtk::F(s); CHECK_EQ(s,W,#F " string"); }
  V(convert_to_uppercase,up) V(convert_to_lowercase,lo) V(convert_to_printable_chars,pr)
  #undef V
  Exact x(a); strtk::convert_to_lowercase((const char*)x.b(),(const char*)x.e()); CHECK_EQ(x.str(),lo,"const char"); CHECK_EQ(strtk::as_lowercase(a),lo,"as_lowercase"); CHECK_EQ(strtk::as_uppercase(a),up,"as_uppercase");
}
LARGE(interleave,6,70000) LARGE(bitwise,6,70000) LARGE(counts,6,70000) LARGE(bits,5,70000) LARGE(hamming,6,70000) LARGE(cases,6,70000)
