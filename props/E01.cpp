#include "models.hpp"
#include "strtk.hpp"
namespace pbt { const char* const property_id="E01";
const char* const rule_text="Byte strings of every length 0..400 (all residues mod 3) over all byte values and over bit-pattern-heavy alphabets, encoded and decoded through every overload with exactly sized heap buffers; hexadecimal in mixed case; malformed coded text over all bytes, of every length. Non-trivial: at least two bytes of input. Distinct by generated inputs."; }
using namespace model; using pbt::G;
static const char H[]="0123456789ABCDEF"; static const char B[]="ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
typedef unsigned char u8; static char lc(char c){ return c>=65&&c<=90?char(c+32):c; } static char uc(char c){ return c>=97&&c<=122?char(c-32):c; }
static std::string hex(const std::string& s){ std::string r; for(unsigned char c:s){ r+=H[c/16]; r+=H[c%16]; } return r; }
static std::string b64(const std::string& s){ std::string bits,r; for(u8 c:s) for(int i=7;i>=0;--i) bits+=char('0'+((c>>i)&1)); while(bits.size()%6) bits+='0'; for(size_t i=0;i<bits.size();i+=6){ int v=0; for(int j=0;j<6;++j) v=v*2+(bits[i+j]-'0'); r+=B[v]; } while(r.size()%4) r+='='; return r; }
static std::string data(G& g){ size_t n=g.len(400); std::string s; switch(g.below(4)){ case 0: return g.nbytes(n); case 1: for(size_t i=0;i<n;++i) s+=char(g.pick({0,255,127,128,63,252,3,192,240,15})); return s; case 2: for(size_t i=0;i<n;++i) s+=char(1u<<g.below(8)); return s; default: return g.fixed("abcXYZ019 ",n); } }
struct Out { Exact e; Out(size_t n):e(std::string(n,'\x5A')){} char* c(){ return e.p; } u8* u(){ return (u8*)e.p; } std::string str(){ return std::string(e.b(),e.e()); } };
FACET(hex_coding,12000){
  std::string s=data(g),w=hex(s); g.show("data",s); g.nt(s.size()>1); Exact x(s); u8* b=(u8*)x.p; u8* e=(u8*)x.e(); size_t n=w.size();
  { Out o(n); strtk::convert_bin_to_hex((const u8*)b,(const u8*)e,o.u()); CHECK_EQ(o.str(),w,"uchar range"); } { Out o(n); strtk::convert_bin_to_hex((const char*)x.b(),(const char*)x.e(),o.c()); CHECK_EQ(o.str(),w,"char range"); }
  { Out o(n); strtk::convert_bin_to_hex(std::make_pair(b,e),o.u()); CHECK_EQ(o.str(),w,"uchar pair"); } { Out o(n); strtk::convert_bin_to_hex(std::make_pair((const u8*)b,(const u8*)e),o.u()); CHECK_EQ(o.str(),w,"const uchar pair"); } { Out o(n); strtk::convert_bin_to_hex(std::make_pair((const char*)b,(const char*)e),o.c()); CHECK_EQ(o.str(),w,"const char pair"); }
  { std::string o=g.text("q",9); strtk::convert_bin_to_hex(s,o); CHECK_EQ(o,w,"string"); CHECK_EQ(strtk::convert_bin_to_hex(s),w,"string returned"); }
  std::string m=w; unsigned cs=(unsigned)g.below(3); g.show("case",cs); for(size_t i=0;i<n;++i) if(cs==1||(cs==2&&g.flip())) m[i]=lc(m[i]); bool ok=!s.empty(); Exact y(m); u8 *yb=(u8*)y.b(),*ye=(u8*)y.e();
  #define D(EXPR,M,NAME) { Out o(s.size()); CHECK_EQ((EXPR),ok,NAME); CHECK_EQ(o.str(),s,NAME " decoded"); }
  D(strtk::convert_hex_to_bin((const u8*)yb,(const u8*)ye,o.u()),u,"uchar") D(strtk::convert_hex_to_bin((const char*)yb,(const char*)ye,o.c()),c,"char") D(strtk::convert_hex_to_bin(std::make_pair(yb,ye),o.u()),u,"uchar pair") D(strtk::convert_hex_to_bin(std::make_pair((const u8*)yb,(const u8*)ye),o.u()),u,"const uchar pair") D(strtk::convert_hex_to_bin(std::make_pair((char*)yb,(char*)ye),o.c()),c,"char pair") D(strtk::convert_hex_to_bin(std::make_pair((const char*)yb,(const char*)ye),o.c()),c,"const char pair")
  #undef D
  std::string o="keep"; CHECK_EQ(strtk::convert_hex_to_bin(m,o),ok,"string decode"); CHECK_EQ(o,ok?s:"keep","string decode");
}
FACET(hex_malformed,6000){
  size_t n=g.len(120); std::string s=g.flip()?g.nbytes(n):g.fixed("0123456789abcdefABCDEFgG:/@`",n); g.show("text",s); g.nt(n>1); bool ok=n&&n%2==0; Exact x(s); Out o(n/2); CHECK_EQ(strtk::convert_hex_to_bin((const char*)x.b(),(const char*)x.e(),o.c()),ok,"accepts whole pairs only"); if(!ok) CHECK_EQ(o.str(),std::string(n/2,'\x5A'),"rejected text writes nothing");
  std::string t="keep"; CHECK_EQ(strtk::convert_hex_to_bin(s,t),ok,"string"); if(ok) { CHECK_EQ(t,o.str(),"agree"); static const std::string dg="0123456789abcdef"; for(size_t i=0;i<n/2;++i){ size_t a=dg.find(lc(s[2*i])),b=dg.find(lc(s[2*i+1])); if(a!=std::string::npos&&b!=std::string::npos) CHECK_EQ((unsigned)(u8)t[i],(unsigned)(a*16+b),"valid pair "<<i); } }
}
FACET(base64_coding,12000){
  std::string s=data(g),w=b64(s); g.show("data",s); g.nt(s.size()>1); Exact x(s); size_t n=w.size();
  { Out o(n); CHECK_EQ(strtk::convert_bin_to_base64((const u8*)x.b(),(const u8*)x.e(),o.u()),n,"size"); CHECK_EQ(o.str(),w,"uchar"); } { Out o(n); CHECK_EQ(strtk::convert_bin_to_base64((const char*)x.b(),(const char*)x.e(),o.c()),n,"size"); CHECK_EQ(o.str(),w,"char"); } { std::string o=g.text("q",9); strtk::convert_bin_to_base64(s,o); CHECK_EQ(o,w,"string"); }
  bool pad=g.chance(3,4); g.show("padded",pad); std::string m=w; if(!pad) while(!m.empty()&&m[m.size()-1]=='=') m.resize(m.size()-1); Exact y(m);
  { Out o(s.size()); CHECK_EQ(strtk::convert_base64_to_bin((const u8*)y.b(),(const u8*)y.e(),o.u()),s.size(),"size"); CHECK_EQ(o.str(),s,"uchar decoded"); } { Out o(s.size()); CHECK_EQ(strtk::convert_base64_to_bin((const char*)y.b(),(const char*)y.e(),o.c()),s.size(),"size"); CHECK_EQ(o.str(),s,"char decoded"); } { std::string o=g.text("q",9); strtk::convert_base64_to_bin(m,o); CHECK_EQ(o,s,"string decoded"); }
}
FACET(base64_malformed,6000){
  size_t n=g.len(60); std::string s=g.flip()?g.nbytes(n):g.fixed("ABab01+/==",n); g.show("text",s); g.nt(n>1); Exact x(s); size_t c=3*n/4+1; Out o(c); size_t r=strtk::convert_base64_to_bin((const char*)x.b(),(const char*)x.e(),o.c()); CHECK(r<=3*n/4,"size within bound"); std::string t; strtk::convert_base64_to_bin(s,t); CHECK_EQ(t.size(),r,"agree"); CHECK_EQ(t,o.str().substr(0,r),"agree");
}
FACET(short_inputs_exhaustive,600){
  unsigned a=(unsigned)g.below(256),k=(unsigned)g.below(3); std::string s(1,char(a)); g.show("first",a); g.show("extra",k); g.nt(k>0);
  for(unsigned b=0;b<256;++b){ std::string t=s; if(k>=1) t+=char(b); if(k==2) t+=char(b*37+a); std::string o,d; strtk::convert_bin_to_base64(t,o); CHECK_EQ(o,b64(t),"base64"); strtk::convert_base64_to_bin(o,d); CHECK_EQ(d,t,"base64 back"); strtk::convert_bin_to_hex(t,o); CHECK_EQ(o,hex(t),"hex"); CHECK(strtk::convert_hex_to_bin(o,d),"hex back"); CHECK_EQ(d,t,"hex back"); }
}
LARGE(hex_coding,8,140000) LARGE(hex_malformed,6,70000) LARGE(base64_coding,8,140000) LARGE(base64_malformed,6,70000)
