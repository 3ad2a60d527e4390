// Reference models shared by the harnesses: written from the definitions, not
// from strtk's code.
#ifndef MODELS_HPP
#define MODELS_HPP
#include "pbt.hpp"
namespace model {
typedef std::pair<size_t,size_t> Span; // [first,second) offsets
struct Set256 { bool v[256]; Set256(){ memset(v,0,sizeof v); } explicit Set256(const std::string& s){ memset(v,0,sizeof v); for(unsigned char c:s) v[c]=true; } bool operator()(char c) const { return v[(unsigned char)c]; } };
enum Mode { PLAIN, COMPRESS, FIRST, FIRST_COMPRESS, ALL };
template<class Pred> std::vector<Span> split(size_t n,Pred isd,Mode m){
  std::vector<Span> r; if(!n) return r; size_t b=0;
  for(size_t i=0;i<n;){
    if(!isd(i)){ ++i; continue; }
    size_t e=i; while(e<n&&isd(e)) ++e;  // the run is [i,e)
    switch(m){
      case PLAIN: r.push_back(Span(b,i)); b=i=i+1; break;
      case COMPRESS: r.push_back(Span(b,i)); b=i=e; break;
      case FIRST: r.push_back(Span(b,i+1)); b=i=i+1; break;
      case FIRST_COMPRESS: r.push_back(Span(b,i+1)); b=i=e; break;
      case ALL: r.push_back(Span(b,e)); b=i=e; break;
    }
  }
  r.push_back(Span(b,n)); return r;
}
inline std::vector<Span> split(const std::string& s,const Set256& d,Mode m){ return split(s.size(),[&](size_t i){ return d(s[i]); },m); }
inline std::vector<std::string> pieces(const std::string& s,const std::vector<Span>& v){ std::vector<std::string> r; for(auto& x:v) r.push_back(s.substr(x.first,x.second-x.first)); return r; }
inline size_t opt_of(Mode m,bool alt){ switch(m){ case PLAIN: return 0; case COMPRESS: return 1; case FIRST: return 2; case FIRST_COMPRESS: return 3; default: return alt?5:4; } }
// A heap copy without any slack: one byte past either end is an ASan report.
struct Exact { char* p; size_t n; explicit Exact(const std::string& s):p(new char[s.size()]),n(s.size()){ memcpy(p,s.data(),n); } ~Exact(){ delete[] p; } const char* b() const { return p; } const char* e() const { return p+n; } std::string str() const { return std::string(p,n); } Exact(const Exact&)=delete; };
// '*' stands for any run, '?' for at most one character
inline bool wildcard(const std::string& p,const std::string& t,char many='*',char one='?'){
  std::vector<std::vector<char> > d(p.size()+1,std::vector<char>(t.size()+1,0)); d[0][0]=1;
  for(size_t i=1;i<=p.size();++i) for(size_t j=0;j<=t.size();++j){ if(p[i-1]==many) d[i][j]=d[i-1][j]||(j&&d[i][j-1]); else if(p[i-1]==one) d[i][j]=d[i-1][j]||(j&&d[i-1][j-1]); else d[i][j]=j&&p[i-1]==t[j-1]&&d[i-1][j-1]; }
  return d[p.size()][t.size()];
}
inline std::string lower(std::string s){ for(char& c:s) if(c>='A'&&c<='Z') c=char(c+32); return s; }
inline std::string upper(std::string s){ for(char& c:s) if(c>='a'&&c<='z') c=char(c-32); return s; }
// Generators
inline std::string gen_delims(pbt::G& g){
  switch(g.below(5)){ case 0: return ","; case 1: return std::string(1,char(g.below(256))); case 2: return g.fixed(",;| \t",1+g.below(5)); case 3: { std::string r; size_t n=g.below(45); for(size_t i=0;i<n;++i) r+=char(33+i*2); return r; } default: { std::string r; size_t n=g.below(6); for(size_t i=0;i<n;++i) r+=char(g.below(256)); return r; } }
}
// Text in which delimiters and content both occur often.
inline std::string gen_text(pbt::G& g,const std::string& d,size_t max){
  size_t n=g.len(max); std::string r; unsigned w=1+(unsigned)g.below(4); std::string c=g.pick<const char*>({"ab","a","xyz019.-","\x80\xff\x00z"}); if(c[0]=='\x80') c.push_back('\0');
  bool rnd=g.chance(1,6);
  if(n>2500){ pbt::u64 x=g.any64()|1; bool runs=g.flip(); auto next=[&](pbt::u64 k){ x^=x<<13; x^=x>>7; x^=x<<17; return (x*0x2545F4914F6CDD1Dull>>20)%k; };
    while(r.size()<n){ char k=!d.empty()&&next(w+1)==w?d[next(d.size())]:rnd?char(next(256)):c[next(c.size())]; size_t q=runs&&next(32)==0?1+next(300):1; while(q--&&r.size()<n) r+=k; } return r; }
  for(size_t i=0;i<n;++i){ if(!d.empty()&&g.below(w+1)==w) r+=d[g.below(d.size())]; else if(rnd) r+=char(g.below(256)); else r+=c[g.below(c.size())]; }
  return r;
}
}
#endif
