// Reference acceptors and generators for the text of one typed field, shared by
// the harnesses of typed parsing. Written from the statements of C01 and C03.
#ifndef FIELDS_HPP
#define FIELDS_HPP
#include "models.hpp"
#include <cmath>
namespace model {
template<class T> bool int_field(const std::string& s,T& out){
  size_t i=0; bool neg=false; if(s.empty()) return false;
  if(s[0]=='+'||s[0]=='-'){ neg=s[0]=='-'; if(neg&&!std::numeric_limits<T>::is_signed) return false; i=1; }
  if(i==s.size()) return false; for(size_t k=i;k<s.size();++k) if(s[k]<'0'||s[k]>'9') return false;
  while(i<s.size()&&s[i]=='0') ++i; if(s.size()-i>25) return false; unsigned __int128 v=0; for(;i<s.size();++i) v=v*10+(unsigned)(s[i]-'0');
  unsigned __int128 lim=(unsigned __int128)(unsigned long long)std::numeric_limits<T>::max()+(neg?1:0); if(v>lim) return false;
  out=neg?(T)(0-(unsigned long long)v):(T)v; return true;
}
// Reals: the field generators below never produce inf/nan spellings, '#' or exponents of more than two digits.
template<class T> bool real_field(const std::string& s,T& out){
  auto dig=[&](size_t k){ return k<s.size()&&s[k]>='0'&&s[k]<='9'; };
  size_t i=0,n=0; if(i<s.size()&&(s[i]=='+'||s[i]=='-')) ++i; while(dig(i)) ++i,++n; if(i<s.size()&&s[i]=='.'){ ++i; while(dig(i)) ++i,++n; } if(!n) return false;
  size_t num=i;
  if(i<s.size()&&(s[i]=='e'||s[i]=='E')){ ++i; if(i<s.size()&&(s[i]=='+'||s[i]=='-')) ++i; size_t k=i; while(dig(i)) ++i; if(i==k) return false; num=i; }
  if(i<s.size()&&(s[i]=='f'||s[i]=='F'||s[i]=='l'||s[i]=='L')) ++i;
  if(i!=s.size()) return false; out=(T)strtold(s.substr(0,num).c_str(),0); return true;
}
template<class T> struct Field { // integers
  static bool valid(const std::string& s,T& o){ return int_field(s,o); }
  static bool same(T a,T b){ return a==b; }
  static std::string gen(pbt::G& g){ T v=g.integer<T>(); std::string s=std::to_string(v); if(v>=0&&g.chance(1,8)) s="+"+s; if(g.chance(1,10)) s.insert(s[0]=='-'||s[0]=='+'?1:0,1+g.below(25),'0'); return s; }
  static std::string bad(pbt::G& g){ switch(g.below(4)){ case 0: return ""; case 1: return std::to_string(std::numeric_limits<T>::max())+char('0'+g.below(10)); case 2: return std::numeric_limits<T>::is_signed?"-":"-"+std::to_string(1+g.below(9)); default: { std::string s=gen(g); s.insert(g.below(s.size()+1),1,g.pick<char>({'x','.','b','_'})); return s; } } }
};
template<class T> struct RealField {
  static bool valid(const std::string& s,T& o){ return real_field(s,o); }
  static bool same(T a,T b){ T e=(T)(sizeof(T)==4?4e-6:4e-14); return a==b||std::fabs(a-b)<=e*std::fabs(b); }
  static std::string gen(pbt::G& g){ std::string s=g.pick<const char*>({"","","-","+"}); s+=g.fixed("0123456789",1+g.below(8)); if(g.flip()) s+="."+g.fixed("0123456789",g.below(7)); if(g.chance(1,4)){ s+=g.pick<const char*>({"e","E","e-","e+"}); s+=std::to_string(g.below(20)); } return s; }
  static std::string bad(pbt::G& g){ switch(g.below(4)){ case 0: return ""; case 1: return g.pick<const char*>({".","-","+.","e5","1e","1e+"}); default: { std::string s=gen(g); s.insert(g.below(s.size()+1),1,g.pick<char>({'x','b','_'})); return s; } } }
};
template<> struct Field<float>:RealField<float>{}; template<> struct Field<double>:RealField<double>{}; template<> struct Field<long double>:RealField<long double>{};
template<> struct Field<std::string> {
  static bool valid(const std::string& s,std::string& o){ o=s; return true; } static bool same(const std::string& a,const std::string& b){ return a==b; }
  static std::string gen(pbt::G& g){ return g.chance(1,4)?Field<int>::gen(g):g.text("abcXYZ019._-\x80\xff",12); }
  static std::string bad(pbt::G& g){ return gen(g); }
};
template<class T> struct ByteField {
  static bool valid(const std::string& s,T& o){ if(s.size()!=1) return false; o=(T)s[0]; return true; } static bool same(T a,T b){ return a==b; }
  static std::string gen(pbt::G& g){ return std::string(1,g.chance(1,4)?char(g.below(256)):"aZ09-._"[g.below(7)]); }
  static std::string bad(pbt::G& g){ return g.flip()?"":gen(g)+gen(g); }
};
template<> struct Field<char>:ByteField<char>{}; template<> struct Field<unsigned char>:ByteField<unsigned char>{}; template<> struct Field<signed char>:ByteField<signed char>{};
// A reading of every single character other than '0' as true is not part of any statement: only '0' and '1' are generated and judged.
template<> struct Field<bool> {
  static bool valid(const std::string& s,bool& o){ if(s.size()!=1) return false; o=s[0]!='0'; return true; } static bool same(bool a,bool b){ return a==b; }
  static std::string gen(pbt::G& g){ return g.flip()?"1":"0"; } static std::string bad(pbt::G& g){ return g.flip()?"":"10"; }
};
template<class T> std::string value_text(const T& v){ std::ostringstream o; o.precision(20); o<<v; return o.str(); }
inline std::string field_delims(pbt::G& g){ switch(g.below(6)){ case 0: return ","; case 1: return "|"; case 2: return ",;"; case 3: return " \t|;"; case 4: return std::string("\0",1)+":"; default: return g.fixed("|;,:/ \t!",1+g.below(6)); } }
inline std::string delim_run(pbt::G& g,const std::string& d){ std::string r(1,d[g.below(d.size())]); while(g.chance(1,6)) r+=d[g.below(d.size())]; return r; }
}
#endif
