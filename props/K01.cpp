#include "fields.hpp"
#include "strtk.hpp"
#include <map>
#include <set>
#include <list>
#include <memory>
namespace pbt { const char* const property_id="K01";
const char* const rule_text="A text of pair blocks over two generated delimiter bytes (known and unknown keys, duplicates, empty blocks, keys and values, missing pair delimiters, values holding the pair delimiter, unconvertible values, numeric keys with leading zeros or beyond the range) for the string-keyed, number-keyed and table-keyed maps with generated registrations, in both failure policies, through range and string entry points, over repeated parses, re-registration and copied parsers. Targets are numbers, strings, characters, reals, container sinks, attributes, actions. Oracle: a pair-by-pair reference. Non-trivial: at least two pairs delivered. Distinct by text, delimiters, registrations and policy."; }
using namespace model; using pbt::G; typedef std::string Str;
namespace kv=strtk::keyvalue;
struct Act { std::vector<Str> got; bool ret; bool operator()(const unsigned char* b,const unsigned char* e){ got.push_back(Str((const char*)b,(const char*)e)); return ret; } };
struct Ref { Act* a; bool operator()(const unsigned char* b,const unsigned char* e) const { return (*a)(b,e); } };
enum { KINDS=12 };
// Actual targets and what they should hold.
struct Targets { int i; unsigned short us; long long ll; double d; float f; char c; Str s; std::vector<int> v; std::set<Str> st; strtk::util::attribute<int> at; Act act; Str s2;
  strtk::vector_sink<int>::type vs; strtk::set_sink<Str>::type ss; Ref ref; strtk::util::semantic_action_impl sa; 
  Targets():i(-5),us(5),ll(-5),d(-5),f(-5),c('q'),s("old"),s2("old"),vs(","),ss(","),sa(){ act.ret=true; ref.a=&act; sa.assign(ref); vs(v); ss(st); } };
struct Want { int i; unsigned short us; long long ll; double d; float f; char c; Str s; std::vector<int> v; std::set<Str> st; int at; bool ati; std::vector<Str> act; Str s2; Want():i(-5),us(5),ll(-5),d(-5),f(-5),c('q'),s("old"),at(0),ati(false),s2("old"){} };
template<class P,class K> static bool reg(P& p,const K& k,int kind,Targets& t){ switch(kind){ case 0: return p.register_keyvalue(k,t.i); case 1: return p.register_keyvalue(k,t.us); case 2: return p.register_keyvalue(k,t.ll); case 3: return p.register_keyvalue(k,t.d); case 4: return p.register_keyvalue(k,t.f); case 5: return p.register_keyvalue(k,t.c); case 6: return p.register_keyvalue(k,t.s); case 7: return p.register_keyvalue(k,t.vs); case 8: return p.register_keyvalue(k,t.ss); case 9: return p.register_keyvalue(k,t.at); case 10: return p.register_keyvalue(k,t.sa); default: return p.register_keyvalue(k,t.s2); } }
template<class T> static bool put(T& t,const Str& s){ T x=T(); if(!Field<T>::valid(s,x)) return false; t=x; return true; }
static bool deliver(Want& w,int kind,const Str& s,bool act){ switch(kind){ case 0: return put(w.i,s); case 1: return put(w.us,s); case 2: return put(w.ll,s); case 3: return put(w.d,s); case 4: return put(w.f,s); case 5: return put(w.c,s); case 6: w.s=s; return true;
  case 7: { for(auto& x:pieces(s,split(s,Set256(","),COMPRESS))){ int k; if(int_field(x,k)) w.v.push_back(k); } return true; }
  case 8: { for(auto& x:pieces(s,split(s,Set256(","),COMPRESS))) w.st.insert(x); return true; }
  case 9: { if(!put(w.at,s)) return false; w.ati=true; return true; } case 10: w.act.push_back(s); return act; default: w.s2=s; return true; } }
static void compare(Targets& t,const Want& w){
  CHECK_EQ(t.i,w.i,"int"); CHECK_EQ(t.us,w.us,"unsigned short"); CHECK_EQ(t.ll,w.ll,"long long"); CHECK(Field<double>::same(t.d,w.d),"double "<<t.d<<", expected "<<w.d); CHECK(Field<float>::same(t.f,w.f),"float "<<t.f<<", expected "<<w.f); CHECK_EQ((int)t.c,(int)w.c,"char"); CHECK_EQ(t.s,w.s,"string"); CHECK_EQ(t.s2,w.s2,"second string"); CHECK(t.v==w.v,"vector: "<<pbt::S(t.v)<<", expected "<<pbt::S(w.v)); CHECK(t.st==w.st,"set"); CHECK_EQ(t.at.initialised(),w.ati,"attribute set"); if(w.ati) CHECK_EQ(t.at.value(),w.at,"attribute"); CHECK(t.act.got==w.act,"texts handed to the action: "<<pbt::S(t.act.got)<<", expected "<<pbt::S(w.act));
}
static bool clean=false; // a text whose every pair is delivered
static Str value_for(G& g,int kind,const Str& avoid){
  for(int n=0;n<20;++n){ Str s; bool bad=!clean&&g.chance(1,8); switch(kind){ case 0: case 9: s=bad?Field<int>::bad(g):Field<int>::gen(g); break; case 1: s=bad?Field<unsigned short>::bad(g):Field<unsigned short>::gen(g); break; case 2: s=bad?Field<long long>::bad(g):Field<long long>::gen(g); break; case 3: s=bad?Field<double>::bad(g):Field<double>::gen(g); break; case 4: s=bad?Field<float>::bad(g):Field<float>::gen(g); break; case 5: s=bad?Field<char>::bad(g):Field<char>::gen(g); break;
      case 7: { size_t m=1+g.below(4); for(size_t i=0;i<m;++i){ if(i) s+=","; s+=std::to_string(g.range(-500,500)); } break; } case 8: { size_t m=1+g.below(4); for(size_t i=0;i<m;++i){ if(i) s+=","; s+=g.fixed("abc1",1+g.below(3)); } break; } default: s=g.text("abc 0=|,.-\x80",8); }
    if(s.find_first_of(avoid)==Str::npos) return s; }
  return "1";
}
struct Rule { bool number; size_t limit; std::set<char> bad_first; }; // limit: table size for the table map
// The number a numeric key spells, when it is one of the key type's values.
static bool num_key(const Str& k,unsigned& v){ if(k.empty()) return false; unsigned long long x=0; for(char c:k){ if(c<'0'||c>'9') return false; x=x*10+(unsigned)(c-'0'); if(x>0xffffffffull) return false; } v=(unsigned)x; return true; }
template<class K> struct KeyOf { static bool f(const Str& k,K& o){ return Field<K>::valid(k,o); } }; template<> struct KeyOf<Str>{ static bool f(const Str& k,Str& o){ o=k; return true; } }; template<> struct KeyOf<unsigned>{ static bool f(const Str& k,unsigned& o){ return num_key(k,o); } };
static Str spell(const Str& k){ return k; } static Str spell(unsigned k){ return std::to_string(k); } static Str spell(char k){ return Str(1,k); } template<class K> static Str spell(K k){ return std::to_string(k); }
static Str key_text(G& g,const Str&, const std::vector<Str>& known){ switch(g.below(8)){ case 0: return g.text("abxyz01",4); case 1: return ""; default: return known.empty()?Str("zz"):known[g.below(known.size())]; } }
static Str key_text(G& g,unsigned,const std::vector<unsigned>& known){ switch(g.below(10)){ case 0: return g.pick<const char*>({"","x","1x","-1","+1"," 1","4294967296","4294967297","18446744073709551616","18446744073709551617","4294967295","99999999999999999999"}); case 1: return std::to_string(g.below(40)); default: { Str s=known.empty()?Str("7"):std::to_string(known[g.below(known.size())]); if(g.chance(1,8)) s=Str(1+g.below(8),'0')+s; if(g.chance(1,12)) s=std::to_string((known.empty()?7ull:known[g.below(known.size())])+(1ull<<32)*(1+g.below(3))); return s; } } }
template<class K> static Str key_text(G& g,K,const std::vector<K>& known){ switch(g.below(10)){ case 0: return Field<K>::bad(g); case 1: return Field<K>::gen(g); default: return known.empty()?Str("7"):spell(known[g.below(known.size())]); } }
template<class Map,class K,class Opts> static void run(G& g,Opts opts,size_t limit,const std::function<K(G&)>& newkey,bool (*reject)(const Str&,const Str&)){
  unsigned char bd=(unsigned char)g.pick<int>({'|',';','\n',1,0xff,' '}),pd=(unsigned char)g.pick<int>({'=',':','\t',2,0xfe,0}); opts.pair_block_delimiter=bd; opts.pair_delimiter=pd; g.show("block",(int)bd); g.show("pair",(int)pd);
  Targets t; Want w; std::unique_ptr<kv::parser<Map> > p(new kv::parser<Map>(opts)); std::map<K,int> table; std::vector<K> known;
  auto add=[&](){ K k=newkey(g); int kind=(int)g.below(KINDS); bool ok=limit==0||pbt::S(k).size()==0||true; (void)ok; bool r=reg(*p,k,kind,t); bool fits=limit==~size_t(0)||[&]{ Str s=pbt::S(k); unsigned v=0; return num_key(s,v)&&v<limit; }(); CHECK_EQ(r,fits,"registration of "<<pbt::S(k)); if(fits){ table[k]=kind; known.push_back(k); } g.show("key",k); g.show("kind",kind); };
  size_t nk=1+g.below(g.large?60:6); for(size_t i=0;i<nk;++i) add();
  size_t rounds=1+g.below(4); size_t delivered=0;
  for(size_t r=0;r<rounds;++r){
    if(r&&g.chance(1,3)) add(); if(r&&g.chance(1,4)){ std::unique_ptr<kv::parser<Map> > q(new kv::parser<Map>(*p)); p.swap(q); g.note("copied"); }
    t.act.ret=!g.chance(1,6); size_t n=g.len(7); Str s; bool junk=g.chance(1,2); clean=n>20&&g.flip(); if(clean){ junk=false; t.act.ret=true; }
    for(size_t i=0;i<n;++i){
      if(i||g.chance(1,8)) s+=(char)bd; if(junk&&g.chance(1,8)) continue;
      Str k; do k=key_text(g,K(),known); while(k.find((char)bd)!=Str::npos||k.find((char)pd)!=Str::npos);
      for(int q=0;clean&&q<20&&!known.empty();++q){ Str o=spell(known[g.below(known.size())]); if(!o.empty()&&o.find((char)bd)==Str::npos&&o.find((char)pd)==Str::npos){ k=o; break; } }
      K kk; int kind=6; if(KeyOf<K>::f(k,kk)&&table.count(kk)) kind=table[kk];
      Str avoid(1,(char)bd); if(kind!=6&&kind!=10&&kind!=11) avoid+=(char)pd;
      Str v=value_for(g,kind,avoid); if((kind==7||kind==8)&&(pd==','||bd==',')) v="1";
      if(junk&&g.chance(1,8)){ s+=g.pick<int>({0,1})?k:k+(char)pd; continue; }
      s+=k; s+=(char)pd; s+=v;
    }
    if(g.chance(1,8)) s+=(char)bd;
    bool ignore=g.flip(); g.show("text",s); g.show("ignore",ignore);
    bool ok=!s.empty()||ignore; size_t failures=0;
    if(!s.empty()){ Set256 bs(Str(1,(char)bd)); for(auto& b:pieces(s,split(s,bs,PLAIN))){ if(b.empty()) continue; size_t at=b.find((char)pd); bool good=at!=Str::npos&&at+1<b.size(); if(good){ Str k=b.substr(0,at),v=b.substr(at+1); K kk; good=!(reject&&reject(k,v))&&KeyOf<K>::f(k,kk)&&table.count(kk)&&deliver(w,table[kk],v,t.act.ret); } if(good) ++delivered; else { ++failures; if(!ignore){ ok=false; break; } } } }
    Exact x(s); bool res; typedef std::pair<unsigned char*,unsigned char*> R; bool str=g.flip(); if(str) res=ignore||g.flip()?(*p)(s,ignore):(*p)(s); else res=(*p)(R((unsigned char*)x.p,(unsigned char*)x.p+x.n),ignore);
    CHECK_EQ(res,ok,"outcome of the parse"); if(ignore) CHECK_EQ(p->failure_count(),failures,"failures counted"); compare(t,w); CHECK_EQ(x.str(),s,"the text is untouched"); g.label(ok?(failures?"ignored":"ok"):"failed");
  }
  g.nt(delivered>1);
}
FACET(string_keys,3000){ run<kv::stringkey_map,Str>(g,kv::options<unsigned char>(),~size_t(0),[](G& g){ return g.chance(1,6)?g.text("ab\x80 .",5):Str(g.pick<const char*>({"INT","a","b","aa","x1","KEY","0","07"})); },0); }
FACET(number_keys,3000){ typedef kv::key_map<unsigned int> M; run<M,unsigned>(g,kv::options<unsigned char>(),~size_t(0),[](G& g){ return g.chance(1,4)?g.integer<unsigned>():(unsigned)g.below(20); },0); }
// Key types the library gives no reading of their own to: the key is the value its text converts to.
template<class K> static void typed(G& g){ run<kv::key_map<K>,K>(g,kv::options<unsigned char>(),~size_t(0),[](G& g){ return g.flip()?g.integer<K>():(K)g.below(20); },0); }
FACET(signed_keys,900){ typed<int>(g); } FACET(wide_keys,900){ typed<long long>(g); } FACET(short_keys,900){ typed<unsigned short>(g); }
FACET(letter_keys,900){ run<kv::key_map<char>,char>(g,kv::options<unsigned char>(),~size_t(0),[](G& g){ return (char)('a'+g.below(9)); },0); }
FACET(table_keys,3000){ kv::uintkey_map::options o; o.key_count=g.chance(1,10)?g.below(4):1+g.below(40); g.show("key_count",o.key_count); run<kv::uintkey_map,unsigned>(g,o,o.key_count,[](G& g){ return (unsigned)g.below(g.chance(1,10)?60:20); },0); }
struct NoX { template<class R> bool operator()(const R& r){ return r.first==r.second||*r.first!='x'; } }; struct NoDash { template<class R> bool operator()(const R& r){ return std::find(r.first,r.second,(unsigned char)'-')==r.second; } };
static bool rejects(const Str& k,const Str& v){ return (!k.empty()&&k[0]=='x')||v.find('-')!=Str::npos; }
FACET(validators,800){ typedef kv::key_map<Str,std::map<Str,strtk::util::value>,NoX,NoDash> M; run<M,Str>(g,kv::options<unsigned char>(),~size_t(0),[](G& g){ return Str(g.pick<const char*>({"INT","a","xb","b","x","KEY"})); },rejects); }
// More pairs than any initial reservation, and longer values.
LARGE1(string_keys,12,3000) LARGE1(number_keys,10,3000) LARGE1(table_keys,10,3000)
