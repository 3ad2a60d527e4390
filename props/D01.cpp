#include "models.hpp"
#include "strtk.hpp"
#include <list>
#include <map>
#include <memory>
namespace pbt { const char* const property_id="D01";
const char* const rule_text="A history of insertions over a pool of related keys (prefixes, extensions, siblings, repeats of each other) interleaved with lookups and prefix queries of inserted and other keys, over text, byte, wide and integer-sequence keys. Oracle: std::map of the same history, last insertion of a key wins. Non-trivial: two or more distinct inserted keys with a common first element. Distinct by history."; }
using pbt::G;
template<class E> static std::vector<E> gen_key(G& g,std::vector<std::vector<E> >& pool){
  std::vector<E> k;
  if(!pool.empty()&&g.chance(2,3)){ k=pool[g.below(pool.size())]; switch(g.below(5)){
    case 0: break; case 1: k.resize(g.below(k.size()+1)); break; case 2: { size_t n=1+g.below(3); while(n--) k.push_back((E)(g.chance(1,6)?g.any64():97+g.below(3))); break; }
    case 3: if(!k.empty()) k.back()=(E)(97+g.below(4)); break; default: if(!k.empty()) k[g.below(k.size())]=(E)(97+g.below(4)); } }
  else { size_t n=g.len(8); for(size_t i=0;i<n;++i) k.push_back((E)(g.chance(1,8)?g.any64():97+g.below(3))); }
  pool.push_back(k); return k;
}
template<class E> static std::string text(const std::vector<E>& k){ std::ostringstream o; for(size_t i=0;i<k.size();++i) o<<(i?",":"")<<(long long)k[i]; return "("+o.str()+")"; }
template<class V> struct Val; 
template<> struct Val<int> { static int gen(G& g){ return g.integer<int>(); } };
template<> struct Val<std::string> { static std::string gen(G& g){ return g.bytes(6); } };
template<> struct Val<std::size_t> { static std::size_t gen(G& g){ return g.below(100); } };
// A: how a key is handed to the trie
template<class E,class V,class A> static void history(G& g,const char* name,bool copies=true){
  struct W { typename A::trie t; std::map<std::vector<E>,V> m; }; std::vector<std::unique_ptr<W> > ws; ws.emplace_back(new W()); size_t cur=0; // tries and what they should hold; copies live on their own
  g.note(name); std::vector<std::vector<E> > pool; size_t n=1+g.len(60); std::string h; std::map<E,size_t> first; bool nt=false;
  auto prefix=[&](W& w,const std::vector<E>& k){ if(k.empty()) return false; auto i=w.m.lower_bound(k); return i!=w.m.end()&&i->first.size()>=k.size()&&std::equal(k.begin(),k.end(),i->first.begin()); };
  auto look=[&](W& x,const std::vector<E>& k){ V v=V(),w=V(); auto i=x.m.find(k); bool in=i!=x.m.end(); if(in) w=i->second; bool r=A::find(x.t,k,v); CHECK_EQ(r,in,"lookup of "<<text(k)<<" after "<<h); if(in) CHECK_EQ(v,w,"value of "<<text(k)<<" after "<<h); CHECK_EQ(A::prefix(x.t,k),prefix(x,k),"prefix query of "<<text(k)<<" after "<<h); };
  for(size_t s=0;s<n;++s){
    if(copies&&g.chance(1,12)){ size_t k=g.below(4); switch(k){
      case 0: if(ws.size()<3){ ws.emplace_back(new W(*ws[cur])); h+=" copy"; break; } case 1: { size_t to=g.below(ws.size()); *ws[to]=*ws[cur]; h+=" assign"+std::to_string(cur)+"to"+std::to_string(to); g.label("assigned"); break; }
      case 2: if(ws.size()>1){ ws.erase(ws.begin()+cur); cur=0; h+=" drop"; break; } default: cur=g.below(ws.size()); h+=" use"+std::to_string(cur); } }
    W& w=*ws[cur]; std::vector<E> k=A::fix(gen_key(g,pool)); unsigned op=(unsigned)g.below(5);
    if(op<3){ V v=Val<V>::gen(g); A::insert(w.t,k,v); h+=" +"+text(k); if(!k.empty()){ if(!w.m.count(k)&&++first[k[0]]>1) nt=true; w.m[k]=v; } }
    else look(w,k); }
  g.show("history",h); g.nt(nt); g.label(ws[0]->m.size()>8?"many_keys":"few_keys"); if(ws.size()>1) g.label("copies");
  for(auto& w:ws){ for(auto& k:pool) look(*w,A::fix(k)); for(auto& k:w->m){ std::vector<E> x=k.first; for(size_t l=0;l<=x.size();l+=l+4<x.size()&&x.size()>200?1+g.below(x.size()/50):1) look(*w,std::vector<E>(x.begin(),x.begin()+l)); x.push_back(x.back()); look(*w,x); } }
}
template<class E> struct Keep { static std::vector<E> fix(const std::vector<E>& k){ return k; } };
struct StrA:Keep<char> { typedef strtk::prefix_trie<int>::std_string trie; typedef std::vector<char> K; static std::string s(const K& k){ return std::string(k.begin(),k.end()); }
  static void insert(trie& t,const K& k,int v){ strtk::trie::insert(t,s(k),v); } static bool find(trie& t,const K& k,int& v){ return strtk::trie::find(t,s(k),v); } static bool prefix(trie& t,const K& k){ return strtk::trie::find_prefix(t,s(k)); } };
struct CstrA { typedef strtk::prefix_trie<std::size_t>::type trie; typedef std::vector<char> K; static K fix(const K& k){ K r; for(char c:k) r.push_back(c?c:'z'); return r; } static std::string s(const K& k){ return std::string(k.begin(),k.end()); }
  static void insert(trie& t,const K& k,std::size_t v){ strtk::trie::insert(t,s(k).c_str(),v); } static bool find(trie& t,const K& k,std::size_t& v){ return strtk::trie::find(t,s(k).c_str(),v); } static bool prefix(trie& t,const K& k){ return strtk::trie::find_prefix(t,s(k).c_str()); } };
template<class E,class T> struct PtrA:Keep<E> { typedef T trie; typedef std::vector<E> K;
  template<class V> static void insert(trie& t,const K& k,const V& v){ std::unique_ptr<E[]> p(new E[k.size()]); std::copy(k.begin(),k.end(),p.get()); t.insert(p.get(),p.get()+k.size(),v); }
  template<class V> static bool find(trie& t,const K& k,V& v){ std::unique_ptr<E[]> p(new E[k.size()]); std::copy(k.begin(),k.end(),p.get()); return t.find(p.get(),p.get()+k.size(),v); }
  static bool prefix(trie& t,const K& k){ std::list<E> l(k.begin(),k.end()); return t.find_prefix(l.begin(),l.end()); } };
struct MutA:Keep<char> { typedef strtk::prefix_trie<int,std::string::iterator>::type trie; typedef std::vector<char> K; static std::string s(const K& k){ return std::string(k.begin(),k.end()); }
  static void insert(trie& t,const K& k,int v){ std::string x=s(k); if(x.find('\0')==std::string::npos) strtk::trie::insert(t,x.c_str(),v); else t.insert(x.begin(),x.end(),v); } static bool find(trie& t,const K& k,int& v){ std::string x=s(k); return t.find(x.begin(),x.end(),v); } static bool prefix(trie& t,const K& k){ std::string x=s(k); return t.find_prefix(x.begin(),x.end()); } };
FACET(text_keys,4000){ history<char,int,StrA>(g,"std::string"); }
FACET(pointer_keys,4000){ history<char,std::size_t,CstrA>(g,"const char*"); }
FACET(mutable_text,2500){ history<char,int,MutA>(g,"std::string iterator"); }
FACET(char_ptr,2500){ history<char,std::string,PtrA<char,strtk::prefix_trie<std::string>::char_ptr> >(g,"char*"); }
FACET(const_char_ptr,2500){ history<char,int,PtrA<char,strtk::prefix_trie<int>::const_char_ptr> >(g,"const char*"); }
FACET(uchar_ptr,2500){ history<unsigned char,int,PtrA<unsigned char,strtk::prefix_trie<int>::uchar_ptr> >(g,"unsigned char*"); }
FACET(const_uchar_ptr,2500){ history<unsigned char,std::string,PtrA<unsigned char,strtk::prefix_trie<std::string>::const_uchar_ptr> >(g,"const unsigned char*"); }
FACET(integer_sequences,2500){ history<unsigned int,std::string,PtrA<unsigned int,strtk::trie::prefix<unsigned int*,std::string> > >(g,"unsigned int*"); }
FACET(list_of_long,2500){ history<long long,int,PtrA<long long,strtk::trie::prefix<std::list<long long>::const_iterator,int> > >(g,"list<long long>"); }
// The default value of the free insertion functions
FACET(default_value,500){ strtk::prefix_trie<int>::std_string t; std::string k="k"+g.text("abc",5); strtk::trie::insert(t,k,7); strtk::trie::insert(t,k); int v=3; g.show("key",k); g.nt(); CHECK(strtk::trie::find(t,k,v),"key is found"); CHECK_EQ(v,0,"default value"); }
LARGE1(text_keys,8,3000) LARGE1(pointer_keys,6,3000) LARGE1(integer_sequences,6,3000)
