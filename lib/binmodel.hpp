// Reference encoder/decoder for the binary reader and writer, and type-erased
// operations over it. The model is written from the format's definition: plain
// data in host (little-endian) layout, 32-bit counts before strings and
// containers, 16/8-bit counts before short/pascal strings.
#ifndef BINMODEL_HPP
#define BINMODEL_HPP
#include "models.hpp"
#include <deque>
#include <list>
#include <memory>
#include "strtk.hpp"
namespace bm {
using pbt::G; typedef strtk::binary::reader R; typedef strtk::binary::writer W;
struct Enc { std::string b,m; void raw(const void* p,size_t n,size_t sig){ b.append((const char*)p,n); m.append(sig,'\xff'); m.append(n-sig,'\0'); } bool operator==(const Enc& o) const { if(b.size()!=o.b.size()||m!=o.m) return false; for(size_t i=0;i<b.size();++i) if((b[i]^o.b[i])&m[i]) return false; return true; } };
inline std::string S(const Enc& e){ return pbt::quote(e.b); }
} namespace pbt { using bm::S; } namespace bm {
struct In { const std::string& s; size_t p; bool take(void* o,size_t n){ if(s.size()-p<n) return false; memcpy(o,s.data()+p,n); p+=n; return true; } };
template<class T> struct is_num { enum { v=std::is_arithmetic<T>::value }; };
template<class T> typename std::enable_if<is_num<T>::v>::type enc(Enc& e,const T& t){ e.raw(&t,sizeof t,std::is_same<T,long double>::value?10:sizeof t); }
template<class T> typename std::enable_if<is_num<T>::v,bool>::type dec(In& i,T& t){ return i.take(&t,sizeof t); }
template<class T> typename std::enable_if<std::is_integral<T>::value>::type gen(G& g,T& t){ t=g.integer<T>(); }
inline void gen(G& g,bool& t){ t=g.flip(); }
template<class T> typename std::enable_if<std::is_floating_point<T>::value>::type gen(G& g,T& t){ switch(g.below(5)){ case 0: t=(T)g.below(100); break; case 1: t=(T)g.pick({0.0,-0.0,1e-310,-1e300,0.1}); break; case 2: t=(T)(g.flip()?HUGE_VAL:-HUGE_VAL); break; case 3: t=(T)((double)g.any64()/3.0); break; default: t=(T)(-(double)g.below(1u<<30)/1024.0); } }
inline void count(Enc& e,size_t n){ unsigned c=(unsigned)n; enc(e,c); }
inline void enc(Enc& e,const std::string& s){ count(e,s.size()); e.raw(s.data(),s.size(),s.size()); }
inline bool dec(In& i,std::string& s){ unsigned n; if(!dec(i,n)||i.s.size()-i.p<n) return false; s.assign(i.s,i.p,n); i.p+=n; return true; }
inline void gen(G& g,std::string& s){ s=g.bytes(g.chance(1,10)?300:20); }
// Forward declarations so that nested containers find each other.
template<class A,class B> void enc(Enc&,const std::pair<A,B>&); template<class A,class B> bool dec(In&,std::pair<A,B>&); template<class A,class B> void gen(G&,std::pair<A,B>&);
#define BM_FWD(C) template<class T> void enc(Enc&,const std::C<T>&); template<class T> bool dec(In&,std::C<T>&); template<class T> void gen(G&,std::C<T>&);
BM_FWD(vector) BM_FWD(deque) BM_FWD(list) BM_FWD(set) BM_FWD(multiset)
struct User; void enc(Enc&,const User&); bool dec(In&,User&); void gen(G&,User&);
struct Inner { short k; std::list<short> l; bool operator<(const Inner& o) const { return k!=o.k?k<o.k:l<o.l; } Inner():k(0){} 
  strtk_binary_reader_begin() strtk_binary_reader(k) strtk_binary_reader(l) strtk_binary_reader_end()
  strtk_binary_writer_begin() strtk_binary_writer(k) strtk_binary_writer(l) strtk_binary_writer_end() };
void enc(Enc&,const Inner&); bool dec(In&,Inner&); void gen(G&,Inner&);
struct User { int id; std::string name; std::vector<double> v; std::deque<Inner> in; std::pair<char,std::string> p; std::string sh,pa; float arr[3]; User():id(0),p('a',""){ arr[0]=arr[1]=arr[2]=0; }
  strtk_binary_reader_begin() strtk_binary_reader(id) strtk_binary_reader(name) strtk_binary_reader(v) strtk_binary_reader(in) strtk_binary_reader(p) strtk_binary_reader(strtk::binary::short_string(sh)) strtk_binary_reader(strtk::binary::pascal_string(pa)) strtk_binary_reader(arr) strtk_binary_reader_end()
  bool operator()(strtk::binary::writer& writer) const { return writer(id)&&writer(name)&&writer(v)&&writer(in)&&writer(p)&&writer(strtk::binary::short_string(const_cast<std::string&>(sh)))&&writer(strtk::binary::pascal_string(const_cast<std::string&>(pa)))&&writer(arr); } };
template<class A,class B> void enc(Enc& e,const std::pair<A,B>& p){ enc(e,p.first); enc(e,p.second); }
template<class A,class B> bool dec(In& i,std::pair<A,B>& p){ return dec(i,p.first)&&dec(i,p.second); }
template<class A,class B> void gen(G& g,std::pair<A,B>& p){ gen(g,p.first); gen(g,p.second); }
#define BM_DEF(C,ADD,MAX) template<class T> void enc(Enc& e,const std::C<T>& c){ count(e,c.size()); for(auto& x:c) enc(e,x); } \
  template<class T> bool dec(In& i,std::C<T>& c){ unsigned n; c.clear(); if(!dec(i,n)) return false; if(is_num<T>::v&&(i.s.size()-i.p)/sizeof(T)<n) return false; for(unsigned k=0;k<n;++k){ T t=T(); if(!dec(i,t)) return false; c.ADD(t); } return true; } \
  template<class T> void gen(G& g,std::C<T>& c){ c.clear(); size_t n=g.len(MAX); for(size_t k=0;k<n;++k){ T t=T(); gen(g,t); c.ADD(t); } }
enum { MAXN=12 };
BM_DEF(vector,push_back,MAXN) BM_DEF(deque,push_back,MAXN) BM_DEF(list,push_back,MAXN) BM_DEF(set,insert,MAXN) BM_DEF(multiset,insert,MAXN)
inline void enc(Enc& e,const Inner& x){ enc(e,x.k); enc(e,x.l); } inline bool dec(In& i,Inner& x){ return dec(i,x.k)&&dec(i,x.l); } inline void gen(G& g,Inner& x){ gen(g,x.k); gen(g,x.l); }
inline void enc_short(Enc& e,const std::string& s){ unsigned short n=(unsigned short)s.size(); enc(e,n); e.raw(s.data(),s.size(),s.size()); } inline void enc_pascal(Enc& e,const std::string& s){ unsigned char n=(unsigned char)s.size(); enc(e,n); e.raw(s.data(),s.size(),s.size()); }
template<class N> bool dec_sized(In& i,std::string& s){ N n; if(!dec(i,n)||i.s.size()-i.p<n) return false; s.assign(i.s,i.p,n); i.p+=n; return true; }
inline void enc(Enc& e,const User& u){ enc(e,u.id); enc(e,u.name); enc(e,u.v); enc(e,u.in); enc(e,u.p); enc_short(e,u.sh); enc_pascal(e,u.pa); for(float f:u.arr) enc(e,f); }
inline bool dec(In& i,User& u){ if(!(dec(i,u.id)&&dec(i,u.name)&&dec(i,u.v)&&dec(i,u.in)&&dec(i,u.p)&&dec_sized<unsigned short>(i,u.sh)&&dec_sized<unsigned char>(i,u.pa))) return false; if(i.s.size()-i.p<12) return false; for(float& f:u.arr) dec(i,f); return true; }
inline void gen(G& g,User& u){ gen(g,u.id); gen(g,u.name); gen(g,u.v); gen(g,u.in); gen(g,u.p); u.sh=g.bytes(40); u.pa=g.bytes(g.chance(1,8)?255:30); for(float& f:u.arr) gen(g,f); }
// One operation: write its value, read one like it, encode, decode by reference.
struct Op { std::string name; virtual ~Op(){} virtual void e(Enc&) const=0; virtual bool writable() const { return true; } virtual bool write(W&) const=0; virtual bool read(R&,Enc&) const=0; virtual bool d(In&,Enc&) const=0; };
template<class T> struct Val:Op { T v; bool write(W& w) const { return w(v); } bool read(R& r,Enc& o) const { std::unique_ptr<T> x(new T()); bool k=r(*x); if(k) enc(o,*x); return k; } void e(Enc& o) const { enc(o,v); } bool d(In& i,Enc& o) const { T x=T(); bool k=dec(i,x); if(k) enc(o,x); return k; } };
template<class T> struct Into:Val<T> { bool read(R& r,Enc& o) const { T x=T(); bool k=r((const T&)x); if(k) enc(o,x); return k; } };   // through a const reference
template<class T,size_t N> struct Arr:Op { T v[N]; bool len; bool write(W& w) const { return len?w(v,true):w(v); } void e(Enc& o) const { if(len){ size_t n=N; enc(o,n); } for(auto& x:v) enc(o,x); }
  bool read(R& r,Enc& o) const { size_t n=N; if(len){ if(!r(n)) return false; } std::unique_ptr<T[]> raw(new T[N]); bool k=r(reinterpret_cast<T(&)[N]>(*raw.get())); if(k){ if(len) enc(o,n); for(size_t i=0;i<N;++i) enc(o,raw[i]); } return k; }
  bool d(In& i,Enc& o) const { size_t n=N; if(len&&!dec(i,n)) return false; if(i.s.size()-i.p<N*sizeof(T)) return false; if(len) enc(o,n); for(size_t k=0;k<N;++k){ T x; dec(i,x); enc(o,x); } return true; } };
template<class T> struct Ptr:Op { std::vector<T> v; bool len; unsigned lt,rt; // length argument types
  bool write(W& w) const { std::unique_ptr<T[]> p(new T[v.size()]); std::copy(v.begin(),v.end(),p.get()); const T* q=p.get(); switch(lt){ case 0: return w(q,(unsigned)v.size(),len); case 1: return w(q,(unsigned long long)v.size(),len); case 2: return w(q,(unsigned short)v.size(),len); default: return w(q,(unsigned char)v.size(),len); } }
  void e(Enc& o) const { if(len) count(o,v.size()); for(auto& x:v) enc(o,x); }
  bool read(R& r,Enc& o) const { T* p=0; std::unique_ptr<T[]> own; unsigned a=77; unsigned long long b=77; if(!len){ own.reset(new T[v.size()]); p=own.get(); a=(unsigned)v.size(); b=v.size(); } bool k=rt?r(p,b,len):r(p,a,len); if(len) own.reset(k?p:0); size_t n=rt?(size_t)b:a; if(k){ if(len) count(o,n); else if(n!=v.size()) o.b+="length changed"; for(size_t i=0;i<n;++i) enc(o,own[i]); } return k; }
  bool d(In& i,Enc& o) const { unsigned n=(unsigned)v.size(); if(len&&!dec(i,n)) return false; if((i.s.size()-i.p)/sizeof(T)<n) return false; if(len) count(o,n); for(size_t k=0;k<n;++k){ T x; dec(i,x); enc(o,x); } return true; } };
template<class Z,class N> struct Sized:Op { std::string v; bool writable() const { return v.size()<=std::numeric_limits<N>::max(); } bool write(W& w) const { Z z(const_cast<std::string&>(v)); return w(z); } void e(Enc& o) const { N n=(N)v.size(); enc(o,n); o.raw(v.data(),v.size(),v.size()); }
  bool read(R& r,Enc& o) const { std::string s("prior"); Z z; z.set(s); bool k=r(z); if(k){ N n=(N)s.size(); enc(o,n); o.raw(s.data(),s.size(),s.size()); } return k; } bool d(In& i,Enc& o) const { std::string s; bool k=dec_sized<N>(i,s); if(k){ N n=(N)s.size(); enc(o,n); o.raw(s.data(),s.size(),s.size()); } return k; } };
// Padded text. Text fields come back as the padded text, left-zero-padded numbers as the number.
struct PadText:Op { std::string v; size_t size; bool left; char c; std::string padded() const { std::string f(size-v.size(),c); return left?f+v:v+f; } bool writable() const { return v.size()<=size; } bool write(W& w) const { return w(v,size,left?W::left_padding:W::right_padding,c); } void e(Enc& o) const { std::string p=padded(); o.raw(p.data(),p.size(),p.size()); }
  bool read(R& r,Enc& o) const { std::string s; bool k=r(s,size); if(k) o.raw(s.data(),s.size(),s.size()); return k; } bool d(In& i,Enc& o) const { if(i.s.size()-i.p<size) return false; o.raw(i.s.data()+i.p,size,size); i.p+=size; return true; } };
template<class T> struct PadNum:Op { T v; size_t size; std::string txt() const { return std::to_string(v); } bool writable() const { return txt().size()<=size; } bool write(W& w) const { return w(v,size,W::left_padding,'0'); } void e(Enc& o) const { std::string t=txt(); t=std::string(size-t.size(),'0')+t; o.raw(t.data(),t.size(),t.size()); }
  bool read(R& r,Enc& o) const { T x=0; bool k=r(x,size); if(k) enc(o,x); return k; }
  bool d(In& i,Enc& o) const { if(i.s.size()-i.p<size) return false; std::string t(i.s,i.p,size); i.p+=size; bool neg=false; size_t k=0; if(k<t.size()&&(t[k]=='+'||(t[k]=='-'&&std::is_signed<T>::value))) neg=t[k++]=='-'; if(k==t.size()) return false; __int128 a=0; for(;k<t.size();++k){ if(t[k]<'0'||t[k]>'9') return false; if(a<((__int128)1<<100)) a=a*10+(t[k]-'0'); } if(neg) a=-a; if(a<(__int128)std::numeric_limits<T>::min()||a>(__int128)std::numeric_limits<T>::max()) return false; T x=(T)a; enc(o,x); return true; } };
template<class T> struct Endian:Op { T v; bool big; static T swap(T t){ unsigned char b[sizeof(T)]; memcpy(b,&t,sizeof t); std::reverse(b,b+sizeof t); memcpy(&t,b,sizeof t); return t; } bool write(W& w) const { return big?w.native_to_be(v):w.native_to_le(v); } void e(Enc& o) const { for(size_t i=0;i<sizeof(T);++i){ size_t k=big?sizeof(T)-1-i:i; unsigned char c=(unsigned char)((unsigned long long)v>>(8*k)); o.raw(&c,1,1); } }
  bool read(R& r,Enc& o) const { T x=0; bool k=big?r.be_to_native(x):r.le_to_native(x); if(k) enc(o,x); return k; } bool d(In& i,Enc& o) const { T x; if(!dec(i,x)) return false; if(big) x=swap(x); enc(o,x); return true; } };
typedef std::unique_ptr<Op> P;
template<class T> Val<T>* into(std::true_type){ return new Into<T>(); } template<class T> Val<T>* into(std::false_type){ return new Val<T>(); }
template<class T> P val(G& g,const char* n){ typedef std::integral_constant<bool,is_num<T>::v||std::is_same<T,User>::value> C; Val<T>* o=g.chance(1,6)?into<T>(C()):new Val<T>(); P p(o); o->v=T(); gen(g,o->v); o->name=n; return p; }
template<class T,size_t N> P arr(G& g,const char* n){ Arr<T,N>* o=new Arr<T,N>(); P p(o); for(auto& x:o->v) gen(g,x); o->len=g.chance(1,3); o->name=n; return p; }
template<class T> P ptr(G& g,const char* n){ Ptr<T>* o=new Ptr<T>(); P p(o); size_t k=g.len(60); o->v.resize(k); for(auto& x:o->v) gen(g,x); o->len=g.flip(); o->lt=(unsigned)g.below(k<=255?4:k<=65535?3:2); o->rt=(unsigned)g.below(2); o->name=n; return p; }
template<class T> P padn(G& g,const char* n){ PadNum<T>* o=new PadNum<T>(); P p(o); o->v=g.integer<T>(); if(o->v<0) o->v=(T)-(o->v+1); o->size=g.chance(1,8)?g.below(22):o->txt().size()+g.below(6); o->name=n; return p; }
template<class T> P endn(G& g,const char* n){ Endian<T>* o=new Endian<T>(); P p(o); gen(g,o->v); o->big=g.flip(); o->name=o->big?std::string("BE ")+n:std::string("LE ")+n; return p; }
inline P endian(G& g){ switch(g.below(6)){ case 0: return endn<short>(g,"short"); case 1: return endn<unsigned short>(g,"ushort"); case 2: return endn<int>(g,"int"); case 3: return endn<unsigned>(g,"uint"); case 4: return endn<long long>(g,"llong"); default: return endn<unsigned long long>(g,"ullong"); } }
inline P op(G& g,bool any=true){ // any: may include types whose every bit pattern is not a value
  unsigned n=any?44:40; switch(g.below(n)){
#define BM_V(K,...) case K: return val<__VA_ARGS__>(g,#__VA_ARGS__);
  BM_V(0,int) BM_V(1,char) BM_V(2,std::string) BM_V(3,unsigned char) BM_V(4,short) BM_V(5,unsigned short) BM_V(6,unsigned int) BM_V(7,long) BM_V(8,unsigned long) BM_V(9,long long) BM_V(10,unsigned long long) BM_V(11,float) BM_V(12,double) BM_V(13,signed char)
  BM_V(14,std::vector<int>) BM_V(15,std::vector<std::string>) BM_V(16,std::deque<short>) BM_V(17,std::deque<std::string>) BM_V(18,std::list<double>) BM_V(19,std::list<std::string>) BM_V(20,std::set<int>) BM_V(21,std::set<std::string>) BM_V(22,std::multiset<char>) BM_V(23,std::multiset<std::string>)
  BM_V(24,std::pair<int,std::string>) BM_V(25,std::vector<std::pair<short,std::string>>) BM_V(26,std::list<std::list<short>>) BM_V(27,std::vector<std::vector<unsigned char>>) BM_V(28,User) BM_V(29,std::vector<User>) BM_V(30,std::set<std::list<short>>) BM_V(31,std::vector<Inner>)
  case 32: return arr<int,5>(g,"int[5]"); case 33: return g.flip()?arr<char,7>(g,"char[7]"):arr<double,3>(g,"double[3]"); case 34: return g.flip()?ptr<int>(g,"int*"):ptr<char>(g,"char*");
  case 35: { typedef Sized<strtk::binary::short_string,unsigned short> Z; Z* o=new Z(); P p(o); o->v=g.chance(1,200)?std::string(65530+g.below(12),'s'):g.bytes(60); o->name="short_string"; return p; } case 36: { typedef Sized<strtk::binary::pascal_string,unsigned char> Z; Z* o=new Z(); P p(o); o->v=g.bytes(g.chance(1,4)?260:40); if(g.chance(1,8)) o->v=g.nbytes(253+g.below(6)); o->name="pascal_string"; return p; }
  case 37: { PadText* o=new PadText(); P p(o); o->v=g.bytes(20); o->size=g.chance(1,8)?g.below(25):o->v.size()+g.below(9); o->left=g.flip(); o->c=char(g.pick({' ','0','.','\0'})); o->name="padded text"; return p; }
  case 38: switch(g.below(4)){ case 0: return padn<int>(g,"padded int"); case 1: return padn<unsigned short>(g,"padded ushort"); case 2: return padn<long long>(g,"padded llong"); default: return padn<unsigned>(g,"padded uint"); }
  case 39: return endian(g); BM_V(40,bool) BM_V(41,long double) BM_V(42,std::list<bool>) default: return val<std::set<double>>(g,"std::set<double>"); }
}
struct Ops { std::vector<P> v; size_t size() const { return v.size(); } std::string names() const { std::string r; for(auto& p:v){ if(!r.empty()) r+=", "; r+=p->name; } return r; } };
}
#endif
