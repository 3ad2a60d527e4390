#include "fields.hpp"
#include "strtk.hpp"
namespace pbt { const char* const property_id="P04";
const char* const rule_text="An adapter with generated settings, one to three successive fields (well-formed, boundary-sized, mutated, empty) each placed alone, first, middle or last in a delimited record and parsed through the string or the range entry point into the same adapter object. Oracle: a definition of each adapter over the field's text; the record parses iff the field satisfies it. Non-trivial: the field is non-empty. Distinct by adapter settings, fields and positions."; }
using namespace model; using pbt::G;
// Places the field in a record and parses it; false when the record was rejected. Judges the verdict when `judge`.
template<class A> static bool enclosed(G& g,const std::string& f,A& ad,bool want,const char* what,bool judge=true){
  unsigned pos=(unsigned)g.below(4); bool str=g.flip(); std::string t=pos==0?f:pos==1?f+"|ab|12":pos==2?"ab|"+f+"|12":"ab|12|"+f; if(f.empty()&&(pos==0||pos==2)) want=false;
  g.show("record",t); g.nt(!f.empty()); std::string s; int i=0; bool r=false; Exact x(t); const std::string d="|";
  switch(pos){
    case 0: r=str?strtk::parse(t,d,ad):strtk::parse(x.b(),x.e(),d,ad); break;
    case 1: r=str?strtk::parse(t,d,ad,s,i):strtk::parse(x.b(),x.e(),d,ad,s,i); break;
    case 2: r=str?strtk::parse(t,d,s,ad,i):strtk::parse(x.b(),x.e(),d,s,ad,i); break;
    default: r=str?strtk::parse(t,d,s,i,ad):strtk::parse(x.b(),x.e(),d,s,i,ad);
  }
  g.label(want?"accepted":"rejected"); if(judge) CHECK_EQ(r,want,what<<": verdict of the record"); if(r&&pos){ CHECK_EQ(s,std::string("ab"),"neighbouring text"); CHECK_EQ(i,12,"neighbouring number"); }
  return r&&want;
}
static std::string mutate(G& g,std::string s,const std::string& al){ if(g.chance(2,3)) return s; size_t k=g.below(s.size()+1); switch(g.below(4)){ case 0: if(!s.empty()) s.erase(std::min(k,s.size()-1),1); break; case 1: s.insert(k,1,al[g.below(al.size())]); break; case 2: if(!s.empty()) s[std::min(k,s.size()-1)]=al[g.below(al.size())]; break; default: s=s.substr(0,k); } return s; }
static unsigned rounds(G& g){ return 1+(unsigned)g.below(3); }
static int hexv(char c){ return c>='0'&&c<='9'?c-'0':c>='a'&&c<='f'?c-'a'+10:c>='A'&&c<='F'?c-'A'+10:-1; }

// Numbers from hexadecimal and base64.
template<class T> static void hexnum(G& g,const char* name){
  g.note(name); T v=T(); strtk::hex_to_number_sink<T> k(v);
  for(unsigned r=rounds(g);r--;){
    size_t n=g.chance(1,6)?g.below(2*sizeof(T)+4):1+g.below(2*sizeof(T)); std::string f=g.fixed(g.flip()?"0123456789abcdefABCDEF":"0fF8",n); f=mutate(g,f,"0gG -x:/@`\xff"); if(g.flip()) f=(g.flip()?"0x":"0X")+f;
    size_t off=f.size()>2&&f[0]=='0'&&(f[1]=='x'||f[1]=='X')?2:0; std::string h=f.substr(off); bool ok=!h.empty()&&h.size()<=2*sizeof(T); unsigned long long w=0; for(char c:h){ if(hexv(c)<0) ok=false; w=w*16+(unsigned)(hexv(c)&15); }
    bool direct=g.chance(1,4); if(direct){ if(g.flip()) k=f; else { Exact x(f); k=std::make_pair(x.b(),x.e()); } g.show("field",f); CHECK_EQ(k.valid(),ok,"validity of a directly assigned field"); g.nt(!f.empty()); if(ok) CHECK_EQ(v,(T)w,"number"); continue; }
    if(enclosed(g,f,k,ok,"hexadecimal number")) CHECK_EQ(v,(T)w,"number");
  }
}
FACET(hex_short,600){ hexnum<short>(g,"short"); } FACET(hex_ushort,600){ hexnum<unsigned short>(g,"unsigned short"); } FACET(hex_int,900){ hexnum<int>(g,"int"); } FACET(hex_uint,900){ hexnum<unsigned>(g,"unsigned"); }
FACET(hex_long,600){ hexnum<long>(g,"long"); } FACET(hex_ulong,600){ hexnum<unsigned long>(g,"unsigned long"); } FACET(hex_ll,600){ hexnum<long long>(g,"long long"); } FACET(hex_ull,600){ hexnum<unsigned long long>(g,"unsigned long long"); }

static std::string b64(const std::string& s){ static const char A[]="ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; std::string r; for(size_t i=0;i<s.size();i+=3){ unsigned v=0; size_t n=std::min<size_t>(3,s.size()-i); for(size_t k=0;k<3;++k) v=v<<8|(k<n?(unsigned char)s[i+k]:0); for(size_t k=0;k<4;++k) r+=k<=n?A[v>>(18-6*k)&63]:'='; } return r; }
template<class T> static void b64num(G& g,const char* name){
  g.note(name); T v=T(); strtk::base64_to_number_sink<T> k(v);
  for(unsigned r=rounds(g);r--;){
    size_t n=g.chance(1,6)?g.below(sizeof(T)+5):1+g.below(sizeof(T)); std::string raw=g.nbytes(n),f=b64(raw); bool judge=true,ok=n>=1&&n<=sizeof(T);
    // Wrong padding or length is only checked for memory safety; a character outside the alphabet is rejected.
    if(g.chance(1,5)){ f=mutate(g,f,"Aa0+/="); judge=false; } else if(g.chance(1,6)&&!f.empty()){ f[g.below(f.size())]=g.pick<char>({'!','-','_','.','@','[','`','{',':','\xff','\0'}); ok=false; }
    unsigned long long w=0; for(unsigned char c:raw) w=w<<8|c; if(n<sizeof(T)||true) w=w; 
    if(enclosed(g,f,k,ok,"base64 number",judge)&&judge) CHECK_EQ(v,(T)w,"number");
  }
}
FACET(base64_short,600){ b64num<short>(g,"short"); } FACET(base64_ushort,600){ b64num<unsigned short>(g,"unsigned short"); } FACET(base64_int,900){ b64num<int>(g,"int"); } FACET(base64_uint,900){ b64num<unsigned>(g,"unsigned"); } FACET(base64_ll,600){ b64num<long long>(g,"long long"); } FACET(base64_ull,600){ b64num<unsigned long long>(g,"unsigned long long"); }

FACET(hex_string,4000){
  std::string v; strtk::hex_to_string_sink k(v);
  for(unsigned r=rounds(g);r--;){
    std::string f=g.fixed("0123456789abcdefABCDEF",g.below(3)?2*g.len(20):g.len(40)); if(g.flip()) f=(g.flip()?"0x":"0X")+f; size_t off=f.size()>2&&f[0]=='0'&&(f[1]=='x'||f[1]=='X')?2:0; std::string h=f.substr(off),w; bool ok=h.size()>=2&&h.size()%2==0; bool judge=h.size()>2||hexv(h.size()>1?h[1]:'0')>=0; 
    if(ok) for(size_t i=0;i<h.size();i+=2) w+=char(hexv(h[i])*16+hexv(h[i+1]));
    bool direct=g.chance(1,4); if(direct){ if(g.flip()) k=f; else { Exact x(f); k=std::make_pair(x.b(),x.e()); } g.show("field",f); if(judge) CHECK_EQ(k.valid(),ok,"validity"); if(ok&&judge) CHECK_EQ(v,w,"bytes"); continue; }
    if(enclosed(g,f,k,ok,"hexadecimal text",judge)&&judge) CHECK_EQ(v,w,"bytes");
  }
}

template<class T> static void trunc(G& g,const char* name){
  g.note(name); T v=T(); strtk::truncated_int<T> k; bool bound=!g.chance(1,40); if(bound) k(v); bool sized=g.flip(); size_t fs=g.below(6); if(sized) k.fractional_size(fs); if(g.chance(1,8)){ k.fractional_unknown_size(); sized=false; }
  g.show("fraction",sized?(int)fs:-1);
  for(unsigned r=rounds(g);r--;){
    std::string f=g.chance(1,8)?Field<T>::bad(g):Field<T>::gen(g); if(g.chance(4,5)) f+="."+g.fixed("0123456789",sized?(g.chance(1,5)?g.below(8):fs):g.below(8)); if(g.chance(1,8)) f=mutate(g,f,".1-x"); for(char& c:f) if(c=='|') c='_';
    T w=T(); bool ok=bound; if(ok){ if(sized) ok=f.size()>=fs+1&&int_field<T>(f.substr(0,f.size()-(fs+1)),w); else ok=int_field<T>(f.substr(0,f.find('.')),w); }
    if(enclosed(g,f,k,ok,"truncated integer")) CHECK_EQ(v,w,"integer part");
  }
}
FACET(truncated_int,2000){ trunc<int>(g,"int"); } FACET(truncated_short,1000){ trunc<short>(g,"short"); } FACET(truncated_uint,1000){ trunc<unsigned>(g,"unsigned"); } FACET(truncated_ll,1000){ trunc<long long>(g,"long long"); } FACET(truncated_ull,1000){ trunc<unsigned long long>(g,"unsigned long long"); }

template<class T> static void decimal(G& g,const char* name){
  g.note(name); T v=T(); size_t is=1+g.below(12),fs=g.below(9); strtk::decimal_sink<T> k(is,fs); bool bound=!g.chance(1,40); if(g.flip()){ if(bound) k(v); if(g.flip()) k.int_size(is=1+g.below(8)); if(g.flip()) k.frac_size(fs=g.below(6)); } else if(bound){ k=strtk::decimal_sink<T>(v,is,fs); }
  g.show("int",is); g.show("frac",fs);
  for(unsigned r=rounds(g);r--;){
    std::string f=g.pick<const char*>({"","","-","+"}); if(g.chance(1,6)) f+=std::string(1+g.below(30),'0'); f+=g.fixed("0123456789",g.chance(1,6)?g.below(is+3):1+g.below(is)); if(g.chance(3,4)) f+="."+g.fixed("0123456789",g.chance(1,3)?g.below(fs+6):fs); f=mutate(g,f,".1-x9 /:");
    // integer part after the sign and leading zeros, then a point, then as many fraction digits as asked for
    size_t i=0; bool neg=false,ok=bound&&!f.empty(); if(ok&&(f[0]=='-'||f[0]=='+')){ neg=f[0]=='-'; i=1; if(f.size()==1) ok=false; } size_t digits=0; while(i<f.size()&&f[i]=='0') ++i,++digits;
    std::string ip,fp; while(i<f.size()&&f[i]>='0'&&f[i]<='9') ip+=f[i++]; if(ip.size()>is) ok=false; bool judge=true; if(ok&&i<f.size()){ if(f[i]!='.') ok=false; else { ++i; for(;i<f.size()&&fp.size()<fs;++i){ if(f[i]<'0'||f[i]>'9'){ ok=false; break; } fp+=f[i]; } for(;i<f.size();++i) if(f[i]<'0'||f[i]>'9') judge=false; } }
    if(ok&&digits+ip.size()==0) judge=false; // whether ".5" or "." is a number at all is not stated
    long double w=strtold((ip.empty()?std::string("0"):ip).append(".").append(fp.empty()?"0":fp).c_str(),0); if(neg) w=-w;
    if(enclosed(g,f,k,ok,"fixed decimal",judge)&&judge){ long double e=(sizeof(T)==4?1e-6L:1e-14L)*std::fabs(w); CHECK(std::fabs((long double)v-w)<=e,"value "<<(double)v<<", expected "<<(double)w); }
  }
}
FACET(decimal_double,3000){ decimal<double>(g,"double"); } FACET(decimal_float,1500){ decimal<float>(g,"float"); } FACET(decimal_long_double,1500){ decimal<long double>(g,"long double"); }

static std::string word(G& g){ return g.text(g.flip()?"abAB":"aAzZ09@[`{ \x80\xe0\xff",g.chance(1,8)?300:8); }
FACET(expect,4000){
  std::string v=word(g),first=v; auto k=strtk::expect(v); bool ci=g.flip(); auto ki=strtk::iexpect(v); g.show("value",v); g.show("fold",ci);
  for(unsigned r=rounds(g);r--;){
    std::string f=v; if(g.chance(1,3)) f=word(g); else if(g.flip()) for(char& c:f) if(g.flip()) c=g.flip()?lower(std::string(1,c))[0]:upper(std::string(1,c))[0]; f=mutate(g,f,"aAbB@`");
    bool ok=ci?lower(f)==lower(v):f==v; if(ci) enclosed(g,f,ki.ref(),ok,"expected value ignoring case"); else enclosed(g,f,k.ref(),ok,"expected value");
    if(g.chance(1,3)){ v=word(g); k.set_value(v); ki.set_value(v); g.show("next value",v); }
  }
}
static bool wild(const std::string& p,const std::string& t){
  std::vector<std::vector<char>> d(p.size()+1,std::vector<char>(t.size()+1,0)); d[0][0]=1;
  for(size_t i=1;i<=p.size();++i) for(size_t j=0;j<=t.size();++j){ if(p[i-1]=='*') d[i][j]=d[i-1][j]||(j&&d[i][j-1]); else if(p[i-1]=='?') d[i][j]=d[i-1][j]||(j&&d[i-1][j-1]); else d[i][j]=j&&p[i-1]==t[j-1]&&d[i-1][j-1]; }
  return d[p.size()][t.size()];
}
FACET(like,4000){
  std::string p=g.text("ab*?",10); auto k=strtk::like(p); g.show("pattern",p);
  for(unsigned r=rounds(g);r--;){ std::string f; for(char c:p) if(c=='*') f+=g.fixed("ab",g.below(4)); else if(c=='?') f+=g.fixed("ab",g.below(2)); else f+=c; f=mutate(g,f,"ab"); enclosed(g,f,k.ref(),wild(p,f),"wildcard pattern"); if(g.chance(1,3)){ p=g.text("ab*?",10); k.set_pattern(p); g.show("next pattern",p); } }
}
template<class T> static void inrange(G& g,const char* name){
  g.note(name); T v=T(); auto some=[&]{ T x=T(); if(std::is_floating_point<T>::value||g.flip()) return (T)((long long)g.below(40)-(std::numeric_limits<T>::is_signed?20:0)); Field<T>::valid(Field<T>::gen(g),x); return x; };
  T lo=some(),hi=some(); if(g.chance(7,8)&&hi<lo) std::swap(lo,hi); auto k=strtk::inrange(v,lo,hi);
  for(unsigned r=rounds(g);r--;){
    g.show("low",value_text(lo)); g.show("high",value_text(hi)); std::string f; switch(g.below(6)){ case 0: f=Field<T>::bad(g); break; case 1: f=Field<T>::gen(g); break; case 2: f=value_text(lo); break; case 3: f=value_text(hi); break; default: f=value_text(some()); if(std::is_floating_point<T>::value&&g.flip()) f+=".5"; }
    for(char& c:f) if(c=='|') c='_'; T w=T(); bool ok=Field<T>::valid(f,w)&&!(w<lo)&&!(hi<w); T before=v; bool near=std::is_floating_point<T>::value&&(Field<T>::same(w,lo)||Field<T>::same(w,hi))&&w!=lo&&w!=hi;
    bool r2=enclosed(g,f,k.ref(),ok,"value range",!near); if(r2&&!near) CHECK(Field<T>::same(v,w),"value "<<value_text(v)<<", expected "<<value_text(w)); if(!ok&&!near) CHECK(Field<T>::same(v,before),"a value out of range is not stored");
    if(g.chance(1,3)){ lo=some(); hi=some(); if(hi<lo) std::swap(lo,hi); k.set_low_hi(lo,hi); }
  }
}
FACET(inrange_int,1500){ inrange<int>(g,"int"); } FACET(inrange_ushort,800){ inrange<unsigned short>(g,"unsigned short"); } FACET(inrange_ll,800){ inrange<long long>(g,"long long"); } FACET(inrange_ull,800){ inrange<unsigned long long>(g,"unsigned long long"); } FACET(inrange_double,1500){ inrange<double>(g,"double"); } FACET(inrange_float,800){ inrange<float>(g,"float"); }
FACET(inrange_string,800){
  std::string v,lo=g.text("abc",3),hi=g.text("abc",3); auto k=strtk::inrange(v,lo,hi); g.show("low",lo); g.show("high",hi); for(unsigned r=rounds(g);r--;){ std::string f=g.text("abc",4); if(enclosed(g,f,k.ref(),lo<=f&&f<=hi,"text range")) CHECK_EQ(v,f,"text"); }
}
static std::string trimmed(std::string s,const std::string& c,unsigned m){ if(m!=2) while(!s.empty()&&c.find(s[0])!=std::string::npos) s.erase(0,1); if(m!=1) while(!s.empty()&&c.find(s[s.size()-1])!=std::string::npos) s.erase(s.size()-1); return s; }
template<class T> static void trim(G& g,const char* name){
  g.note(name); T v=T(); std::string c=g.pick<const char*>({" "," \t","_.","x","","\"'","0 "}); if(std::is_floating_point<T>::value&&c[0]=='0') c="_"; unsigned m=(unsigned)g.below(3); g.show("chars",c); g.show("mode",m); std::string pad=c+" x"; auto k=m==0?strtk::trim(c,v):m==1?strtk::trim_leading(c,v):strtk::trim_trailing(c,v);
  for(unsigned r=rounds(g);r--;){
    std::string f=g.chance(1,8)?Field<T>::bad(g):Field<T>::gen(g); for(char& q:f) if(q=='|') q='_'; if(m!=2||g.chance(1,8)) f=g.fixed(g.chance(1,8)||c.empty()?pad:c,g.below(4))+f; if(m!=1||g.chance(1,8)) f+=g.fixed(g.chance(1,8)||c.empty()?pad:c,g.below(4)); if(g.chance(1,20)) f=c.empty()?"":g.fixed(c,g.below(4));
    T w=T(); bool ok=Field<T>::valid(trimmed(f,c,m),w); if(enclosed(g,f,k.ref(),ok,"trimmed field")) CHECK(Field<T>::same(v,w),"trimmed value "<<value_text(v)<<", expected "<<value_text(w));
  }
}
FACET(trim_string,3000){ trim<std::string>(g,"string"); } FACET(trim_int,1500){ trim<int>(g,"int"); } FACET(trim_double,1500){ trim<double>(g,"double"); } FACET(trim_ull,800){ trim<unsigned long long>(g,"unsigned long long"); } FACET(trim_char,500){ trim<char>(g,"char"); }
FACET(trim_truncated,800){
  int v=0; strtk::truncated_int<int> t; t(v); auto k=strtk::trim(" \"",t); for(unsigned r=rounds(g);r--;){ std::string f=g.fixed(" \"",g.below(3))+(g.chance(1,8)?Field<int>::bad(g):Field<int>::gen(g))+(g.flip()?"."+g.fixed("0123456789",g.below(5)):"")+g.fixed(" \"",g.below(3)); std::string s=trimmed(f," \"",0); int w=0; bool ok=int_field(s.substr(0,s.find('.')),w); if(enclosed(g,f,k.ref(),ok,"trimmed truncated integer")) CHECK_EQ(v,w,"value"); }
}
FACET(fold_case,2500){
  std::string v="zz"; bool up=g.flip(); auto l=strtk::as_lcase(v); auto u=strtk::as_ucase(v); g.show("upper",up);
  for(unsigned r=rounds(g);r--;){ std::string f=g.flip()?word(g):g.bytes(20); for(char& c:f) if(c=='|') c='_'; if(up?enclosed(g,f,u.ref(),true,"upper case"):enclosed(g,f,l.ref(),true,"lower case")) CHECK_EQ(v,up?upper(f):lower(f),"folded text"); }
}
template<class A> static bool array_record(G& g,const std::string& f,A& ad,bool want){
  bool mid=g.flip(); std::string t=mid?"ab|"+f+"|12":f+"|ab|12"; if(mid&&f.empty()) want=false; Exact x(t); std::string s; int i=0; g.show("record",t); g.nt(!f.empty()); g.label(want?"accepted":"rejected"); const std::string d="|";
  bool r=mid?strtk::parse(x.b(),x.e(),d,s,ad,i):strtk::parse(x.b(),x.e(),d,ad,s,i); CHECK_EQ(r,want,"verdict of the record"); return r; }
FACET(fill_array,2500){
  unsigned form=(unsigned)g.below(6); size_t n=g.below(9); char* buf=new char[n+1]; std::fill(buf,buf+n+1,'#'); unsigned char fixed[6]; char fixedc[5]; std::string str(n,'-'); memset(fixed,'#',6); memset(fixedc,'#',5); g.show("form",form);
  struct Del { char* p; ~Del(){ delete[] p; } } del={buf}; strtk::details::fill_array_impl* none=0; (void)none;
  auto run=[&](decltype(strtk::fill_array(buf,n))& k,char* at,size_t size){
    for(unsigned r=rounds(g);r--;){ std::string f=g.nbytes(g.chance(2,3)?size:g.below(10)); for(char& c:f) if(c=='|') c='_'; std::string before(at,at+size); bool ok=array_record(g,f,k.ref(),f.size()==size); CHECK_EQ(std::string(at,at+size),f.size()==size&&ok?f:before,"array content"); } };
  switch(form){
    case 0: { auto k=strtk::fill_array(buf,n); run(k,buf,n); CHECK_EQ(buf[n],'#',"nothing past the array"); break; }
    case 1: { auto k=strtk::fill_array((unsigned char*)buf,n); run(k,buf,n); CHECK_EQ(buf[n],'#',"nothing past the array"); break; }
    case 2: { auto k=strtk::fill_array(fixed); run(k,(char*)fixed,6); break; }
    case 3: { auto k=strtk::fill_array(fixedc); run(k,fixedc,5); break; }
    case 4: { if(n==0) break; auto k=g.flip()?strtk::fill_array(str):strtk::fill_array(str,n); run(k,&str[0],n); break; }
    default: { auto k=strtk::fill_array(fixed); if(g.flip()) k.set(buf,n); else if(g.flip()) k.set((unsigned char*)buf,n); else { k.set_size(n); if(g.flip()) k.set_data(buf); else k.set_data((unsigned char*)buf); } run(k,buf,n); CHECK_EQ(buf[n],'#',"nothing past the array"); }
  }
}
// Ignored fields among typed ones.
FACET(ignore_token,2500){
  strtk::ignore_token ig; std::string f[5],t; unsigned skip=(unsigned)g.below(32); for(unsigned i=0;i<5;++i){ f[i]=skip>>i&1?g.fixed("ab1.-\xff",1+g.below(6)):Field<int>::gen(g); if(i) t+='|'; t+=f[i]; } g.show("text",t); g.show("ignored",skip); g.nt(skip!=0);
  int v[5]={0,0,0,0,0}; bool r;
  // two of the variable patterns, chosen by the mask's low bits; a typed variable over an ignored text must reject
  int w; auto isint=[&](unsigned i){ return int_field(f[i],w); }; Exact x(t); const std::string d="|";
  switch(g.below(4)){
    case 0: r=strtk::parse(t,d,ig,v[1],ig,v[3],ig); CHECK_EQ(r,isint(1)&&isint(3),"ignored at 1 3 5"); if(r) for(int i:{1,3}){ int_field(f[i],w); CHECK_EQ(v[i],w,"value"); } break;
    case 1: r=strtk::parse(x.b(),x.e(),d,v[0],ig,ig,v[3],v[4]); CHECK_EQ(r,isint(0)&&isint(3)&&isint(4),"ignored at 2 3"); if(r) for(int i:{0,3,4}){ int_field(f[i],w); CHECK_EQ(v[i],w,"value"); } break;
    case 2: r=strtk::parse(t,d,ig,ig,ig,ig,v[4]); CHECK_EQ(r,isint(4),"last"); if(r){ int_field(f[4],w); CHECK_EQ(v[4],w,"value"); } break;
    default: CHECK(strtk::parse(t,d,ig,ig,ig,ig,ig),"all ignored"); CHECK(!strtk::parse(t,d,ig,ig,ig,ig,ig,ig),"one field short");
  }
}

// A copy of a sink delivers to the same place; a sink assigned another follows it.
template<class Sink,class T> static void sink_copies(G& g,const std::string& f,T w){ T a=T(),b=T(3),c=T(5); Sink x(a),y(b); Sink z(x); if(g.flip()){ Sink o(c); y=o; y=f; CHECK(y.valid(),"assigned sink"); CHECK_EQ(c,w,"value through an assigned sink"); CHECK_EQ(b,T(3),"the former target"); } else { z=f; CHECK(z.valid(),"copied sink"); CHECK_EQ(a,w,"value through a copied sink"); x=std::string("?"); y=x; CHECK(!y.valid(),"validity is copied"); y=f; CHECK_EQ(a,w,"value"); } g.show("field",f); g.nt(w!=T(0)); }
FACET(copied_number_sinks,1500){ unsigned v=(unsigned)g.any64(); char t[16]; snprintf(t,sizeof t,"%x",v); if(g.flip()) sink_copies<strtk::hex_to_number_sink<unsigned>,unsigned>(g,t,v); else { std::string raw; for(int i=3;i>=0;--i) raw+=char(v>>(8*i)); sink_copies<strtk::base64_to_number_sink<unsigned>,unsigned>(g,b64(raw),v); } }
FACET(copied_text_sinks,1500){ std::string raw=g.nbytes(1+g.below(9)),h; for(unsigned char c:raw){ char b[3]; snprintf(b,3,g.flip()?"%02x":"%02X",c); h+=b; } std::string a="first",b="second",c="third"; strtk::hex_to_string_sink x(a),y(b); g.show("field",h); g.nt(true);
  if(g.flip()){ strtk::hex_to_string_sink z(x); z=h; CHECK(z.valid(),"copied sink"); CHECK_EQ(a,raw,"text through a copied sink"); } else { { strtk::hex_to_string_sink o(c); y=o; } CHECK_EQ(b,"second","the former target"); y=h; CHECK(y.valid(),"assigned sink"); CHECK_EQ(c,raw,"text through an assigned sink"); CHECK_EQ(b,"second","the former target"); x=y; CHECK(x.valid(),"validity is copied"); CHECK_EQ(a,"first","the former target"); } }
LARGE1(hex_string,6,20000) LARGE1(like,5,700) LARGE1(trim_string,5,20000) LARGE1(fold_case,5,20000) LARGE1(expect,5,20000) LARGE1(fill_array,5,5000)
