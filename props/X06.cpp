#include "models.hpp"
#include "strtk.hpp"
namespace pbt { const char* const property_id="X06";
const char* const rule_text="Texts over full byte alphabets and numbers, widths around the text length, indexes inside, at and beyond the end where defined, repeated and periodic sequences for canonical rotation (against all rotations), random permutation tables for translation, random operator sequences on ext_string against std::string. Non-trivial: the result differs from the input. Distinct by generated inputs."; }
using namespace model; using pbt::G; namespace tx=strtk::text;
FACET(alignment,16000){
  std::string s=g.bytes(40); size_t w=g.chance(1,3)?g.below(s.size()+4):g.below(120); char pad=char(g.below(256)); long long v=g.integer<long long>(); unsigned e=(unsigned)g.below(3); g.show("text",s); g.show("width",(unsigned long)w); g.show("pad",pad); g.show("entry",e);
  std::string t=e==0?s:std::to_string(v); if(e==2) pad=' '; size_t p=w>t.size()?w-t.size():0; g.nt(p>0); std::string L=t+std::string(p,pad),R=std::string(p,pad)+t,C=std::string(p/2,pad)+t+std::string(p-p/2,pad);
  if(e==0){ CHECK_EQ(tx::left_align(w,pad,s),L,"left"); CHECK_EQ(tx::right_align(w,pad,s),R,"right"); CHECK_EQ(tx::center(w,pad,s),C,"center"); }
  else if(e==1){ CHECK_EQ(tx::left_align(w,pad,v),L,"left"); CHECK_EQ(tx::right_align(w,pad,v),R,"right"); CHECK_EQ(tx::center(w,pad,v),C,"center"); }
  else { CHECK_EQ(tx::left_align(w,v),L,"left"); CHECK_EQ(tx::right_align(w,v),R,"right"); CHECK_EQ(tx::center(w,v),C,"center"); }
}
FACET(pieces_and_edits,16000){
  std::string s=g.bytes(60); size_t i=g.below(s.size()+4),j=g.below(s.size()+4); bool re=g.flip(); char c=char(g.below(256)); g.show("text",s); g.show("i",(unsigned long)i); g.show("j",(unsigned long)j); g.show("c",c); g.nt(i<s.size()&&i>0);
  std::string rem=i<s.size()?s.substr(i):re?std::string():s; CHECK_EQ(tx::remaining_string(i,s,re),rem,"remaining"); std::string o="junk"; tx::remaining_string(i,s,o,re); CHECK_EQ(o,rem,"remaining into");
  std::string sw=s; if(i<s.size()&&j<s.size()) std::swap(sw[i],sw[j]); CHECK_EQ(tx::swap(s,i,j),sw,"swap"); std::string t=s; tx::swap_inplace(t,i,j); CHECK_EQ(t,sw,"swap in place");
  std::string rm=s; if(i<s.size()) rm.erase(i,1); CHECK_EQ(tx::remove(s,i),rm,"remove"); t=s; tx::remove_inplace(t,i); CHECK_EQ(t,rm,"remove in place");
  size_t k=std::min(i,s.size()); std::string in=s; in.insert(k,1,c); CHECK_EQ(tx::insert(s,k,c),in,"insert"); t=s; tx::insert_inplace(t,k,c); CHECK_EQ(t,in,"insert in place"); CHECK_EQ(tx::remove(in,k),s,"remove undoes insert");
}
FACET(character_classes,6000){
  std::string s; switch(g.below(4)){ case 0: s=g.bytes(20); break; case 1: s=g.text("0123456789",20); break; case 2: s=g.text("abzABZ",20); break; default: s=g.text("09azAZ/:@[`{gGfF",20); } g.show("text",s); bool al=true,ad=true;
  for(char c:s){ bool d=c>='0'&&c<='9',l=c>='a'&&c<='z',u=c>='A'&&c<='Z',h=d||(c>='a'&&c<='f')||(c>='A'&&c<='F'); al=al&&(l||u); ad=ad&&d; CHECK_EQ(tx::is_digit(c),d,pbt::S(c)); CHECK_EQ(tx::is_letter(c),l||u,pbt::S(c)); CHECK_EQ(tx::is_lowercase_letter(c),l,pbt::S(c)); CHECK_EQ(tx::is_uppercase_letter(c),u,pbt::S(c)); CHECK_EQ(tx::is_hex_digit(c),h,pbt::S(c)); CHECK_EQ(tx::is_letter_or_digit(c),d||l||u,pbt::S(c)); }
  g.nt(s.size()>1); CHECK_EQ(tx::is_all_letters(s),al,"all letters"); CHECK_EQ(tx::is_all_digits(s),ad,"all digits");
}
template<class C> static C canon(const C& c){ C best=c,r=c; for(size_t i=0;i+1<c.size();++i){ auto b=r.front(); r.erase(r.begin()); r.push_back(b); if(r<best) best=r; } return best; }
FACET(canonical_rotation,12000){
  std::string s; switch(g.below(4)){ case 0: s=g.text("ab",40); break; case 1: { std::string u=g.text("ab",6); size_t k=1+g.below(5); while(k--) s+=u; break; } case 2: { std::string u=g.text("abc",5); size_t k=1+g.below(4); while(k--) s+=u; s+=g.text("abc",3); break; } default: s=g.text("The quick_zyx",50); }
  g.show("seq",s); std::string want=canon(s); g.nt(want!=s); std::string t=s; strtk::lexicographically_canonicalize(t); CHECK_EQ(t,want,"smallest rotation");
  std::vector<int> v(s.begin(),s.end()),w=canon(v); if(g.flip()) strtk::lexicographically_canonicalize(v); else { std::list<int> l(v.begin(),v.end()); strtk::lexicographically_canonicalize(l.begin(),l.end()); v.assign(l.begin(),l.end()); } CHECK_EQ(v,w,"smallest rotation of integers");
}
FACET(translation_table,8000){
  std::string in,out; std::vector<int> perm(256); for(int i=0;i<256;++i) perm[i]=i; size_t n=g.chance(1,6)?256:g.len(255); for(size_t i=0;i<n&&i<256;++i){ std::swap(perm[i],perm[i+g.below(256-i)]); in+=char(perm[i]); } for(size_t i=0;i<in.size();++i) out+=char(g.below(256));
  std::string s=g.bytes(80); if(!in.empty()) for(char& c:s) if(g.flip()) c=in[g.below(in.size())]; g.show("from",in); g.show("to",out); g.show("text",s); std::string want=s; for(char& c:want){ size_t k=in.find(c); if(k!=std::string::npos) c=out[k]; } g.nt(want!=s);
  strtk::translation_table t(in,out); CHECK_EQ(strtk::translate(t,s),want,"translated"); std::string u=s; strtk::translate_inplace(t,u); CHECK_EQ(u,want,"translated in place"); for(size_t i=0;i<s.size();++i){ CHECK_EQ(t(s[i]),want[i],"character"); CHECK_EQ(t((unsigned char)s[i]),(unsigned char)want[i],"unsigned character"); }
  bool thrown=false; try { strtk::translation_table bad(in+"x",out); } catch(const std::exception&){ thrown=true; } CHECK(thrown,"tables of different sizes are refused");
}
FACET(replicate_and_bracketize,10000){
  std::string s=g.bytes(20),pre=g.bytes(4),post=g.bytes(4),o=g.bytes(6); size_t n=g.below(12); std::vector<long long> v; size_t k=g.len(30); for(size_t i=0;i<k;++i) v.push_back(g.integer<long long>()); g.show("text",s); g.show("n",(unsigned long)n); g.show("pre",pre); g.show("post",post); g.show("values",v); g.nt(n>1||k>1);
  std::string rep; for(size_t i=0;i<n;++i) rep+=s; CHECK_EQ(strtk::replicate(n,s),rep,"n copies"); std::string t=o; strtk::replicate(n,s,t); CHECK_EQ(t,o+rep,"n copies appended"); t=s; strtk::replicate_inplace(n,t); CHECK_EQ(t,rep,"n copies in place");
  std::string b; for(auto x:v) b+=pre+std::to_string(x)+post; CHECK_EQ(strtk::bracketize(pre,post,v.begin(),v.end()),b,"range"); t=o; strtk::bracketize(t,pre,post,v); CHECK_EQ(t,o+b,"appended"); CHECK_EQ(strtk::bracketize(pre,post,v),b,"vector"); std::list<long long> l(v.begin(),v.end()); CHECK_EQ(strtk::bracketize(pre,post,l),b,"list");
  std::multiset<long long> ms(v.begin(),v.end()); std::string bm; for(auto x:ms) bm+=pre+std::to_string(x)+post; CHECK_EQ(strtk::bracketize(pre,post,ms),bm,"multiset");
}
FACET(string_arithmetic,12000){
  std::string m=g.text("abAB ",20); strtk::ext_string e(m); g.show("start",m); size_t n=1+g.below(8); std::string ops; bool ch=false;
  for(size_t i=0;i<n&&m.size()<4000;++i){ std::string a=g.text("abAB ",3); std::string old=m; unsigned o=(unsigned)g.below(14); g.note("op"+std::to_string(o)+"("+pbt::S(a)+")");
    switch(o){
      case 0: e+=a; m+=a; break; case 1: { int v=g.integer<int>(); e+=v; m+=std::to_string(v); break; } case 2: e<<a; m+=a; break;
      case 3: { size_t k=g.below(4); e*=k; std::string r; for(size_t j=0;j<k;++j) r+=m; m=r; break; }
      case 4: { size_t k=g.below(4); if(g.flip()) e=e*k; else e=k*e; std::string r; for(size_t j=0;j<k;++j) r+=m; m=r; break; }
      case 5: case 6: { std::string r; if(a.empty()) r=m; else for(size_t j=0;j<m.size();) if(m.compare(j,a.size(),a)==0) j+=a.size(); else r+=m[j++]; if(o==5) e-=a; else switch(g.below(3)){ case 0: e=e-a; break; case 1: e=e-a.c_str(); break; default: e=e-strtk::ext_string(a); } m=r; break; }
      case 7: { std::string b=g.text("xa",3),r; if(a.empty()) r=m; else for(size_t j=0;j<m.size();) if(m.compare(j,a.size(),a)==0){ r+=b; j+=a.size(); } else r+=m[j++]; e.replace(a,b); m=r; break; }
      case 8: e.to_lowercase(); m=lower(m); break; case 9: e.to_uppercase(); m=upper(m); break;
      case 10: { e.remove_leading(a); size_t j=0; while(j<m.size()&&a.find(m[j])!=std::string::npos) ++j; m=m.substr(j); break; }
      case 11: { e.remove_trailing(a); size_t j=m.size(); while(j&&a.find(m[j-1])!=std::string::npos) --j; m=m.substr(0,j); break; }
      case 12: e=e+a; m=m+a; break;
      default: e=a+e; m=a+m; }
    ch=ch||m!=old; CHECK_EQ(e.as_string(),m,"after step "<<i); }
  g.nt(ch); CHECK_EQ(e.clone(),m,"clone"); CHECK_EQ((std::string)e,m,"conversion"); CHECK_EQ(e.imatch(lower(m)),true,"imatch"); std::vector<std::string> parts; e.split(strtk::multiple_char_delimiter_predicate(" "),parts); CHECK_EQ(parts,pieces(m,split(m,Set256(" "),PLAIN)),"split");
  std::ostringstream os; os<<e; CHECK_EQ(os.str(),m,"streamed");
}

FACET(ext_string_views,5000){ // the remaining views of an ext_string answer like the plain functions on the text it holds
  std::string m=g.chance(1,3)?std::to_string(g.integer<int>()):g.text("ab,; 12",20); g.show("text",m); g.nt(m.size()>1); strtk::ext_string e(m),cp(e),as(""); as=e; CHECK_EQ(cp.as_string(),m,"copy"); CHECK_EQ(as.as_string(),m,"assigned"); if(m.find('\0')==std::string::npos) CHECK_EQ(strtk::ext_string(m.c_str()).as_string(),m,"from a C string"); std::string mm=m; CHECK_EQ(strtk::ext_string(strtk::range::adapter<char>(mm.empty()?0:&mm[0],mm.size())).as_string(),m,"from a range");
  int a=7,b=7; bool ok=strtk::string_to_type_converter(m,a); CHECK_EQ(e.as_type(b),ok,"as_type"); if(ok){ CHECK_EQ(b,a,"as_type value"); CHECK_EQ(e.as_type<int>(),a,"as_type value"); } else { bool threw=false; try { e.as_type<int>(); } catch(const std::invalid_argument&){ threw=true; } CHECK(threw,"as_type refuses"); }
  CHECK(e.imatch(strtk::ext_string(upper(m))),"imatch"); CHECK_EQ(e.imatch(strtk::ext_string(m+"x")),false,"imatch"); std::string set=g.text("ab,; 12",3); Set256 D(set); strtk::multiple_char_delimiter_predicate p(set); g.show("set",set); size_t i=0; while(i<m.size()&&D(m[i])) ++i; cp.remove_leading(p); if(i<m.size()||m.empty()) CHECK_EQ(cp.as_string(),m.substr(i),"remove_leading"); size_t j=m.size(); while(j&&D(m[j-1])) --j; as.remove_trailing(p); if(j||m.empty()) CHECK_EQ(as.as_string(),m.substr(0,j),"remove_trailing");
  size_t n=g.below(6); g.show("n",(unsigned long)n); auto w=pieces(m,split(m,D,PLAIN)); std::vector<std::pair<const char*,const char*> > r; e.split(p,pbt::slots(r)); std::vector<std::string> q; for(auto& z:r) q.push_back(std::string(z.first,z.second)); CHECK_EQ(q,w,"split"); w.resize(std::min(n,w.size())); q.clear(); e.split_n(p,n,q); CHECK_EQ(q,w,"split_n into a sequence"); r.clear(); e.split_n(p,n,pbt::slots(r)); q.clear(); for(auto& z:r) q.push_back(std::string(z.first,z.second)); CHECK_EQ(q,w,"split_n");
  std::string z; for(char c:set) if(c!=0) z+=c; std::vector<int> v1,v2,v3; std::size_t c1=e.parse(z,v1),c2=strtk::parse(m,z,v2); CHECK_EQ(c1,c2,"parse count"); CHECK_EQ(v1,v2,"parse"); CHECK_EQ(e.parse(z.c_str(),v3),c2,"parse count"); CHECK_EQ(v3,v2,"parse");
}
FACET(character_sets,20){ std::string all=strtk::ext_string::all_chars().as_string(); CHECK_EQ(all.size(),(size_t)256,"every character"); for(int i=0;i<256;++i) CHECK_EQ((int)(unsigned char)all[i],i,"in order"); std::string dg,lo,up; for(char c='0';c<='9';++c) dg+=c; for(char c='a';c<='z';++c) lo+=c; for(char c='A';c<='Z';++c) up+=c; CHECK_EQ(strtk::ext_string::all_digits().as_string(),dg,"digits"); CHECK_EQ(strtk::ext_string::all_lowercase_letters().as_string(),lo,"lower"); CHECK_EQ(strtk::ext_string::all_uppercase_letters().as_string(),up,"upper"); CHECK_EQ(strtk::ext_string::all_letters().as_string(),lo+up,"letters"); g.nt(); }
LARGE(alignment,6,70000) LARGE(pieces_and_edits,6,70000) LARGE(character_classes,6,70000) LARGE(translation_table,6,70000) LARGE(ext_string_views,6,5000) LARGE(canonical_rotation,4,2000) LARGE(string_arithmetic,5,70000)
