// A catalogue of operations across the library, each a function from an input (texts, delimiters, numbers, a file
// name of its own) to everything the operation reports. Used where a property quantifies over operations.
#ifndef OPS_HPP
#define OPS_HPP
#include "models.hpp"
#include "strtk.hpp"
#include <list>
#include <queue>
#include <memory>
#include <fstream>
#include <unistd.h>
namespace ops {
typedef std::string Str; typedef std::pair<const char*,const char*> R;
struct In { Str s,d; std::vector<int> v; unsigned long long k; Str file; };
typedef Str (*Op)(const In&);
#ifndef OPS_UNDISTURBED
#define OPS_UNDISTURBED
#endif
template<class T> static Str T2S(const T& t){ OPS_UNDISTURBED std::ostringstream o; o.precision(17); o<<t; return o.str(); }
static Str show(const Str& s){ return "["+s+"]"; }
template<class C> static Str all(const C& c){ Str o; for(auto& x:c) o+=show(T2S(x)); return o; }
static Str ranges(const std::vector<R>& v){ Str o; for(auto& r:v) o+=show(Str(r.first,r.second)); return o; }
struct Gather { Str* o; void operator()(const R& r) const { *o+=show(Str(r.first,r.second)); } void operator()(const Str& s) const { *o+=show(s); } };
struct Words { std::vector<Str>* o; bool operator()(const char* a,const char* b) const { o->push_back(Str(a,b)); return a!=b; } bool operator()(const unsigned char* a,const unsigned char* b) const { o->push_back(Str((const char*)a,(const char*)b)); return a!=b; } };
#define OP(n) static Str n(const In& x)
OP(split_){ std::vector<R> v; size_t n=strtk::split(strtk::multiple_char_delimiter_predicate(x.d),x.s,std::back_inserter(v),x.k%4==1?strtk::split_options::compress_delimiters:strtk::split_options::default_mode); return T2S(n)+ranges(v); }
OP(split_text){ std::vector<R> v; strtk::split(x.d,x.s,std::back_inserter(v)); return ranges(v); }
OP(split_n_){ std::vector<R> v; strtk::split_n(x.d,x.s,x.k%5,std::back_inserter(v)); return ranges(v); }
OP(tokenize){ Str o; strtk::multiple_char_delimiter_predicate p(x.d); strtk::std_string::tokenizer<strtk::multiple_char_delimiter_predicate>::type t(x.s,p); for(auto i=t.begin();i!=t.end();++i) o+=show(i.as_string()); return o; }
OP(each_token){ Str o; Gather f={&o}; size_t n=strtk::for_each_token(x.s,x.d,f); return o+T2S(n); }
OP(regex_){ std::vector<Str> v; strtk::split_regex("[0-9]+",x.s,strtk::range_to_type_back_inserter(v),strtk::regex_match_mode::match_all); return all(v); }
OP(offsets){ std::vector<R> v; const int o[]={1,2,3}; strtk::offset_splitter(x.s,strtk::offsets(o[0],o[1],o[2]),std::back_inserter(v)); return ranges(v); }
OP(parse_typed){ int i=0; double d=0; Str s; bool r=strtk::parse(x.s,x.d,i,d,s); return T2S(r)+(r?T2S(i)+","+T2S(d)+","+s:""); }
OP(parse_vector){ std::vector<int> v; bool r=strtk::parse(x.s,x.d,v); return T2S(r)+all(v); }
OP(parse_words){ std::list<Str> l; strtk::parse(x.s,x.d,l); std::set<Str> s; strtk::parse(x.s,x.d,s); return all(l)+all(s); }
OP(parse_mixed){ Str a; std::deque<double> q; bool r=strtk::parse(x.s,x.d,a,q); return T2S(r)+(r?a+all(q):""); }
OP(parse_sinks){ std::vector<int> v; std::set<Str> s; strtk::vector_sink<int>::type vs(","); strtk::set_sink<Str>::type ss(",;"); bool r=strtk::parse(x.s,"|",vs(v),ss(s)); return T2S(r)+all(v)+all(s); }
OP(parse_ignore){ strtk::ignore_token g; int i=-1; bool r=strtk::parse(x.s,x.d,g,i); return T2S(r)+T2S(i); }
OP(parse_adapters){ unsigned h=7; strtk::hex_to_number_sink<unsigned> hs(h); Str t; bool r=strtk::parse(x.s,x.d,hs,t); return T2S(r)+T2S(h); }
OP(parse_trim){ Str t; bool r=strtk::parse(x.s,x.d,strtk::trim(" ",t).ref()); return T2S(r)+t; }
OP(array_){ int a[32]={0}; std::vector<Str> v; strtk::parse(x.s,x.d,v); size_t n=0; if(v.size()<=32){ strtk::split(x.d,x.s,strtk::range_to_ptr_type(a)); int b[32]={0}; strtk::split(x.d,x.s,strtk::range_to_ptr_type(b,n)); return all(std::vector<int>(a,a+32))+T2S(n)+all(std::vector<int>(b,b+32)); } return "long"; }
OP(numbers){ Str o; for(int i:x.v){ o+=strtk::type_to_string(i)+" "+strtk::type_to_string(i*0.37)+" "+strtk::type_to_string((unsigned long long)(x.k+(unsigned)i)); int j=0; double d=0; strtk::string_to_type_converter(strtk::type_to_string(i),j); strtk::string_to_type_converter(strtk::type_to_string(i*0.5),d); o+=T2S(j)+T2S(d); } return o; }
OP(reals){ Str o; double d=0; float f=0; long double l=0; if(strtk::string_to_type_converter(x.s,d)) o+=T2S(d); if(strtk::string_to_type_converter(x.s,f)) o+=T2S(f); if(strtk::string_to_type_converter(x.s,l)) o+=T2S((double)l); return o; }
OP(hexnum){ unsigned long long u=0; char b[24]; snprintf(b,24,"%llx",x.k); strtk::hex_to_number_sink<unsigned long long> h(u); h=Str(b); return T2S(u); }
OP(fast_){ Str t=strtk::type_to_string(x.k%1000000); unsigned u=0; bool r=strtk::fast::numeric_convert(t.size(),t.data(),u,true); int i=0; r=strtk::fast::signed_numeric_convert(t,i,true)&&r; return T2S(r)+T2S(u)+T2S(i); }
OP(joined){ Str o=strtk::join("-",x.v); o+=strtk::join(",",x.v.begin(),x.v.end()); o+=strtk::bracketize("<",">",const_cast<std::vector<int>&>(x.v)); return o; }
OP(built){ strtk::build_string b; b<<x.s<<x.k<<Str("|")<<(int)x.v.size(); Str o=b.to_str(); Str p; strtk::construct(p,x.d,x.s,x.k,(int)x.v.size()); return o+p; }
OP(csv){ Str o; for(int i=0;i<3;++i){ std::vector<Str> v; strtk::parse(x.s,x.d,v); o+=strtk::text::center(20,'.',x.s)+strtk::text::left_align(9,' ',T2S(i))+strtk::text::right_align(9,T2S(i)); } return o; }
OP(replaced){ Str o; strtk::replace_pattern(x.s,x.d,"<new>",o); Str p=x.s; strtk::replace('a','z',p); return o+p; }
OP(removed){ Str a=x.s,b=x.s,c=x.s; strtk::remove_consecutives_inplace(a); strtk::remove_trailing(x.d,b); strtk::remove_leading_trailing(x.d,c); Str d=x.s; strtk::remove_inplace(x.s.empty()?'a':x.s[0],d); return show(a)+show(b)+show(c)+show(d); }
OP(cased){ Str a=x.s,b=x.s; strtk::convert_to_uppercase(a); strtk::convert_to_lowercase(b); return a+b+strtk::as_uppercase(x.s)+strtk::as_lowercase(x.s); }
OP(matched){ return T2S(strtk::match("*a?*",x.s))+T2S(strtk::match(x.d+Str("*"),x.s))+T2S(strtk::imatch(x.s,strtk::as_uppercase(x.s)))+T2S(strtk::begins_with(x.d,x.s))+T2S(strtk::ends_with(x.d,x.s)); }
OP(codec){ Str h(x.s.size()*2,'\0'); if(x.s.empty()) return ""; const unsigned char* b=(const unsigned char*)x.s.data(); strtk::convert_bin_to_hex(b,b+x.s.size(),(unsigned char*)&h[0]); Str r(x.s.size(),'\0'); strtk::convert_hex_to_bin(h,r); Str e; strtk::convert_bin_to_base64(x.s,e); Str q; strtk::convert_base64_to_bin(e,q); return h+r+e+q; }
OP(bits){ Str o; if(!x.s.empty()){ o=T2S(strtk::high_bit_count(x.s)); size_t i=x.k%(8*x.s.size()); Str t=x.s; unsigned char* p=(unsigned char*)&t[0]; strtk::set_bit_high((int)i,p); o+=T2S(strtk::bit_state((int)i,p))+t; } return o; }
static Str grid_of(const strtk::token_grid& g){ Str o=T2S(g.row_count())+"x"+T2S(g.max_column_count()); for(size_t r=0;r<g.row_count();++r){ strtk::token_grid::row_type row=g.row(r); for(size_t c=0;c<row.size();++c) o+=show(row.get<Str>(c)); } return o; }
OP(grid){ strtk::token_grid g(x.s,x.s.size(),strtk::token_grid::options(strtk::split_options::compress_delimiters,strtk::split_options::default_mode,";",",|")); Str o=grid_of(g); g.enforce_column_count(g.max_column_count()); std::vector<Str> v; if(g.row_count()&&g.max_column_count()) g.extract_column(0,strtk::back_inserter_with_valuetype(v)); return o+all(v); }
OP(quoted_grid){ strtk::token_grid::options o; o.column_delimiters=","; o.row_delimiters=";"; o.support_dquotes=true; strtk::token_grid g(x.s,x.s.size(),o); return grid_of(g); }
OP(trie_){ strtk::trie::prefix<Str::const_iterator,int> t; std::vector<Str> w; strtk::parse(x.s,x.d,w); for(size_t i=0;i<w.size();++i) if(!w[i].empty()) t.insert(((const Str&)w[i]).begin(),((const Str&)w[i]).end(),(int)i); Str o; for(auto& s:w){ if(s.empty()) continue; int v=-1; o+=T2S(t.find(((const Str&)s).begin(),((const Str&)s).end(),v))+T2S(v); } return o; }
OP(bloom_){ strtk::bloom::parameters p; p.projected_element_count=100; p.false_positive_probability=0.01; p.random_seed=x.k|1; p.compute_optimal_parameters(); strtk::bloom::filter f(p); std::vector<Str> w; strtk::parse(x.s,x.d,w); for(size_t i=0;i<w.size();i+=2) f.insert(w[i]); Str o=T2S(f.element_count()); for(auto& s:w) o+=T2S(f.contains(s)); strtk::bloom::filter h(f); h|=f; return o+T2S(h==f); }
OP(hashed){ return T2S(strtk::hash(x.s))+T2S(strtk::hash(x.v))+T2S(strtk::hash(x.s,(unsigned)x.k|1u)); }
OP(records){ Str b(16+9*x.v.size()+2*x.s.size(),'\0'); strtk::binary::writer w(&b[0],b.size()); bool ok=w(x.s)&&w(x.k)&&w(x.v); strtk::binary::reader r(&b[0],b.size()); Str s; unsigned long long k=0; std::vector<int> v; ok=r(s)&&r(k)&&r(v)&&ok; return T2S(ok)+s+T2S(k)+all(v); }
OP(pairs){ strtk::keyvalue::options<unsigned char> o; o.pair_block_delimiter=';'; o.pair_delimiter='='; strtk::keyvalue::parser<strtk::keyvalue::stringkey_map> p(o); int i=-1; Str s; double d=-1; p.register_keyvalue("a",i); p.register_keyvalue("b",s); p.register_keyvalue("7",d); bool r=p(x.s,true); return T2S(r)+T2S(p.failure_count())+T2S(i)+s+T2S(d); }
OP(holders){ int i=3; Str s="q"; double d=1; std::vector<strtk::util::value> h; h.push_back(strtk::util::value(i)); h.push_back(strtk::util::value(s)); h.push_back(strtk::util::value(d)); Str o; for(auto& v:h){ o+=T2S(v(x.s)); Str t; v.to_string(t); o+=t; } return o+T2S(i)+s; }
OP(actions){ std::vector<Str> got; Words f={&got}; strtk::util::semantic_action_impl a=strtk::util::semantic_action(f); Str t; strtk::parse(x.s,x.d,a,t); return all(got); }
OP(attributes){ strtk::util::attribute<int> a; a=(int)x.k; a=(int)x.v.size(); Str s=x.s; { strtk::util::scoped_restore<Str> keep(s); s="changed"; } return T2S(a.changed())+T2S(a.previous())+s; }
OP(combos){ Str s="abcde",o; std::vector<int> v(x.v.begin(),x.v.begin()+std::min<size_t>(4,x.v.size())); std::sort(v.begin(),v.end()); if(!v.empty()) do o+=all(v); while(strtk::next_combination(v.begin(),v.begin()+v.size()/2,v.end())); std::vector<int> q; strtk::nth_combination_sequence(x.k%20,6,3,std::back_inserter(q)); return o+all(q)+T2S(strtk::n_choose_k(x.k%60,x.k/60%60)); }
struct Cmb { Str* o; template<class I> void operator()(I a,I b) const { *o+=show(Str(a,b)); } template<class I> void operator()(const std::pair<I,I>& r) const { *o+=show(Str(r.first,r.second)); } };
OP(each_combo){ Str s=x.s.substr(0,5),o; Cmb f={&o}; strtk::for_each_combination(s.begin(),s.end(),std::min<size_t>(2,s.size()),f); Str p=x.s.substr(0,4); strtk::for_each_permutation(p.begin(),p.end(),f); return o; }
OP(combo_iter){ Str s=x.s.substr(0,6),o; if(s.size()<2) return ""; strtk::combination_iterator<Str::iterator> i(2,s); for(size_t j=0;j+1<s.size();++j,++i) o+=show(Str((*i).first,(*i).second)); return o; }
OP(random_){ std::vector<unsigned char> b(20); strtk::generate_random_data(&b[0],b.size(),(unsigned)x.k+1); Str o((char*)&b[0],b.size()); std::vector<int> v; strtk::generate_random_values<int>(9,-50,50,v,(size_t)x.k+1); strtk::uniform_real_rng r((size_t)x.k+1); return o+all(v)+T2S(r()); }
OP(shuffled){ std::vector<int> v; for(int i=0;i<12;++i) v.push_back(i); std::vector<int> w; strtk::random_combination(v.begin(),v.end(),5,std::back_inserter(w),(size_t)x.k+1); return all(w); }
OP(files){ Str o,t=x.file+".t",u=x.file+".u"; o=T2S(strtk::fileio::write_file(t,x.s)); Str b; o+=T2S(strtk::fileio::load_file(t,b))+b; o+=T2S(strtk::fileio::copy_file(t,u))+T2S(strtk::fileio::files_identical(t,u))+T2S(strtk::fileio::file_size(u)); unlink(t.c_str()); unlink(u.c_str()); return o+T2S(strtk::fileio::file_exists(t)); }
OP(text_files){ Str t=x.file+".l",o; std::vector<int> v=x.v; strtk::write_to_text_file(t,v,"\n"); std::vector<int> w; strtk::load_from_text_file(t,w); Gather f={&o}; strtk::for_each_line(t,f); unlink(t.c_str()); return all(w)+o; }
OP(ext){ strtk::ext_string e(x.s); e-=strtk::ext_string::all_digits(); strtk::ext_string f=e*3; f<<"!"; return e.as_string()+f.as_string()+strtk::ext_string::all_letters().as_string(); }
struct One { bool operator()(char c) const { return c=='1'; } };
OP(consecutive){ std::vector<R> v; strtk::split_on_consecutive((size_t)2,One(),x.s.data(),x.s.data()+x.s.size(),std::back_inserter(v)); return ranges(v); }
OP(columns){ Str a,b; bool r=true; try { strtk::parse_columns(x.s,x.d,strtk::column_list(0,2),a,b); } catch(...){ r=false; } return T2S(r)+a+"|"+b; }
OP(conditions){ strtk::string_condition c(strtk::string_condition::like,"*a*"),d(strtk::string_condition::begins_with,x.d); strtk::string_condition e(c); return T2S(e(x.s))+T2S(d(x.s)); }
OP(filters){ Str o; Gather f={&o}; strtk::filter_on_wildcard_match<Gather> w("*1*",f); Str k[2]={"a","12"}; strtk::filter_on_match<Gather> m(k,k+2,f,true,false); std::vector<Str> v; strtk::parse(x.s,x.d,v); for(auto& s:v){ w(s); m(s); } return o; }
OP(names){ return strtk::type_name(x.k)+strtk::type_name(x.v)+strtk::type_name(std::make_pair(1,2.0))+strtk::information::data(); }
OP(streams){ std::istringstream i(x.s); Str o; Gather f={&o}; size_t n=strtk::for_each_line_n(i,x.k%4,f); return o+T2S(n); }
OP(lines){ Str t=x.file+".p"; { std::ofstream f(t.c_str()); f<<x.s<<"\n"; } std::ifstream i(t.c_str()); std::vector<Str> v; strtk::parse_line(i,x.d,v); unlink(t.c_str()); return all(v); }
OP(cuts){ Str s=x.s; strtk::reverse(s); unsigned char u[8]; strtk::clear_array(u,(unsigned char)'x'); return s+strtk::make_string(u)+strtk::make_string(u,9); }
OP(tables){ strtk::translation_table t("abc123","xyz789"); Str o(x.s); for(char& c:o) c=t(c); return o; }
OP(like_){ Str t; bool r=strtk::parse(x.s,x.d,strtk::like("*1*").ref()); return T2S(r); }
OP(ranges_){ Str s=x.s; strtk::range::string r(s.data(),s.data()+s.size()); std::vector<Str> v; strtk::split(x.d,r,strtk::range_to_type_back_inserter(v)); return all(v); }
OP(clocks){ strtk::util::timer t; t.start(); t.stop(); return T2S(t.time()>=0); }
#undef OP
struct Named { const char* name; Op op; };
#define OPS_LIST \
O(split_),O(split_text),O(split_n_),O(tokenize),O(each_token),O(regex_),O(offsets),O(parse_typed),O(parse_vector),O(parse_words),O(parse_mixed),O(parse_sinks),O(parse_ignore),O(parse_adapters),O(parse_trim),O(array_),O(numbers),O(reals),O(hexnum),O(fast_),O(joined),O(built),O(csv),O(replaced),O(removed),O(cased),O(matched),O(codec),O(bits),O(grid),O(quoted_grid),O(trie_),O(bloom_),O(hashed),O(records),O(pairs),O(holders),O(actions),O(attributes),O(combos),O(each_combo),O(combo_iter),O(random_),O(shuffled),O(files),O(text_files),O(ext),O(consecutive),O(columns),O(conditions),O(filters),O(names),O(streams),O(lines),O(cuts),O(tables),O(like_),O(ranges_)
static In gen_in(pbt::G& g){ In x; x.d=g.pick<const char*>({",",";","|",",;","-"}); size_t n=g.len(10); char c=x.d[0]; for(size_t i=0;i<n;++i){ if(i) x.s+=g.chance(1,8)?Str(2,c):Str(1,c); switch(g.below(6)){ case 0: x.s+=std::to_string(g.range(-999,999)); break; case 1: x.s+=std::to_string(g.below(100))+"."+std::to_string(g.below(100)); break; case 2: x.s+=g.fixed("ab12",1+g.below(4)); break; case 3: x.s+=Str(g.flip()?"a":"b")+"="+std::to_string(g.below(50)); break; case 4: x.s+=g.text("abcA1 =;,|\n",9); break; default: x.s+=std::to_string(g.below(9)); } }
  size_t m=g.below(8); for(size_t i=0;i<m;++i) x.v.push_back((int)g.range(-300,300)); x.k=g.below(100000); return x; }
}
#endif
