#include "gridmodel.hpp"
namespace pbt { const char* const property_id="G02";
const char* const rule_text="A generated ragged grid (numbers, words, empty tokens; compressing and plain column splits) and a history of up to eight edits - remove a row, rows or tokens by predicate over all rows or a row range, empty tokens, enforce column counts, reload, clear - followed after every edit by a complete observation and by queries: row ranges, traversals, joins with and without predicate, accumulations, sequential partitions. Predicates decide by a generated table and record what they were shown. Oracle: the same edits and queries on a list-of-lists table. Non-trivial: at least two rows and one edit or query that selects some but not all. Distinct by text, edits and query arguments."; }
using namespace model; using pbt::G;
typedef std::string Str;
// Decisions come from a generated bit list by call number; what was shown is recorded.
struct Seen { std::vector<char> bits; Table rows; Row toks; std::vector<size_t> idx; size_t n; Seen():n(0){} bool next(){ bool b=bits.empty()?false:bits[n%bits.size()]!=0; ++n; return b; } };
struct RowPred { Seen* s; bool operator()(const Grid::row_type& r) const { Row k; for(size_t i=0;i<r.size();++i) k.push_back(str(r.token(i))); s->rows.push_back(k); s->idx.push_back(r.index()); return s->next(); } };
struct TokPred { Seen* s; bool operator()(const Grid::range_t& r) const { s->toks.push_back(str(r)); return s->next(); } };
static std::vector<char> bits(G& g){ std::vector<char> b(1+g.below(9)); unsigned w=1+(unsigned)g.below(4); for(auto& x:b) x=g.chance(1,w); return b; }
static void keep_all(G& g,const Seen& s){ bool y=false,n=false; for(size_t i=0;i<s.n;++i) (s.bits[i%s.bits.size()]?y:n)=true; if(y&&n) g.nt(); }
struct Sub { size_t a,b; bool all,valid; Grid::row_range_t rr; };
static Sub sub(G& g,Grid& p,const Table& t){
  Sub s; s.all=g.chance(1,3); size_t n=t.size(); s.a=s.all?0:g.below(n+1); s.b=s.all?n:s.a+g.below(n-s.a+1); if(!s.all&&g.chance(1,10)){ s.a=g.below(n+3); s.b=g.below(n+3); }
  s.valid=s.a<=s.b&&s.b<=n; s.rr=Grid::row_range_t((unsigned)s.a,(unsigned)s.b);
  if(!s.all){ g.show("rows",std::make_pair(s.a,s.b)); if(g.flip()){ if(s.b==n&&g.flip()){ s.rr=p.range((unsigned)s.a); if(s.valid) CHECK(s.rr==Grid::row_range_t((unsigned)s.a,(unsigned)n),"open row range"); } else { s.rr=p.range((unsigned)s.a,(unsigned)s.b); if(s.valid) CHECK(s.rr==Grid::row_range_t((unsigned)s.a,(unsigned)s.b),"row range"); } } }
  return s;
}
static Table part(const Table& t,size_t a,size_t b){ return Table(t.begin()+a,t.begin()+b); }
static GridCfg cfg(G& g){ GridCfg c; c.mode=g.flip()?PLAIN:COMPRESS; c.cd=g.pick<const char*>({",",",;","|"," ,"}); c.rd="\n"; return c; }
static Str text(G& g,const GridCfg& c,bool nums=false){ size_t n=g.len(8),many=cycle(g,n); Str s; for(size_t i=0;i<n;++i){ size_t m=g.len(6),wide=cycle(g,m),at=s.size(); for(size_t j=0;j<m;++j){ if(j) s+=c.cd[g.below(c.cd.size())]; if(nums){ if(g.chance(1,25)) s+=g.pick<const char*>({"x","","1x"}); else s+=std::to_string(g.range(-1000,1000)); } else if(!g.chance(1,4)) s+=g.text("abc12",4); } if(wide) repeat(s,at,c.cd.substr(0,1),wide); s+='\n'; } if(many) repeat(s,0,"",many); return s; }

static Str ref_join(const Row& r,const std::vector<char>* sel,const Str& d){ Str s; bool first=true; size_t k=0; for(auto& x:r){ if(x.empty()) continue; if(sel&&!(*sel)[k++%sel->size()]) continue; if(!first) s+=d; s+=x; first=false; } return s; }
// Queries leave the grid alone.
static void query(G& g,Grid& p,const Table& t){
  unsigned q=(unsigned)g.below(9); g.show("query",q); g.label("query"+std::to_string(q)); size_t mc=max_cols(t);
  switch(q){
    case 0: { Sub s=sub(g,p,t); std::vector<size_t> ix; Table seen; RowSink k={&ix,&seen}; size_t n=s.all?p.for_each_row(k):p.for_each_row(s.rr,k); Table w; if(s.valid) w=part(t,s.a,s.b); CHECK_EQ(n,w.size(),"rows visited"); CHECK(seen==w,"rows of the range in order"); for(size_t i=0;i<ix.size();++i) CHECK_EQ(ix[i],s.a+i,"row index"); if(w.size()&&w.size()<t.size()) g.nt(); break; }
    case 1: { size_t i=g.below(t.size()+2); Str d=g.pick<const char*>({",","","--"}),o=g.flip()?"":"pre"; Str w=o; g.show("row",i); bool ok=i<t.size(); if(ok) w+=ref_join(t[i],0,d); Str r=o; CHECK_EQ(p.join_row(i,d,r),ok,"join_row"); CHECK_EQ(r,w,"joined row "<<i); g.nt(t.size()>1&&ok&&t[i].size()>1); break; }
    case 2: { size_t i=g.below(t.size()+2); Str d=g.pick<const char*>({",","","--"}),o; Seen sn; sn.bits=bits(g); g.show("row",i); g.show("bits",std::vector<int>(sn.bits.begin(),sn.bits.end())); bool ok=i<t.size(); TokPred k={&sn}; bool r=g.flip()?p.join_row(i,k,d,o):p.join_row(i,k,d.c_str(),o); CHECK_EQ(r,ok,"join_row by predicate"); if(ok){ Row ne; for(auto& x:t[i]) if(!x.empty()) ne.push_back(x); CHECK_EQ(show_row(sn.toks),show_row(ne),"tokens shown"); CHECK_EQ(o,ref_join(t[i],&sn.bits,d),"joined row "<<i); keep_all(g,sn); } break; }
    case 3: { Sub s=sub(g,p,t); size_t c=g.below(mc+1); Str d=g.pick<const char*>({",","","--"}),o=g.flip()?"":"pre",w=o; g.show("col",c); bool ok=s.valid&&c<mc; Row col; if(ok) for(size_t i=s.a;i<s.b;++i) if(c<t[i].size()) col.push_back(t[i][c]); if(ok) w+=ref_join(col,0,d); CHECK_EQ(s.all?p.join_column(c,d,o):p.join_column(c,s.rr,d,o),ok,"join_column"); CHECK_EQ(o,w,"joined column "<<c); g.nt(col.size()>1); break; }
    case 4: { Sub s=sub(g,p,t); size_t c=g.below(mc+1); Str d=g.pick<const char*>({",","","--"}),o,w; Seen sn; sn.bits=bits(g); RowPred k={&sn}; g.show("col",c); g.show("bits",std::vector<int>(sn.bits.begin(),sn.bits.end())); bool ok=s.valid&&c<mc; Row col; Table shown; if(ok) for(size_t i=s.a;i<s.b;++i) if(c<t[i].size()&&!t[i][c].empty()){ col.push_back(t[i][c]); shown.push_back(t[i]); } w=ref_join(col,&sn.bits,d); CHECK_EQ(s.all?p.join_column(c,k,d,o):p.join_column(c,s.rr,k,d,o),ok,"join_column by predicate"); CHECK(sn.rows==shown,"rows shown"); CHECK_EQ(o,w,"joined column "<<c); keep_all(g,sn); break; }
    case 5: { // partitions: a new one starts at every row (but the first) for which the predicate holds
      Sub s=sub(g,p,t); Seen sn; sn.bits=bits(g); g.show("bits",std::vector<int>(sn.bits.begin(),sn.bits.end())); RowPred k={&sn}; size_t stop=g.chance(1,4)?g.below(4):99; g.show("stop",stop);
      typedef std::vector<std::pair<size_t,size_t> > Parts; Parts w; if(s.valid){ size_t from=s.a; for(size_t i=s.a;i<s.b;++i){ bool b=sn.bits[(i-s.a)%sn.bits.size()]!=0; if(b&&i!=from){ w.push_back(std::make_pair(from,i)); from=i; } } if(from!=s.b) w.push_back(std::make_pair(from,s.b)); }
      Parts got; struct F { Parts* g; size_t stop; const Grid* p; bool operator()(const Grid& q,const Grid::row_range_t& r) const { CHECK(&q==p,"the grid itself"); g->push_back(std::make_pair((size_t)r.first,(size_t)r.second)); return g->size()<=stop; } }; F f={&got,stop,&p};
      bool r=s.all?p.sequential_partition(k,f):p.sequential_partition(s.rr,k,f); bool cut=w.size()>stop; if(cut) w.resize(stop+1); CHECK_EQ(r,s.valid&&!cut,"sequential_partition"); CHECK(got==w,"partitions: "<<pbt::S(got)<<", expected "<<pbt::S(w)); if(s.valid&&!cut) CHECK(sn.rows==part(t,s.a,s.b),"rows shown"); g.nt(w.size()>1); break; }
    case 6: { size_t i=g.below(t.size()+2); long long w=5,r=5; size_t n=0; bool ok=i<t.size(); g.show("row",i); if(ok) for(auto& x:t[i]){ int v; if(int_field(x,v)){ w+=v; ++n; } else { ok=false; break; } } size_t k; if(g.flip()) k=p.accumulate_row(i,r); else { double d=5; k=p.accumulate_row(i,d); r=(long long)d; } CHECK_EQ(k,ok?n:0,"tokens accumulated"); if(ok) CHECK_EQ(r,w,"sum of row "<<i); g.nt(ok&&n>1); break; }
    case 7: { Sub s=sub(g,p,t); size_t c=g.below(mc+1),n=0; long long w=5,r=5; bool ok=s.valid&&c<mc; g.show("col",c); if(ok) for(size_t i=s.a;i<s.b&&ok;++i) if(c<t[i].size()){ int v; if(int_field(t[i][c],v)){ w+=v; ++n; } else ok=false; } size_t k=s.all?p.accumulate_column(c,r):p.accumulate_column(c,s.rr,r); CHECK_EQ(k,ok?n:0,"tokens accumulated"); if(ok) CHECK_EQ(r,w,"sum of column "<<c); g.nt(ok&&n>1); break; }
    default: { Sub s=sub(g,p,t); Seen sn; sn.bits=bits(g); RowPred k={&sn}; size_t c=g.below(mc+1),n=0,m=0; long long w=5,r=5; bool ok=s.valid&&c<mc; g.show("col",c); g.show("bits",std::vector<int>(sn.bits.begin(),sn.bits.end())); if(ok) for(size_t i=s.a;i<s.b&&ok;++i) if(c<t[i].size()){ if(!sn.bits[m++%sn.bits.size()]) continue; int v; if(int_field(t[i][c],v)){ w+=v; ++n; } else ok=false; } size_t z=s.all?p.accumulate_column(c,k,r):p.accumulate_column(c,s.rr,k,r); CHECK_EQ(z,ok?n:0,"tokens accumulated"); if(ok) CHECK_EQ(r,w,"selected sum of column "<<c); keep_all(g,sn); }
  }
}
// One edit on both.
static void edit(G& g,Grid& p,Table& t,std::vector<std::unique_ptr<Exact> >& keep){
  unsigned e=(unsigned)g.below(10); g.show("edit",e); g.label("edit"+std::to_string(e));
  switch(e){
    case 0: { size_t i=g.below(t.size()+2); g.show("row",i); p.remove_row(i); if(i<t.size()) t.erase(t.begin()+i); break; }
    case 1: case 2: { Sub s=sub(g,p,t); Seen sn; sn.bits=bits(g); g.show("bits",std::vector<int>(sn.bits.begin(),sn.bits.end())); RowPred k={&sn}; bool r=s.all?p.remove_row_if(k):p.remove_row_if(s.rr,k); CHECK_EQ(r,s.valid,"remove_row_if"); if(!s.valid){ CHECK_EQ(sn.n,0u,"nothing shown"); break; } CHECK(sn.rows==part(t,s.a,s.b),"rows shown to the predicate"); Table n; for(size_t i=0;i<t.size();++i) if(i<s.a||i>=s.b||!sn.bits[(i-s.a)%sn.bits.size()]) n.push_back(t[i]); t=n; keep_all(g,sn); break; }
    case 3: case 4: { Sub s=sub(g,p,t); if(s.all){ s.rr=p.all_rows(); } Seen sn; sn.bits=bits(g); g.show("bits",std::vector<int>(sn.bits.begin(),sn.bits.end())); TokPred k={&sn}; size_t r=p.remove_token_if(s.rr,k),w=0,m=0; Row shown; if(s.valid){ Table n; for(size_t i=0;i<t.size();++i){ if(i<s.a||i>=s.b){ n.push_back(t[i]); continue; } Row x; for(auto& y:t[i]){ shown.push_back(y); if(sn.bits[m++%sn.bits.size()]) ++w; else x.push_back(y); } if(!x.empty()) n.push_back(x); } t=n; } CHECK_EQ(show_row(sn.toks),show_row(shown),"tokens shown"); CHECK_EQ(r,w,"tokens removed"); keep_all(g,sn); break; }
    case 5: { Sub s=sub(g,p,t); size_t r=s.all?p.remove_empty_tokens():p.remove_empty_tokens(s.rr),w=0; if(s.valid){ Table n; for(size_t i=0;i<t.size();++i){ if(i<s.a||i>=s.b){ n.push_back(t[i]); continue; } Row x; for(auto& y:t[i]) if(y.empty()) ++w; else x.push_back(y); if(!x.empty()) n.push_back(x); } t=n; } CHECK_EQ(r,w,"empty tokens removed"); g.nt(w>0&&t.size()>1); break; }
    case 6: case 7: { Sub s=sub(g,p,t); size_t lo=g.below(max_cols(t)+2),hi=e==6?lo:lo+g.below(4); g.show("lo",lo); g.show("hi",hi); if(e==6){ if(s.all) p.enforce_column_count(lo); else p.enforce_column_count(s.rr,lo); } else { if(s.all) p.enforce_min_max_column_count(lo,hi); else p.enforce_min_max_column_count(s.rr,lo,hi); } if(s.valid){ Table n; for(size_t i=0;i<t.size();++i) if(i<s.a||i>=s.b||(t[i].size()>=lo&&t[i].size()<=hi)) n.push_back(t[i]); g.nt(!n.empty()&&n.size()<t.size()); t=n; } break; }
    case 8: { if(g.flip()){ p.clear(); t.clear(); break; } }
    default: { GridCfg c=cfg(g); Str s=text(g,c); g.show("reload",s); keep.push_back(std::unique_ptr<Exact>(new Exact(s))); CHECK(p.load((unsigned char*)keep.back()->p,s.size(),c.opt()),"reload"); t=table_of(s,c); }
  }
}
static void history(G& g,size_t maxops){
  std::vector<std::unique_ptr<Exact> > keep; GridCfg c=cfg(g); bool nums=g.chance(1,3); Str s=text(g,c,nums); g.show("text",s); g.show("cd",c.cd); g.show("mode",(int)c.mode); keep.push_back(std::unique_ptr<Exact>(new Exact(s)));
  Grid p(keep[0]->b(),keep[0]->n,c.opt()); Table t=table_of(s,c); CHECK(dump(p)==t,"loaded"); size_t n=g.len(maxops);
  for(size_t i=0;i<n;++i){ edit(g,p,t,keep); observe(p,t,"after an edit"); if(g.flip()) query(g,p,t); }
  query(g,p,t); CHECK(dump(p)==t,"a query leaves the grid alone");
}
FACET(one_edit,3000){ history(g,1); }
FACET(history,3000){ history(g,8); }
FACET(queries,3000){
  GridCfg c=cfg(g); bool nums=g.flip(); Str s=text(g,c,nums); g.show("text",s); g.show("cd",c.cd); g.show("mode",(int)c.mode); Exact x(s); Grid p(x.b(),x.n,c.opt()); Table t=table_of(s,c); query(g,p,t); CHECK(dump(p)==t,"unchanged");
}
// Edits of a grid of many rows.
FACET(many_rows,60){
  GridCfg c; c.mode=PLAIN; size_t n=50+g.below(600); Str s; for(size_t i=0;i<n;++i){ size_t m=1+g.below(5); for(size_t j=0;j<m;++j){ if(j) s+=','; s+=std::to_string(i*10+j); } s+='\n'; } std::vector<std::unique_ptr<Exact> > keep; keep.push_back(std::unique_ptr<Exact>(new Exact(s))); Grid p(keep[0]->b(),keep[0]->n,c.opt()); Table t=table_of(s,c); g.show("rows",n);
  size_t k=1+g.below(3); for(size_t i=0;i<k;++i){ edit(g,p,t,keep); CHECK(dump(p)==t,"after an edit"); CHECK_EQ(p.max_column_count(),max_cols(t),"max columns"); CHECK_EQ(p.min_column_count(),min_cols(t),"min columns"); }
  query(g,p,t);
}
LARGE1(one_edit,12,70000) LARGE1(queries,12,70000) LARGE1(history,5,400)
