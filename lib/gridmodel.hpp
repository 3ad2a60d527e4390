// A plain list-of-lists table for strtk::token_grid and its complete observation.
#ifndef GRIDMODEL_HPP
#define GRIDMODEL_HPP
#include "fields.hpp"
#include "strtk.hpp"
#include <unistd.h>
#include <fstream>
#include <list>
#include <deque>
#include <set>
#include <queue>
#include <stack>
#include <memory>
namespace model {
typedef strtk::token_grid Grid;
typedef std::vector<std::string> Row;
typedef std::vector<Row> Table;
struct GridCfg { std::string rd,cd; Mode mode; bool alt,dq,trim,row_opt;
  GridCfg():rd("\n\r"),cd(","),mode(COMPRESS),alt(false),dq(false),trim(false),row_opt(false){}
  Grid::options opt() const { Grid::options o((strtk::split_options::type)1,(strtk::split_options::type)opt_of(mode,alt),rd,cd,dq,trim); return o; } };
// The rows are the non-empty pieces between runs of row delimiters; the tokens of
// a row are its split at column delimiters, those between quotes not counted.
inline Table table_of(const std::string& text,const GridCfg& c){
  Table t; Set256 rd(c.rd),cd(c.cd);
  for(auto& line:pieces(text,split(text,rd,COMPRESS))){
    if(line.empty()) continue;
    std::vector<char> isd(line.size()); bool q=false;
    for(size_t i=0;i<line.size();++i){ if(c.dq&&line[i]=='"'){ q=!q; isd[i]=0; } else isd[i]=!(c.dq&&q)&&cd(line[i]); }
    Row r=pieces(line,split(line.size(),[&](size_t i){ return isd[i]!=0; },c.mode));
    if(c.dq&&c.trim) for(auto& k:r) if(k.size()>1&&k[0]=='"'&&k[k.size()-1]=='"') k=k.substr(1,k.size()-2);
    t.push_back(r);
  }
  return t;
}
inline std::string str(const Grid::range_t& r){ return r.first?std::string((const char*)r.first,(const char*)r.second):std::string(); }
inline bool null_token(const Grid::range_t& r){ return r.first==0&&r.second==0; }
inline size_t min_cols(const Table& t){ size_t m=t.empty()?0:~size_t(0); for(auto& r:t) m=std::min(m,r.size()); return m; }
inline size_t max_cols(const Table& t){ size_t m=0; for(auto& r:t) m=std::max(m,r.size()); return m; }
inline std::string show_row(const Row& r){ std::string s="["; for(auto& k:r) s+=pbt::quote(k)+" "; return s+"]"; }
struct RowSink { std::vector<size_t>* idx; Table* t; void operator()(const Grid::row_type& r){ idx->push_back(r.index()); Row k; for(size_t i=0;i<r.size();++i) k.push_back(str(r.token(i))); t->push_back(k); } };
struct TokSink { Row* r; void operator()(const Grid::range_t& x){ r->push_back(str(x)); } };
inline Table dump(const Grid& g){ Table t; for(size_t i=0;i<g.row_count();++i){ Grid::row_type r=g.row(i); Row k; for(size_t j=0;j<r.size();++j) k.push_back(str(r.token(j))); t.push_back(k); } return t; }
// Everything the untyped accessors report, against the table.
inline void observe(Grid& g,const Table& t,const char* when){
  CHECK_EQ(g.row_count(),t.size(),when<<": row count"); CHECK_EQ(g.min_column_count(),min_cols(t),when<<": min columns"); CHECK_EQ(g.max_column_count(),max_cols(t),when<<": max columns");
  size_t mc=max_cols(t);
  for(size_t i=0;i<t.size();++i){
    const Row& w=t[i]; Grid::row_type r=g.row(i); CHECK_EQ(r.size(),w.size(),when<<": size of row "<<i); CHECK_EQ(r.index(),i,when<<": row index");
    std::string all; size_t raw=0; Row seen; TokSink s={&seen};
    for(size_t j=0;j<w.size();++j){
      CHECK_EQ(str(g.token(i,j)),w[j],when<<": token("<<i<<","<<j<<")"); CHECK_EQ(str(r.token(j)),w[j],when<<": row token "<<i<<","<<j); CHECK_EQ(r.get<std::string>(j),w[j],when<<": row get"); CHECK_EQ(r.operator[]<std::string>(j),w[j],when<<": row []"); CHECK_EQ(g.get<std::string>(i,j),w[j],when<<": get");
      CHECK_EQ(r.raw_length(j),w[j].size(),when<<": raw length of a token"); CHECK_EQ(r.is_null(j),w[j].empty(),when<<": is_null"); raw+=w[j].size(); all+=w[j];
    }
    CHECK_EQ(r.raw_length(),raw,when<<": raw length of row "<<i); CHECK_EQ(r.as_string(),all,when<<": as_string"); std::string out="old"; r.as_string(out); CHECK_EQ(out,all,when<<": as_string(out)");
    CHECK(r.range().first==r.token(0).first&&r.range().second==r.token(w.size()-1).second,when<<": row range");
    CHECK_EQ(r.for_each_column(s),w.size(),when<<": columns visited"); CHECK_EQ(show_row(seen),show_row(w),when<<": visited tokens of row "<<i);
    CHECK(r.all_columns()==Grid::col_range_t(0,(unsigned)w.size()),when<<": all_columns");
    for(size_t j=w.size();j<w.size()+3;++j) CHECK(null_token(g.token(i,j)),when<<": token beyond row "<<i);
  }
  for(size_t i=t.size();i<t.size()+3;++i) for(size_t j=0;j<2;++j) CHECK(null_token(g.token(i,j)),when<<": token beyond the last row");
  CHECK(null_token(g.token(~size_t(0),0))&&null_token(g.token(0,~size_t(0))),when<<": token far out");
  std::vector<size_t> idx; Table seen; RowSink rs={&idx,&seen}; CHECK_EQ(g.for_each_row(rs),t.size(),when<<": rows visited"); CHECK(seen==t,when<<": for_each_row visits the rows in order"); for(size_t i=0;i<idx.size();++i) CHECK_EQ(idx[i],i,when<<": visited index");
  CHECK(g.all_rows()==Grid::row_range_t(0,(unsigned)t.size()),when<<": all_rows");
  std::vector<size_t> widths; for(size_t c=0;c<mc;++c){ size_t m=0; Row col; for(auto& r:t) if(c<r.size()){ m=std::max(m,r[c].size()); col.push_back(r[c]); } widths.push_back(m); CHECK_EQ(g.column_width(c),m,when<<": width of column "<<c); Row got; CHECK(g.extract_column(c,strtk::back_inserter_with_valuetype(got)),when<<": extract_column"); CHECK_EQ(show_row(got),show_row(col),when<<": column "<<c); }
  std::vector<size_t> w1; g.get_column_widths(w1); CHECK(w1==widths,when<<": column widths"); std::deque<std::pair<size_t,size_t> > w2; g.get_column_widths(w2); CHECK_EQ(w2.size(),widths.size(),when<<": indexed widths"); for(size_t c=0;c<w2.size();++c) CHECK(w2[c].first==c&&w2[c].second==widths[c],when<<": indexed width "<<c);
  Row none; CHECK(!g.extract_column(mc,strtk::back_inserter_with_valuetype(none))&&none.empty(),when<<": column past the last one"); CHECK_EQ(g.column_width(mc),0u,when<<": width past the last column");
}
// Many rows (or columns) repeat a few: the count n becomes a small one and how often it is repeated.
inline size_t cycle(pbt::G& g,size_t& n){ if(n<=1500) return 0; size_t many=n; n=1+g.below(6); return many/n; }
inline void repeat(std::string& s,size_t at,const std::string& between,size_t many){ const std::string unit=between+s.substr(at); for(size_t i=1;i<many;++i) s+=unit; }
inline std::string grid_text(pbt::G& g,const GridCfg& c,size_t maxrows,bool quotes){
  size_t n=g.len(maxrows),many=cycle(g,n); std::string s; std::string alpha=quotes?std::string("ab\"\"1 "):std::string("abc019- .\x80"); if(g.chance(1,8)) s+=c.rd[g.below(c.rd.size())];
  for(size_t i=0;i<n;++i){
    if(i) do s+=c.rd[g.below(c.rd.size())]; while(g.chance(1,5));
    size_t m=g.len(6),wide=cycle(g,m),at=s.size(); for(size_t j=0;j<m;++j){ if(j&&!c.cd.empty()) do s+=c.cd[g.below(c.cd.size())]; while(g.chance(1,5)); if(quotes&&g.chance(1,3)){ s+='"'; s+=g.text("ab"+c.cd,5); s+='"'; } else s+=g.text(alpha,6); }
    if(wide&&!c.cd.empty()) repeat(s,at,c.cd.substr(0,1),wide);
    if(!c.cd.empty()&&g.chance(1,8)) s+=c.cd[g.below(c.cd.size())];
  }
  if(many) repeat(s,0,c.rd.substr(0,1),many);
  if(g.chance(1,2)) s+=c.rd[g.below(c.rd.size())];
  return s;
}
inline GridCfg grid_cfg(pbt::G& g){ GridCfg c; c.rd=g.pick<const char*>({"\n\r","\n","\n\r","#","\r"}); c.cd=field_delims(g); if(g.chance(1,30)) c.cd.clear(); c.mode=g.chance(1,3)?g.pick<Mode>({PLAIN,FIRST,FIRST_COMPRESS,ALL}):COMPRESS; c.alt=g.flip(); c.dq=g.chance(1,3); c.trim=g.chance(2,3); return c; }
}
#endif
