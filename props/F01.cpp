#include "models.hpp"
#include "strtk.hpp"
#include "faults.hpp"
#include <cstdio>
#include <unistd.h>
#include <sys/stat.h>
namespace pbt { const char* const property_id="F01";
const char* const rule_text="File contents of 0..80k bytes (sometimes one megabyte), sizes concentrated on 0, 1 and multiples of the 16k copy block plus or minus a few bytes, all byte values with runs of zeros, carriage returns and newlines; destinations absent, shorter or longer beforehand; for comparison pairs equal, equal but for one byte anywhere (first, last, around a block edge), or one a prefix of the other; missing sources and full devices. Oracle: plain stdio reads of the files. Non-trivial: a content of more than one block, or two contents that differ, or a failing call. Distinct by contents and form."; }
using namespace model; using pbt::G; namespace fio=strtk::fileio;
typedef unsigned long long ull;
static const size_t block=16384;
static std::string path(const char* n){ return pbt::scratch(n); }
static void put(const std::string& f,const std::string& c){ FILE* o=fopen(f.c_str(),"wb"); CHECK(o!=0,"scratch file"); if(!c.empty()) fwrite(c.data(),1,c.size(),o); fclose(o); }
static bool get(const std::string& f,std::string& c){ c.clear(); FILE* i=fopen(f.c_str(),"rb"); if(!i) return false; char b[65536]; size_t n; while((n=fread(b,1,sizeof b,i))>0) c.append(b,n); fclose(i); return true; }
struct Gone { std::string f; explicit Gone(const char* n):f(path(n)){ unlink(f.c_str()); } ~Gone(){ unlink(f.c_str()); } operator const std::string&() const { return f; } };
static size_t gen_size(G& g){
  switch(g.below(8)){
    case 0: return g.below(4); case 1: return g.below(300); case 2: return g.below(5*block);
    case 3: return g.chance(1,12)?(size_t)(1<<20)+g.below(9):block*2;
    default: { size_t k=1+g.below(4); size_t n=k*block; switch(g.below(5)){ case 0: return n; case 1: return n-1; case 2: return n+1; case 3: return n-g.below(9); default: return n+g.below(9); } }
  }
}
static std::string gen_content(G& g,size_t n){
  std::string s(n,'\0'); ull x=g.any64()|1; unsigned kind=(unsigned)g.below(4); static const char specials[]="\r\n\0\x1a\xff ab";
  for(size_t i=0;i<n;++i){ x^=x<<13; x^=x>>7; x^=x<<17; s[i]=kind==0?char(x>>56):kind==1?specials[(x>>56)%8]:kind==2?char('a'+i%23):char(i/64==(x&0xff)?0:(x>>40)); }
  return s;
}
static std::string gen_file(G& g){ return gen_content(g,gen_size(g)); }
static ull sum(const std::string& s){ ull h=1469598103934665603ull; for(unsigned char c:s){ h^=c; h*=1099511628211ull; } return h; }
static void show(G& g,const char* n,const std::string& s){ if(s.size()<=40) g.show(n,s); else { g.show((std::string(n)+" size").c_str(),s.size()); g.show((std::string(n)+" hash").c_str(),sum(s)); } }
static void expect_file(const std::string& f,const std::string& want,const char* what){
  std::string c; CHECK(get(f,c),what<<": no file"); CHECK_EQ(c.size(),want.size(),what<<": size");
  size_t i=0; while(i<c.size()&&c[i]==want[i]) ++i; CHECK(i==c.size(),what<<": byte "<<i<<" of "<<c.size()<<" is "<<(int)(unsigned char)c[i]<<" instead of "<<(int)(unsigned char)want[i]);
}
// what the destination held before: nothing, something shorter, something longer
static void before(G& g,const std::string& f,size_t n){ switch(g.below(3)){ case 0: g.label("new"); return; case 1: put(f,gen_content(g,g.below(n+1))); g.label("over shorter"); return; default: put(f,gen_content(g,n+1+g.below(100))); g.label("over longer"); } }

FACET(store_and_load,500){
  std::string c=gen_file(g); show(g,"content",c); unsigned form=(unsigned)g.below(2); g.show("form",form); g.nt(c.size()>block);
  Gone a("a"); before(g,a,c.size()); Exact e(c);
  CHECK(form?fio::write_file(a,e.p,e.n):fio::write_file(a,c),"write_file"); expect_file(a,c,"the written file");
  CHECK(fio::file_exists(a),"file_exists"); CHECK_EQ(fio::file_size(a),c.size(),"file_size");
  std::string l=g.chance(1,3)?gen_content(g,g.below(3*block)):std::string("old"); CHECK(fio::load_file(a,l),"load_file"); CHECK(l==c,"the loaded text differs (size "<<l.size()<<")");
  size_t n=g.chance(1,2)?c.size():g.below(c.size()+1); std::string b(n+16,'\x5a'); CHECK(fio::load_file(a,&b[0],n),"load_file into a buffer"); CHECK(b.compare(0,n,c,0,n)==0,"the loaded bytes differ"); CHECK(b.substr(n)==std::string(16,'\x5a'),"bytes after the buffer were written");
  // a shorter text replaces the whole file
  std::string d=gen_content(g,g.below(c.size()+1)); CHECK(fio::write_file(a,d),"second write_file"); expect_file(a,d,"the rewritten file"); CHECK_EQ(fio::file_size(a),d.size(),"file_size after rewriting");
}
FACET(copy,500){
  std::string c=gen_file(g); show(g,"content",c); g.nt(c.size()>block); Gone a("a"),b("b"); put(a,c); before(g,b,c.size());
  CHECK(fio::copy_file(a,b),"copy_file"); expect_file(b,c,"the copy"); expect_file(a,c,"the source"); CHECK(fio::files_identical(a,b),"a copy is identical"); CHECK_EQ(fio::file_size(b),c.size(),"size of the copy");
}
FACET(concatenation,500){
  std::string c=gen_file(g),d=gen_file(g); bool twice=g.chance(1,6); if(twice) d=c; show(g,"first",c); show(g,"second",d); g.nt(c.size()>block||d.size()>block);
  Gone a("a"),b("b"),o("o"); put(a,c); put(b,d); before(g,o,c.size()+d.size());
  CHECK(fio::concatenate(a,twice?(const std::string&)a:(const std::string&)b,o),"concatenate"); expect_file(o,c+d,"the concatenation"); expect_file(a,c,"the first source"); expect_file(b,d,"the second source");
}
FACET(comparison,600){
  std::string c=gen_file(g),d=c; const char* how="equal";
  if(!c.empty()) switch(g.below(4)){
    case 0: break;
    case 1: case 2: { size_t i=0; switch(g.below(4)){ case 0: i=g.below(c.size()); break; case 1: i=c.size()-1-(c.size()>1?g.below(2):0); break; case 2: i=std::min(c.size()-1,block*(1+g.below(4))-g.below(2)); break; default: i=g.below(std::min<size_t>(c.size(),3)); } d[i]=char(d[i]^(1<<g.below(8))); how="one byte"; g.show("differs at",i); break; }
    default: d.resize(c.size()-1-(g.flip()?g.below(c.size()):0)); if(g.flip()) std::swap(c,d); how="prefix"; g.show("other size",d.size());
  }
  show(g,"content",c); g.label(how); g.nt(c!=d||c.size()>block); Gone a("a"),b("b"); put(a,c); put(b,d);
  CHECK_EQ(fio::files_identical(a,b),c==d,"files_identical"); CHECK_EQ(fio::files_identical(b,a),c==d,"files_identical the other way"); CHECK(fio::files_identical(a,a),"a file is identical to itself");
}
FACET(missing_sources,400){
  std::string c=gen_file(g); show(g,"content",c); g.nt(); Gone a("a"),no("no"),o("o"); put(a,c); std::string old=gen_content(g,1+g.below(300)); bool had=g.flip(); if(had) put(o,old);
  CHECK(!fio::file_exists(no),"file_exists of a missing file"); CHECK_EQ(fio::file_size(no),size_t(0),"file_size of a missing file");
  std::string l; CHECK(!fio::load_file(no,l),"load_file of a missing file"); char b[8]; CHECK(!fio::load_file(no,b,8),"load_file of a missing file into a buffer");
  switch(g.below(4)){ case 0: CHECK(!fio::copy_file(no,o),"copy_file of a missing file"); break; case 1: CHECK(!fio::concatenate(no,a,o),"concatenate without the first file"); break; case 2: CHECK(!fio::concatenate(a,no,o),"concatenate without the second file"); break; default: CHECK(!fio::concatenate(no,no,o),"concatenate without both files"); }
  if(had) expect_file(o,old,"the destination of a failed call");
  CHECK(!fio::files_identical(a,no),"identical to a missing file"); CHECK(!fio::files_identical(no,a),"a missing file identical");
  CHECK(!fio::copy_file(a,path("none")+"/none"),"copy into a missing directory"); CHECK(!fio::write_file(path("none")+"/none",c),"write into a missing directory"); CHECK(!fio::concatenate(a,a,path("none")+"/none"),"concatenate into a missing directory");
  expect_file(a,c,"the source");
}
FACET(full_device,200){
  std::string c=gen_file(g); show(g,"content",c); g.nt(); Gone a("a"); put(a,c); bool ok=c.empty();
  CHECK_EQ(fio::write_file("/dev/full",c),ok,"write_file to a full device"); CHECK_EQ(fio::copy_file(a,"/dev/full"),ok,"copy_file to a full device"); CHECK_EQ(fio::concatenate(a,a,"/dev/full"),ok,"concatenate to a full device"); expect_file(a,c,"the source");
}
// a source that opens but cannot be read (a directory): no helper may report success or make up bytes. The size of
// files this process may write is limited meanwhile, so that made-up bytes cannot fill the disk.
FACET(unreadable_sources,150){
  std::string c=gen_file(g); show(g,"content",c); g.nt(); Gone a("a"),o("o"); put(a,c); std::string d=path("dir"),e=path("dir2"); mkdir(d.c_str(),0700); mkdir(e.c_str(),0700); faults::WriteLimit limit(1<<20); bool ok=true; std::string what;
  switch(g.below(8)){
    case 0: what="copy_file"; ok=fio::copy_file(d,o); break;
    case 1: what="concatenate of a directory and a file"; ok=fio::concatenate(d,a,o); break;
    case 2: what="concatenate of a file and a directory"; ok=fio::concatenate(a,d,o); break;
    case 3: what="files_identical"; ok=fio::files_identical(d,e); break;
    case 4: { what="load_file into a buffer"; std::vector<char> b(1+g.below(40000)); ok=fio::load_file(d,b.data(),b.size()); break; }
    case 5: { what="read_at_offset"; std::vector<char> b(1+g.below(300)); ok=fio::read_at_offset(d,g.below(3)?0:g.below(300),b.data(),b.size()); break; }
    case 6: { what="read_at_offset into a string"; std::string b; ok=fio::read_at_offset(d,g.below(3)?0:g.below(300),b,1+g.below(300)); break; }
    default: { what="read_pod"; std::ifstream s(d.c_str(),std::ios::binary); unsigned long long v=0; ok=fio::read_pod(s,v); break; }
  }
  CHECK(!ok,what+" of a directory reported success"); struct stat st; if(stat(std::string(o).c_str(),&st)==0) CHECK((size_t)st.st_size<=c.size(),what+" made bytes up"); expect_file(a,c,"the source");
}
// the device holding the destination fills up at some byte: success is reported exactly when everything was stored
FACET(device_fills_up,300){
  std::string c=gen_file(g),d=gen_file(g); if(c.size()>400000) c.resize(400000); if(d.size()>400000) d.resize(400000); show(g,"content",c); show(g,"second",d); Gone a("a"),b("b"),o("o"); put(a,c); put(b,d); int how=(int)g.below(3); std::string e=how==2?c+d:c;
  size_t k=g.chance(1,4)?e.size()+g.below(3):g.flip()?g.below(e.size()+1):std::min(e.size(),(size_t)block*g.below(6)+g.below(3)); g.show("room for",k); g.nt(k<e.size()); bool ok;
  { faults::WriteLimit limit(k); switch(how){ case 0: ok=fio::write_file(o,c); break; case 1: ok=fio::copy_file(a,o); break; default: ok=fio::concatenate(a,b,o); } }
  CHECK_EQ(ok,k>=e.size(),"outcome when the device fills up"); if(ok) expect_file(o,e,"the destination"); expect_file(a,c,"the source"); expect_file(b,d,"the second source");
}
// reading a source fails at some byte: failure is reported and no byte is made up; reads that arrive in small pieces change nothing
FACET(failing_reads,400){
  std::string c=gen_file(g),d=gen_file(g); if(c.size()>400000) c.resize(400000); if(d.size()>400000) d.resize(400000); int how=(int)g.below(5); if(how==3&&g.chance(3,4)) d=c; show(g,"content",c); show(g,"second",d); Gone a("a"),b("b"),o("o"); put(a,c); put(b,d);
  if(g.chance(1,4)){ size_t n=1+g.below(g.flip()?4:5000); if(c.size()+d.size()>60000) n=std::max<size_t>(n,500); g.show("bytes per read",n); g.label("short reads"); g.nt(c.size()>n); std::string l; std::vector<char> v(c.size()+1); faults::ShortReads s(n); bool ok=true;
    switch(how){ case 0: ok=fio::copy_file(a,o); break; case 1: ok=fio::concatenate(a,b,o); break; case 2: ok=fio::load_file(a,l); break; case 3: ok=fio::files_identical(a,b); CHECK_EQ(ok,c==d,"files_identical with short reads"); return; default: ok=fio::load_file(a,v.data(),c.size()); l.assign(v.data(),c.size()); }
    CHECK(ok,"a helper failed because reads were short"); if(how<2) expect_file(o,how?c+d:c,"the destination"); else CHECK_EQ(l,c,"the bytes loaded with short reads"); return; }
  size_t total=(how==1||how==3)?c.size()+d.size():c.size(); if(!total) return; size_t k=g.flip()?g.below(total):std::min(total-1,(size_t)block*g.below(6)+g.below(2)); g.show("read fails at",k); g.nt(); bool ok=false; std::string l; std::vector<char> v(c.size()+1,'?'); unsigned long long failed;
  { faults::ReadFault f(k); switch(how){ case 0: ok=fio::copy_file(a,o); break; case 1: ok=fio::concatenate(a,b,o); break; case 2: ok=fio::load_file(a,l); break; case 3: ok=fio::files_identical(a,b); break; default: ok=fio::load_file(a,v.data(),c.size()); } failed=faults::failed_reads; }
  if(how==3 && c!=d){ CHECK(!ok,"different files reported identical"); return; }
  CHECK(failed>0,"the fault was not met"); CHECK(!ok,"a failing read was reported as success"); if(how<2){ std::string r,e=c+d; struct stat st; if(stat(std::string(o).c_str(),&st)==0){ FILE* i=fopen(std::string(o).c_str(),"rb"); char buf[4096]; size_t n; while(i&&(n=fread(buf,1,sizeof buf,i))>0) r.append(buf,n); if(i) fclose(i); CHECK_EQ(r,e.substr(0,r.size()),"bytes made up after a failing read"); } }
}
LARGE(store_and_load,5,140000) LARGE(copy,5,140000) LARGE(comparison,5,140000) LARGE(concatenation,5,70000)
