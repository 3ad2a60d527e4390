// Driver: workers, crash isolation, shrinking, replay, evidence. See pbt.hpp.
#ifndef PBT_MAIN_HPP
#define PBT_MAIN_HPP
#ifdef PBT_FUZZ
extern "C" int LLVMFuzzerTestOneInput(const unsigned char* d,size_t n){
  using namespace pbt; if(n<2) return 0;
  static const std::vector<Facet> fs=fuzzed_facets(); const Facet& f=fs[d[0]%fs.size()];
  G g; g.mode=G::BYTES; g.b=d+1; g.bn=n-1; g.describe=false;
  std::string why; if(!run_case(f,g,why)){ fprintf(stderr,"PBT facet=%s %s\n",f.name.c_str(),why.c_str()); abort(); }
  return 0;
}
#else
namespace pbt {
inline double now(){ timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+t.tv_nsec*1e-9; }
inline Shared* new_shared(){ void* p=mmap(0,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); if(p==MAP_FAILED){ perror("mmap"); _exit(3);} return (Shared*)p; }
static const int case_cpu_seconds=20;
static const long rss_limit_mb=3500;
inline void arm(int s){ itimerval t; memset(&t,0,sizeof t); t.it_value.tv_sec=s; setitimer(ITIMER_PROF,&t,0); }
inline long rss_mb(pid_t p){ char b[64]; snprintf(b,64,"/proc/%d/statm",(int)p); FILE* f=fopen(b,"r"); if(!f) return 0; long a=0,r=0; if(fscanf(f,"%ld %ld",&a,&r)!=2) r=0; fclose(f); return r*4/1024; }
inline std::string slurp(const std::string& p,size_t cap=1<<20){ std::string r; FILE* f=fopen(p.c_str(),"r"); if(!f) return r; char b[4096]; size_t n; while(r.size()<cap&&(n=fread(b,1,4096,f))>0) r.append(b,n); fclose(f); return r; }
inline std::string tmpname(const char* k){ static std::string dir; static int n=0; if(dir.empty()){ const char* e=getenv("PBT_TMP"); dir=e?e:"/tmp"; } return dir+"/pbt."+std::to_string(getpid())+"."+k+"."+std::to_string(n++); }
inline std::string json(const std::string& s){
  std::string r="\""; for(unsigned char c:s){ if(c=='"'||c=='\\'){ r+='\\'; r+=char(c);} else if(c<32||c>=127){ char b[8]; snprintf(b,8,"\\u%04x",c); r+=b; } else r+=char(c);} return r+"\"";
}
inline std::string crash_reason(int st,const std::string& log){
  std::string t=slurp(log); std::string why;
  size_t p=t.find("ERROR: AddressSanitizer"); if(p==std::string::npos) p=t.find("runtime error:"); if(p==std::string::npos) p=t.find("WARNING: ThreadSanitizer"); if(p==std::string::npos) p=t.find("Assertion");
  if(p!=std::string::npos){ size_t b=t.rfind('\n',p); b=b==std::string::npos?0:b+1; size_t e=t.find('\n',p); why=t.substr(b,e-b); size_t q=t.find("SUMMARY:"); if(q!=std::string::npos) why+=" | "+t.substr(q,t.find('\n',q)-q); }
  else { size_t b=t.size()>300?t.size()-300:0; why=t.substr(b); for(char& c:why) if(c=='\n') c=' '; }
  if(WIFSIGNALED(st)){ int sg=WTERMSIG(st); if(sg==SIGPROF) why="case used more than "+std::to_string(case_cpu_seconds)+" s of CPU (endless loop?) "+why; else if(sg==SIGKILL) why="case ran out of memory "+why; else why="signal "+std::to_string(sg)+" "+why; }
  return why;
}
struct Outcome { bool fail; std::string why; std::vector<u64> rec; std::string desc; };
// Waits for a child, ending it when it grows too big.
inline int wait_child(pid_t p){
  int st; double d=0.0002; 
  for(;;){ pid_t r=waitpid(p,&st,WNOHANG); if(r==p) return st; usleep((useconds_t)(d*1e6)); if(d<0.02) d*=1.3; else if(rss_mb(p)>rss_limit_mb) kill(p,SIGKILL); }
}
inline Outcome run_forked(const Facet& f,const std::function<void(G&)>& setup,Shared* sh,bool describe=true){
  std::string log=tmpname("log"), dsc=describe?tmpname("desc"):"";
  sh->nrec=0; sh->failed=0; sh->msg[0]=0;
  fflush(0);
  pid_t p=fork();
  if(p==0){
    int fd=open(log.c_str(),O_CREAT|O_WRONLY|O_TRUNC,0600); dup2(fd,2); dup2(fd,1);
    G g; setup(g); g.sh=sh; g.describe=describe; std::string why; arm(case_cpu_seconds);
    if(describe) setenv("PBT_DESC",dsc.c_str(),1);
    bool ok=run_case(f,g,why); arm(0);
    if(describe){ FILE* o=fopen(dsc.c_str(),"w"); if(o){ fwrite(g.desc.data(),1,g.desc.size(),o); fclose(o);} }
    if(!ok){ snprintf(sh->msg,sizeof sh->msg,"%s",why.c_str()); sh->failed=1; _exit(1); }
    _exit(0);
  }
  int st=wait_child(p); Outcome o; o.fail=!(WIFEXITED(st)&&WEXITSTATUS(st)==0);
  if(o.fail) o.why=sh->failed?std::string(sh->msg):crash_reason(st,log);
  o.rec.assign((u64*)sh->rec,(u64*)sh->rec+sh->nrec);
  if(describe) { o.desc=slurp(dsc); unlink(dsc.c_str()); }
  unlink(log.c_str()); return o;
}
inline Outcome run_choices(const Facet& f,const std::vector<u64>& c,Shared* sh,bool d=false){ return run_forked(f,[&](G& g){ g.mode=G::REPLAY; g.rp=&c; },sh,d); }

inline std::vector<u64> shrink(const Facet& f,std::vector<u64> c,Shared* sh,double seconds){
  double end=now()+seconds; int tries=0;
  auto better=[](const std::vector<u64>& a,const std::vector<u64>& b){ return a.size()!=b.size()?a.size()<b.size():a<b; };
  auto attempt=[&](std::vector<u64> t)->bool{
    if(now()>end||++tries>20000) return false;
    while(!t.empty()&&t.back()==0) t.pop_back();
    if(!better(t,c)) return false;
    Outcome o=run_choices(f,t,sh); if(!o.fail) return false;
    std::vector<u64> r=o.rec.size()<t.size()?o.rec:t; while(!r.empty()&&r.back()==0) r.pop_back();
    c=better(r,t)?r:t; return true; };
  { std::vector<u64> t=c; while(!t.empty()&&t.back()==0) t.pop_back(); c=t; }
  bool go=true;
  while(go&&now()<end){
    go=false;
    for(size_t k=std::max<size_t>(1,c.size()/2);k>=1;k/=2){
      for(size_t i=0;i+k<=c.size();){ std::vector<u64> t=c; t.erase(t.begin()+i,t.begin()+i+k); if(attempt(t)) go=true; else i+=k; if(now()>end) break; }
      for(size_t i=0;i+k<=c.size();i+=k){ std::vector<u64> t=c; bool nz=false; for(size_t j=i;j<i+k;++j){ if(t[j]) nz=true; t[j]=0; } if(nz&&attempt(t)) go=true; if(now()>end) break; }
      if(k==1) break;
    }
    for(size_t i=0;i<c.size()&&now()<end;++i){
      // lower a count while dropping following choices
      for(size_t k=1;k<=3&&i<c.size()&&c[i]>0;++k) for(size_t j=i+1;j<c.size()&&j<i+40&&now()<end;++j){ std::vector<u64> t=c; if(t[i]==0||j+k>t.size()) break; --t[i]; t.erase(t.begin()+j,t.begin()+j+k); if(attempt(t)){ go=true; j=i; } }
      if(i>=c.size()) break;
      u64 lo=0,hi=c[i];
      while(lo<hi&&i<c.size()&&now()<end){ u64 m=lo+(hi-lo)/2; std::vector<u64> t=c; t[i]=m; if(attempt(t)){ go=true; if(i>=c.size()) break; hi=std::min(m,c[i]); } else lo=m+1; }
    }
  }
  return c;
}
inline bool load_replay(const std::string& path,std::string& facet,std::vector<u64>& c,std::string& shard){
  FILE* f=fopen(path.c_str(),"r"); if(!f) return false; char w[256];
  while(fscanf(f,"%255s",w)==1){ std::string k=w;
    if(k=="facet"){ if(fscanf(f,"%255s",w)!=1) break; facet=w; }
    else if(k=="shard"){ if(fscanf(f,"%255s",w)!=1) break; shard=w; }
    else if(k=="choices"){ unsigned long long n,v; if(fscanf(f,"%llu",&n)!=1) break; for(unsigned long long i=0;i<n&&fscanf(f,"%llu",&v)==1;++i) c.push_back(v); }
    else if(k[0]=='#'){ int ch; while((ch=fgetc(f))!=EOF&&ch!='\n'); }
  }
  fclose(f); return !facet.empty()||!shard.empty();
}
struct Stats { u64 evals; std::map<std::string,u64> per, ntper; std::vector<u64> hashes; std::map<std::string,u64> labels; std::vector<std::string> samples; Stats():evals(0){} };
inline void dedupe(std::vector<u64>& v){ std::sort(v.begin(),v.end()); v.erase(std::unique(v.begin(),v.end()),v.end()); }

// One worker: every W-th case of every facet. Deterministic.
inline void worker(unsigned w,unsigned W,u64 seed,double mult,const std::string& only,Shared* sh,const std::string& out,double deadline){
  Stats s; sh->started=1;
  for(size_t fi=0;fi<facets().size();++fi){
    const Facet& f=facets()[fi]; if(!only.empty()&&f.name!=only) continue;
    u64 n=(u64)(f.quick*mult); if(n==0) n=1; u64 samp=0,hn=0;
    for(u64 i=w;i<n;i+=W){
      if(deadline>0&&(i/W)%64==0&&now()>deadline) break;
      sh->facet=fi; sh->index=i; sh->nrec=0;
      G g; g.s=case_seed(seed,f,i); std::string why; arm(case_cpu_seconds);
      if(!run_case(f,g,why)){ arm(0); snprintf(sh->msg,sizeof sh->msg,"%s",why.c_str()); sh->failed=1; _exit(1); }
      ++s.evals; ++s.per[f.name];
      for(auto& l:g.labels) ++s.labels[f.name+"/"+l];
      if(g.nontriv){ s.hashes.push_back(hash_str(g.desc,hash_str(f.name))); ++hn; ++s.ntper[f.name]; if(samp<1&&w<2){ ++samp; s.samples.push_back(f.name+": "+g.desc.substr(0,600)); } }
      if(s.hashes.size()>4000000) dedupe(s.hashes);
    }
  }
  arm(0); dedupe(s.hashes);
  FILE* o=fopen(out.c_str(),"w"); if(!o) _exit(3);
  fprintf(o,"%llu\n%zu\n",(unsigned long long)s.evals,s.hashes.size()); if(!s.hashes.empty()) fwrite(s.hashes.data(),8,s.hashes.size(),o);
  auto m=[&](const std::map<std::string,u64>& x){ fprintf(o,"\n%zu\n",x.size()); for(auto& e:x) fprintf(o,"%s %llu\n",e.first.c_str(),(unsigned long long)e.second); };
  m(s.per); m(s.ntper); m(s.labels);
  fprintf(o,"%zu\n",s.samples.size()); for(auto& e:s.samples) fprintf(o,"%s\n",json(e).c_str());
  fclose(o); _exit(0);
}
inline void merge(Stats& s,const std::string& path){
  FILE* f=fopen(path.c_str(),"r"); if(!f) return; unsigned long long e=0; size_t n=0;
  if(fscanf(f,"%llu\n%zu",&e,&n)!=2){ fclose(f); return; } fgetc(f); s.evals+=e; size_t b=s.hashes.size(); s.hashes.resize(b+n); if(n&&fread(&s.hashes[b],8,n,f)!=n){ fclose(f); return; }
  auto m=[&](std::map<std::string,u64>& x){ size_t k=0; if(fscanf(f,"%zu",&k)!=1) return; for(size_t i=0;i<k;++i){ char w[256]; unsigned long long v; if(fscanf(f,"%255s %llu",w,&v)!=2) return; x[w]+=v; } };
  m(s.per); m(s.ntper); m(s.labels); size_t k=0; if(fscanf(f,"%zu",&k)!=1) k=0; fgetc(f);
  for(size_t i=0;i<k;++i){ std::string l; int c; while((c=fgetc(f))!=EOF&&c!='\n') l+=char(c); s.samples.push_back(l); }
  fclose(f);
}
struct Opts { std::string tier="quick",evidence,replays="/tmp",only,replay,bytes; u64 seed=1; unsigned workers=0; double mult=1,cap=700; bool list=false; };

inline int drive(const Opts& o){
  double t0=now(); unsigned W=o.workers; if(!W){ W=(unsigned)sysconf(_SC_NPROCESSORS_ONLN); if(W>8) W=8; if(W<1) W=1; }
  const unsigned shards=8; // fixed, so that what a shard runs does not depend on the machine
  std::vector<Shared*> sh; std::vector<std::string> outs,logs; std::vector<pid_t> pids(shards,0); std::vector<int> sts(shards,-1);
  for(unsigned i=0;i<shards;++i){ sh.push_back(new_shared()); outs.push_back(tmpname("out")); logs.push_back(tmpname("wlog")); }
  unsigned next=0,live=0; int failed=-1; std::string why;
  while(next<shards||live){
    while(next<shards&&live<W&&failed<0){
      fflush(0); pid_t p=fork();
      if(p==0){ int fd=open(logs[next].c_str(),O_CREAT|O_WRONLY|O_TRUNC,0600); dup2(fd,1); dup2(fd,2); worker(next,shards,o.seed,o.mult,o.only,sh[next],outs[next],t0+o.cap); _exit(0); }
      pids[next++]=p; ++live;
    }
    usleep(10000);
    for(unsigned i=0;i<next;++i) if(pids[i]){
      int st; pid_t r=waitpid(pids[i],&st,WNOHANG);
      if(r==pids[i]){ pids[i]=0; --live; sts[i]=st; if(!(WIFEXITED(st)&&WEXITSTATUS(st)==0)&&failed<0){ failed=i; why=sh[i]->failed?std::string(sh[i]->msg):crash_reason(st,logs[i]); } }
      else if(rss_mb(pids[i])>rss_limit_mb) kill(pids[i],SIGKILL);
    }
    if(failed>=0){ for(unsigned i=0;i<next;++i) if(pids[i]){ kill(pids[i],SIGKILL); waitpid(pids[i],0,0); pids[i]=0; } live=0; next=shards; }
  }
  Stats s; for(unsigned i=0;i<shards;++i){ merge(s,outs[i]); unlink(outs[i].c_str()); unlink(logs[i].c_str()); }
  int rc=0; std::string replay;
  if(failed>=0){
    const Facet& f=facets()[sh[failed]->facet]; u64 idx=sh[failed]->index;
    printf("FAIL property=%s facet=%s case=%llu seed=%llu\n  %s\n",property_id,f.name.c_str(),(unsigned long long)idx,(unsigned long long)o.seed,why.c_str()); fflush(stdout);
    Shared* s2=new_shared(); u64 cs=case_seed(o.seed,f,idx);
    Outcome a=run_forked(f,[&](G& g){ g.s=cs; },s2,false);
    replay=o.replays+"/"+property_id+"-"+f.name+"-"+std::to_string(o.seed)+"-"+std::to_string(idx)+".replay";
    bool confirmed=false;
    if(a.fail){
      std::vector<u64> c=shrink(f,a.rec,s2,45);
      int n=0; Outcome z; for(int i=0;i<3;++i){ z=run_choices(f,c,s2,true); n+=z.fail; }
      if(n<3){ c=a.rec; n=0; for(int i=0;i<3;++i){ z=run_choices(f,c,s2,true); n+=z.fail; } }
      if(n==3){ confirmed=true; FILE* r=fopen(replay.c_str(),"w"); if(r){ fprintf(r,"property %s\nfacet %s\nchoices %zu",property_id,f.name.c_str(),c.size()); for(u64 v:c) fprintf(r," %llu",(unsigned long long)v); fprintf(r,"\n# case: %s\n# failure: %s\n",z.desc.c_str(),z.why.c_str()); fclose(r); }
        printf("  shrunk to %zu choices: %s\n  %s\n",c.size(),z.desc.c_str(),z.why.c_str()); }
    }
    if(!confirmed){ // state carried from earlier cases: rerun the whole shard
      int n=0; for(int i=0;i<3;++i){ std::string out=tmpname("out"),log=tmpname("wlog"); s2->failed=0; fflush(0); pid_t p=fork(); if(p==0){ int fd=open(log.c_str(),O_CREAT|O_WRONLY|O_TRUNC,0600); dup2(fd,1); dup2(fd,2); worker(failed,shards,o.seed,o.mult,o.only,s2,out,0); _exit(0); } int st=wait_child(p); unlink(out.c_str()); unlink(log.c_str()); if(!(WIFEXITED(st)&&WEXITSTATUS(st)==0)) ++n; else break; }
      if(n==3){ confirmed=true; FILE* r=fopen(replay.c_str(),"w"); if(r){ fprintf(r,"property %s\nshard %u/%u/%llu/%g/%s\n# failure at facet %s case %llu: %s\n",property_id,(unsigned)failed,shards,(unsigned long long)o.seed,o.mult,o.only.c_str(),f.name.c_str(),(unsigned long long)idx,why.c_str()); fclose(r); } }
    }
    if(confirmed){ rc=1; printf("VIOLATION property=%s replay=%s\n",property_id,replay.c_str()); }
    else printf("NOTE: the failure did not repeat in 3 replays; not reported\n");
  }
  dedupe(s.hashes);
  if(!o.evidence.empty()){
    FILE* e=fopen(o.evidence.c_str(),"w"); if(!e){ perror(o.evidence.c_str()); return 3; }
    u64 ev=s.evals; if(ev==0&&failed>=0) ev=sh[failed]->index+1;
    fprintf(e,"{\"property\":\"%s\",\"tier\":\"%s\",\"seed\":%llu,\"level\":\"exploration\",\n \"coverage\":{\"evaluations\":%llu,\"distinct_nontrivial\":%zu,\n  \"rule\":%s,\n  \"samples\":[",property_id,o.tier.c_str(),(unsigned long long)o.seed,(unsigned long long)ev,s.hashes.size(),json(rule_text).c_str());
    if(s.samples.empty()&&failed>=0) s.samples.push_back(json("failing case, see "+replay));
    for(size_t i=0;i<s.samples.size();++i) fprintf(e,"%s\n   %s",i?",":"",s.samples[i].c_str());
    auto m=[&](const char* k,const std::map<std::string,u64>& x){ fprintf(e,",\n  \"%s\":{",k); bool c=false; for(auto& p:x){ fprintf(e,"%s%s:%llu",c?",":"",json(p.first).c_str(),(unsigned long long)p.second); c=true; } fprintf(e,"}"); };
    fprintf(e,"]"); m("cases_per_facet",s.per); m("nontrivial_per_facet",s.ntper); m("classes",s.labels);
    const char* fz=getenv("PBT_FUZZ_RUNS"); if(fz&&*fz) fprintf(e,",\n  \"coverage_guided_runs\":%s",fz);
    fprintf(e,"},\n \"assumptions\":[%s\"the reference models in /verif/props are right\"],\n \"wall_s\":%.2f,\"violations\":%d}\n",
#ifdef PBT_TSAN
      "\"clang 18 ThreadSanitizer reports unsynchronised accesses of instrumented code\",",
#else
      "\"clang 18 AddressSanitizer and UndefinedBehaviorSanitizer (without alignment and signed-overflow checks) report memory errors\",",
#endif
      now()-t0,rc);
    fclose(e);
  }
  printf("%s property=%s tier=%s seed=%llu cases=%llu nontrivial=%zu wall=%.1fs\n",rc?"BROKEN":"OK",property_id,o.tier.c_str(),(unsigned long long)o.seed,(unsigned long long)s.evals,s.hashes.size(),now()-t0);
  return rc;
}
inline const Facet* find_facet(const std::string& n){ for(auto& f:facets()) if(f.name==n) return &f; return 0; }
inline int do_replay(const Opts& o){
  std::string fn,shard; std::vector<u64> c; if(!load_replay(o.replay,fn,c,shard)){ fprintf(stderr,"cannot read %s\n",o.replay.c_str()); return 3; }
  Shared* s=new_shared();
  if(!shard.empty()){ unsigned w,W; unsigned long long sd; double m; char only[200]=""; sscanf(shard.c_str(),"%u/%u/%llu/%lf/%199s",&w,&W,&sd,&m,only); pid_t p=fork(); if(p==0){ worker(w,W,sd,m,only,s,tmpname("out"),0); } int st=wait_child(p); bool bad=!(WIFEXITED(st)&&WEXITSTATUS(st)==0); if(bad) printf("VIOLATION property=%s replay=%s\n  %s\n",property_id,o.replay.c_str(),(char*)s->msg); return bad; }
  const Facet* f=find_facet(fn); if(!f){ fprintf(stderr,"no facet %s\n",fn.c_str()); return 3; }
  Outcome z=run_choices(*f,c,s,true); printf("case: %s\n",z.desc.c_str());
  if(z.fail){ printf("%s\nVIOLATION property=%s replay=%s\n",z.why.c_str(),property_id,o.replay.c_str()); return 1; }
  printf("passes\n"); return 0;
}
inline int do_bytes(const Opts& o){ // a libFuzzer artifact: confirm, shrink, report
  std::string d=slurp(o.bytes); if(d.size()<2) return 0; const unsigned char* b=(const unsigned char*)d.data();
  const std::vector<Facet> fs=fuzzed_facets(); const Facet& f=fs[b[0]%fs.size()]; Shared* s=new_shared();
  Outcome a=run_forked(f,[&](G& g){ g.mode=G::BYTES; g.b=b+1; g.bn=d.size()-1; },s,true);
  if(!a.fail){ printf("NOTE: artifact %s does not fail in the driver\n",o.bytes.c_str()); return 0; }
  std::vector<u64> c=shrink(f,a.rec,s,45); Outcome z; int n=0; for(int i=0;i<3;++i){ z=run_choices(f,c,s,true); n+=z.fail; }
  if(n<3){ printf("NOTE: not repeatable\n"); return 0; }
  std::string r=o.replays+"/"+property_id+"-"+f.name+"-fuzz.replay"; FILE* q=fopen(r.c_str(),"w"); if(q){ fprintf(q,"property %s\nfacet %s\nchoices %zu",property_id,f.name.c_str(),c.size()); for(u64 v:c) fprintf(q," %llu",(unsigned long long)v); fprintf(q,"\n# case: %s\n# failure: %s\n",z.desc.c_str(),z.why.c_str()); fclose(q); }
  printf("  %s\n  %s\nVIOLATION property=%s replay=%s\n",z.desc.c_str(),z.why.c_str(),property_id,r.c_str()); return 1;
}
} // namespace pbt
int main(int argc,char** argv){
  pbt::Opts o; for(int i=1;i<argc;++i){ std::string a=argv[i]; std::string v=i+1<argc?argv[i+1]:"";
    if(a=="--tier"){ o.tier=v; ++i; } else if(a=="--seed"){ o.seed=strtoull(v.c_str(),0,10); ++i; } else if(a=="--evidence"){ o.evidence=v; ++i; } else if(a=="--replays"){ o.replays=v; ++i; }
    else if(a=="--workers"){ o.workers=atoi(v.c_str()); ++i; } else if(a=="--mult"){ o.mult=atof(v.c_str()); ++i; } else if(a=="--facet"){ o.only=v; ++i; } else if(a=="--cap"){ o.cap=atof(v.c_str()); ++i; }
    else if(a=="--replay"){ o.replay=v; ++i; } else if(a=="--bytes"){ o.bytes=v; ++i; } else if(a=="--list") o.list=true; else { fprintf(stderr,"unknown %s\n",a.c_str()); return 3; } }
  if(o.list){ for(auto& f:pbt::facets()) printf("%s %llu\n",f.name.c_str(),(unsigned long long)f.quick); return 0; }
  if(!o.replay.empty()) return pbt::do_replay(o);
  if(!o.bytes.empty()) return pbt::do_bytes(o);
  return pbt::drive(o);
}
#endif
#endif
