#include "models.hpp"
#include <sys/time.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <memory>
#include "strtk.hpp"
namespace pbt { const char* const property_id="U01";
const char* const rule_text="Histories of start, stop, query and copy over several timers (and nested scoped timers) while the clock, interposed by the harness, returns generated readings: equal, a few microseconds on, just across a second, years on, and stepped backwards; the oracle subtracts the readings. Non-trivial: an interval that crosses a second boundary, is reversed, or is measured by a timer that is used again."; }
using pbt::G; typedef long long ll; typedef unsigned long long ull;
static bool fake=false; static ll now_us=0; static long readings=0;
extern "C" int gettimeofday(struct timeval* tv,void*) noexcept { if(!fake) return (int)syscall(SYS_gettimeofday,tv,0); ++readings; tv->tv_sec=now_us/1000000; tv->tv_usec=now_us%1000000; return 0; }
extern "C" int clock_gettime(clockid_t c,struct timespec* ts) noexcept { if(!fake) return (int)syscall(SYS_clock_gettime,c,ts); ++readings; ts->tv_sec=now_us/1000000; ts->tv_nsec=now_us%1000000*1000; return 0; }
struct Fake { Fake(){ fake=true; readings=0; } ~Fake(){ fake=false; } };
static ll step(G& g){ switch(g.below(9)){ case 0: return 0; case 1: return g.range(1,5); case 2: return 1000000-now_us%1000000; case 3: return 999999-now_us%1000000; case 4: return g.range(0,3000000); case 5: return g.range(0,4000000000000000ll); case 6: return 1000000ll*g.range(0,100000); case 7: return -(ll)g.range(0,3000000); default: return g.range(0,999999); } }
static void tick(G& g){ ll s=step(g); if(now_us+s<0) s=-now_us; now_us+=s; }
static const ull none=std::numeric_limits<ull>::max();
FACET(stopwatch_history,2500){
  Fake f; now_us=g.range(0,4000000000ll)*g.range(0,1000000); struct M { ll a,b; bool on,ran; int uses; }; std::vector<strtk::util::timer> t(3); std::vector<M> m(3,M{0,0,false,false,0}); size_t n=1+g.below(14); std::ostringstream h; bool nt=false;
  for(size_t k=0;k<n;++k){ size_t i=g.below(3); 
    switch(g.below(5)){
      case 0: case 1: t[i].start(); m[i].a=now_us; m[i].on=true; if(m[i].ran) nt=true; ++m[i].uses; h<<" start"<<i<<"@"<<now_us; break;
      case 2: case 3: t[i].stop(); m[i].b=now_us; m[i].on=false; m[i].ran=true; h<<" stop"<<i<<"@"<<now_us; if(m[i].b/1000000!=m[i].a/1000000||m[i].b<m[i].a) nt=true; break;
      default: { size_t j=g.below(3); t[i]=t[j]; m[i]=m[j]; h<<" "<<i<<"="<<j; }
    }
    for(size_t j=0;j<3;++j){ CHECK_EQ(t[j].in_use(),m[j].on,"in use after"<<h.str()); ull w=m[j].on?none:(m[j].b>=m[j].a?(ull)(m[j].b-m[j].a):none); CHECK_EQ(t[j].usec_time(),w,"microseconds of timer "<<j<<" after"<<h.str()); double d=t[j].time(),wd=(double)w*1e-6; CHECK(std::fabs(d-wd)<=1e-9*std::fabs(wd),"seconds of timer "<<j<<" after"<<h.str()<<": "<<d); }
    tick(g);
  }
  g.show("history",h.str()); g.nt(nt);
}
FACET(scoped_timer,2500){
  Fake f; now_us=g.range(0,4000000000ll)*g.range(0,1000000); double a=-1,b=-1; ll t0=now_us,t1,t2,t3,t4; { strtk::util::scoped_timer s(a); tick(g); CHECK(a==-1,"nothing is reported before the end"); t1=now_us; { strtk::util::scoped_timer q(b); tick(g); t2=now_us; } tick(g); t3=now_us; } tick(g); t4=now_us; (void)t4;
  auto w=[](ll x,ll y){ return y>=x?(double)(y-x)*1e-6:(double)none*1e-6; }; g.show("readings",std::to_string(t0)+" "+std::to_string(t1)+" "+std::to_string(t2)+" "+std::to_string(t3)); g.nt(t0/1000000!=t3/1000000||t3<t0);
  CHECK(std::fabs(a-w(t0,t3))<=1e-9*w(t0,t3),"outer interval "<<a); CHECK(std::fabs(b-w(t1,t2))<=1e-9*w(t1,t2),"inner interval "<<b);
}
