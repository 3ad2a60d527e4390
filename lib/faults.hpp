// Injected faults of the file system, for the harnesses of the helpers that read and write files.
//  WriteLimit(k): while it lives no file can be written beyond byte k (the write that crosses it is cut short, later
//                 ones fail), as on a device that fills up.
//  ReadFault(k):  while it lives the first k bytes read from any descriptor arrive, then read() fails with EIO.
//  ShortReads(n): while it lives read() delivers at most n bytes per call (legal behaviour: nothing may change).
#ifndef FAULTS_HPP
#define FAULTS_HPP
#include <signal.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/uio.h>
namespace faults {
  static long long read_budget=-1; static size_t read_chunk=0; static unsigned long long failed_reads=0;
  struct WriteLimit { rlimit old; void (*was)(int);
    explicit WriteLimit(unsigned long long k){ getrlimit(RLIMIT_FSIZE,&old); rlimit l=old; l.rlim_cur=k; was=signal(SIGXFSZ,SIG_IGN); setrlimit(RLIMIT_FSIZE,&l); }
    ~WriteLimit(){ setrlimit(RLIMIT_FSIZE,&old); signal(SIGXFSZ,was); } };
  struct ReadFault { explicit ReadFault(unsigned long long k){ read_budget=(long long)k; failed_reads=0; } ~ReadFault(){ read_budget=-1; } };
  struct ShortReads { explicit ShortReads(size_t n){ read_chunk=n; } ~ShortReads(){ read_chunk=0; } };
}
extern "C" ssize_t read(int fd,void* p,size_t n){
  if(faults::read_budget>=0){ if(n && faults::read_budget==0){ ++faults::failed_reads; errno=EIO; return -1; } if((long long)n>faults::read_budget) n=(size_t)faults::read_budget; }
  if(faults::read_chunk && n>faults::read_chunk) n=faults::read_chunk;
  ssize_t r=syscall(SYS_read,fd,p,n); if(r>0 && faults::read_budget>=0) faults::read_budget-=r; return r;
}
#endif
