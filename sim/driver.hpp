// Command line driver shared by the algorithm and race simulators. The
// including file defines, before calling driver_main: exec_trace(const
// Trace&), gen(prof,seed,run), extra_stats(ostream&), nontrivial(), and the
// globals g_states and g_runs.
#ifndef SIM_DRIVER_HPP
#define SIM_DRIVER_HPP

#include "core.hpp"
#include "trace.hpp"
#include <chrono>
#include <csignal>
#include <fcntl.h>
#include <ostream>
#include <unistd.h>
#include <sys/stat.h>
#include <sys/time.h>

namespace sim{

struct DriverHooks
{
  void (*exec)(const Trace&);
  Trace (*gen)(const std::string&,u64,u64);
  void (*stats)(std::ostream&);
  bool (*nontrivial)();
};

inline u64 hash_str_(const std::string& s)
{
  u64 h=0xcbf29ce484222325ull;
  for(unsigned char c:s)h=(h^c)*0x100000001b3ull;
  return h;
}

/* CPU-time watchdog: a run that makes no progress ends the process */
inline void watchdog(int s)
{
  itimerval v{};v.it_value.tv_sec=s;
  setitimer(ITIMER_PROF,&v,nullptr);
}

inline void print_result()
{
  std::string m=g_violation.msg;
  for(auto& ch:m)if(ch=='\n'||ch=='\t')ch=' ';
  if(g_violation.set)
    std::printf("RESULT viol\t%s\t%d\t%016llx\t%s\n",g_violation.cls.c_str(),
      g_violation.step,(unsigned long long)g_log,m.c_str());
  else std::printf("RESULT ok\t-\t-1\t%016llx\t-\n",(unsigned long long)g_log);
  std::fflush(stdout);
}

inline void write_stats(const DriverHooks& h,const std::string& dir,int wid,
  u64 runs,double secs,const std::unordered_set<u64>& states,
  const std::unordered_set<u64>& nruns)
{
  std::string tail="."+std::to_string(wid)+"."+std::to_string((long)getpid());
  {
    std::ofstream f(dir+"/stats"+tail+".json");
    f<<"{\"runs\":"<<runs<<",\"secs\":"<<secs;
    h.stats(f);
    f<<"}\n";
  }
  std::ofstream b(dir+"/states"+tail+".bin",std::ios::binary);
  for(u64 x:states)b.write((const char*)&x,8);
  std::ofstream q(dir+"/runs"+tail+".bin",std::ios::binary);
  for(u64 x:nruns)q.write((const char*)&x,8);
}

inline int driver_main(int argc,char** argv,const DriverHooks& h,
  const std::unordered_set<u64>& states,std::unordered_set<u64>& nruns)
{
  auto usage=[&]{
    std::fprintf(stderr,"usage: --replay FILE [-v] | --gen PROF SEED RUN | "
      "--work PROF SEED WID NW FIRST SECONDS DIR\n");
    return 2;
  };
  if(argc<2)return usage();
  std::string mode=argv[1];
  g_heap.init();
  if(mode=="--gen"&&argc>=5){
    Trace t=h.gen(argv[2],std::strtoull(argv[3],0,10),
      std::strtoull(argv[4],0,10));
    std::fputs(to_text(t).c_str(),stdout);
    return 0;
  }
  if(mode=="--replay"&&argc>=3){
    std::vector<Trace> ts;
    if(!from_file(argv[2],ts)){std::fprintf(stderr,"bad trace\n");return 2;}
    g_verbose=argc>3&&std::string(argv[3])=="-v";
    for(auto& t:ts){
      watchdog(20);
      h.exec(t);
      if(g_violation.set)break;
    }
    print_result();
    std::_Exit(g_violation.set?10:0);
  }
  if(mode=="--work"&&argc>=9){
    std::string prof=argv[2];
    u64 seed=std::strtoull(argv[3],0,10);
    int wid=std::atoi(argv[4]),nw=std::atoi(argv[5]);
    u64 first=std::strtoull(argv[6],0,10);
    double secs=std::atof(argv[7]);
    std::string dir=argv[8];
    std::string sf=dir+"/status."+std::to_string(wid);
    int fd=::open(sf.c_str(),O_RDWR|O_CREAT,0644);
    if(fd<0||ftruncate(fd,64)!=0)return 3;
    auto st=(volatile u64*)mmap(nullptr,64,PROT_READ|PROT_WRITE,MAP_SHARED,fd,
      0);
    using clk=std::chrono::steady_clock;
    auto t0=clk::now();
    u64 n=0;
    for(u64 run=first;;run+=nw){
      double el=std::chrono::duration<double>(clk::now()-t0).count();
      if(el>=secs)break;
      st[0]=run;st[1]=1;
      watchdog(20);
      Trace t=h.gen(prof,seed,run);
      h.exec(t);
      ++n;
      if(h.nontrivial())nruns.insert(g_log);
      st[1]=0;
      if(g_violation.set){
        write_stats(h,dir,wid,n,el,states,nruns);
        print_result();
        std::_Exit(10);
      }
    }
    watchdog(0);
    write_stats(h,dir,wid,n,
      std::chrono::duration<double>(clk::now()-t0).count(),states,nruns);
    std::printf("DONE %llu\n",(unsigned long long)n);
    std::fflush(stdout);
    std::_Exit(0);
  }
  return usage();
}

} /* namespace sim */

#endif
