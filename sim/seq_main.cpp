// Sequential fault simulator: one trace = one exactly repeatable execution.
#define SIM_FILLERS 10
#include "world.hpp"
#include "gen.hpp"
#include <csignal>
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
#include <sys/time.h>

#ifndef SIM_POL
#define SIM_POL 0
#endif

namespace sim{
Violation g_violation;
int g_step=-1;
bool g_in_op=false;
u64 g_log=0;
bool g_verbose=false;
Faults g_faults;
Heap g_heap;
Arena g_arena[N_ARENA];
ElemAcc g_acc;
NewAcc g_new;
ElemStats g_es;
std::unordered_set<const void*> g_live_elems;
u64 g_elem_events=0;
Stats g_stats;
std::unordered_set<u64> g_states;
std::size_t g_states_cap=400000;
std::unordered_set<u64> g_runs; /* event-log hashes of non-trivial runs */

using Pol=Policy<(SIM_POL&1)!=0,(SIM_POL&2)!=0,(SIM_POL&4)!=0>;
const char* const harness_name="seq-" SIM_KIND_NAME;

using W=World<Pol>;
alignas(W) unsigned char world_mem[sizeof(W)];

void reset_run(const Config& c)
{
  g_violation=Violation{};
  g_step=-1;g_in_op=false;g_log=0x1234;
  u64 pt[FK_N],ft[FK_N];
  std::memcpy(pt,g_faults.points,sizeof pt);
  std::memcpy(ft,g_faults.fired_total,sizeof ft);
  g_faults=Faults{};
  std::memcpy(g_faults.points,pt,sizeof pt);
  std::memcpy(g_faults.fired_total,ft,sizeof ft);
  g_heap.reset(c.heap%HP_N,c.heapseed);
  g_acc=ElemAcc{};
  g_new=NewAcc{};
  g_es=ElemStats{};
  g_live_elems.clear();
  g_elem_events=0;
}

bool g_odd_amp=false;
bool g_keep=false;

void exec_trace(const Trace& t)
{
  reset_run(t.cfg);
  g_odd_amp=t.prof=="C17";
  g_keep=t.prof=="C03";
  W* w=::new((void*)world_mem) W(t.cfg);
  for(std::size_t k=0;k<t.steps.size()&&!g_violation.set;++k){
    g_step=(int)k;
    if(g_verbose){
      const Step& s=t.steps[k];
      std::printf("  [%zu] %s p=%u,%u,%u,%u,%u,%u,%u,%u fault=%x@%u%s\n",k,
        op_name(s.op),s.p[0],s.p[1],s.p[2],s.p[3],s.p[4],s.p[5],s.p[6],s.p[7],
        s.fmask,s.fcount,s.fpers?"+":"");
    }
    w->run_step(t.steps[k]);
    if(g_verbose){
      if(g_faults.fired)std::printf("      fault fired: %s\n",
        fk_name(g_faults.fired_kind));
      for(int i=0;i<W::NS;++i)if(w->m[i].alive)
        std::printf("      c%d(al %u): %s\n",i,w->m[i].arena,
          show(w->m[i]).c_str());
      std::fflush(stdout);
    }
  }
  if(!g_violation.set){
    g_step=(int)t.steps.size();
    g_faults.disarm();
    w->recover();
  }
  if(!g_violation.set)w->~W();
  /* after a violation the world is abandoned: its state is not trusted */
}

} /* namespace sim */

/* the global heap seam: counted while a library call is in progress */
void* operator new(std::size_t n)
{
  if(sim::g_in_op)++sim::g_new.in_op;
  void* p=std::malloc(n?n:1);
  if(!p)throw std::bad_alloc{};
  return p;
}
void* operator new[](std::size_t n){return operator new(n);}
void* operator new(std::size_t n,const std::nothrow_t&)noexcept
{
  if(sim::g_in_op)++sim::g_new.in_op;
  return std::malloc(n?n:1);
}
void operator delete(void* p)noexcept{std::free(p);}
void operator delete[](void* p)noexcept{std::free(p);}
void operator delete(void* p,std::size_t)noexcept{std::free(p);}
void operator delete[](void* p,std::size_t)noexcept{std::free(p);}
void operator delete(void* p,const std::nothrow_t&)noexcept{std::free(p);}

using namespace sim;

/* CPU-time watchdog: a run that makes no progress ends the process */
static void watchdog(int s)
{
  itimerval v{};v.it_value.tv_sec=s;
  setitimer(ITIMER_PROF,&v,nullptr);
}

static void print_result()
{
  std::string m=g_violation.msg;
  for(auto& ch:m)if(ch=='\n'||ch=='\t')ch=' ';
  if(g_violation.set)
    std::printf("RESULT viol\t%s\t%d\t%016llx\t%s\n",g_violation.cls.c_str(),
      g_violation.step,(unsigned long long)g_log,m.c_str());
  else std::printf("RESULT ok\t-\t-1\t%016llx\t-\n",(unsigned long long)g_log);
  std::fflush(stdout);
}

static void write_stats(const std::string& dir,int wid,u64 runs,double secs)
{
  std::string fn=dir+"/stats."+std::to_string(wid)+"."+
    std::to_string((long)getpid())+".json";
  std::ofstream f(fn);
  const Stats& s=g_stats;
  f<<"{\"runs\":"<<runs<<",\"secs\":"<<secs<<",\"steps\":"<<s.steps
   <<",\"ops_ok\":"<<s.ops_ok<<",\"ops_failed\":"<<s.ops_failed
   <<",\"ops_intrinsic\":"<<s.ops_intrinsic<<",\"ops_skipped\":"<<s.ops_skipped
   <<",\"observations\":"<<s.observations<<",\"cursor_checks\":"
   <<s.cursor_checks<<",\"alias_growth\":"<<s.alias_growth
   <<",\"dup_lookups\":"<<s.dup_lookups<<",\"capacity_changes\":"<<s.growths
   <<",\"exhaust_inserts\":"<<s.exhaust_inserts<<",\"recoveries\":"
   <<s.recoveries<<",\"unequal_moves\":"<<s.unequal_moves
   <<",\"foreign_module_elements\":"<<s.foreign<<",\"segments_created\":"<<s.seg_created<<",\"side_scenario_steps\":"<<s.side<<",\"observations_over_13_types\":"<<s.wide<<",\"observations_over_100_elements\":"<<s.big<<",\"fired\":{";
  for(u32 k=0;k<FK_N;++k)f<<(k?",":"")<<"\""<<fk_name(k)<<"\":"
    <<g_faults.fired_total[k];
  f<<"},\"points\":{";
  for(u32 k=0;k<FK_N;++k)f<<(k?",":"")<<"\""<<fk_name(k)<<"\":"
    <<g_faults.points[k];
  f<<"},\"ops\":{";
  for(u32 k=0;k<OP_N;++k)f<<(k?",":"")<<"\""<<op_name(k)<<"\":["
    <<s.op_count[k]<<","<<s.op_failed[k]<<"]";
  f<<"}}\n";
  std::ofstream b(dir+"/states."+std::to_string(wid)+"."+
    std::to_string((long)getpid())+".bin",std::ios::binary);
  for(u64 h:g_states)b.write((const char*)&h,8);
  std::ofstream q(dir+"/runs."+std::to_string(wid)+"."+
    std::to_string((long)getpid())+".bin",std::ios::binary);
  for(u64 h:g_runs)q.write((const char*)&h,8);
}

#include <chrono>

int main(int argc,char** argv)
{
  auto usage=[&]{
    std::fprintf(stderr,"usage: --replay FILE [-v] | --gen PROF SEED RUN | "
      "--work PROF SEED WID NW FIRST SECONDS DIR\n");
    return 2;
  };
  if(argc<2)return usage();
  std::string mode=argv[1];
  g_heap.init();
  if(mode=="--gen"&&argc>=5){
    Trace t=gen_trace(argv[2],std::strtoull(argv[3],0,10),
      std::strtoull(argv[4],0,10),harness_name,SIM_POL);
    std::fputs(to_text(t).c_str(),stdout);
    return 0;
  }
  if(mode=="--replay"&&argc>=3){
    std::vector<Trace> ts;
    if(!from_file(argv[2],ts)){std::fprintf(stderr,"bad trace\n");return 2;}
    g_verbose=argc>3&&std::string(argv[3])=="-v";
    for(auto& t:ts){
      watchdog(20);
      exec_trace(t);
      if(g_violation.set)break;
    }
    print_result();
    std::_Exit(g_violation.set?10:0);
  }
  if(mode=="--work"&&argc>=9){
    std::string prof=argv[2];
    u64 seed=std::strtoull(argv[3],0,10);
    int wid=std::atoi(argv[4]),nw=std::atoi(argv[5]);
    u64 first=std::strtoull(argv[6],0,10);
    double secs=std::atof(argv[7]);
    std::string dir=argv[8];
    std::string sf=dir+"/status."+std::to_string(wid);
    int fd=::open(sf.c_str(),O_RDWR|O_CREAT,0644);
    if(fd<0||ftruncate(fd,64)!=0)return 3;
    auto st=(volatile u64*)mmap(nullptr,64,PROT_READ|PROT_WRITE,MAP_SHARED,fd,
      0);
    using clk=std::chrono::steady_clock;
    auto t0=clk::now();
    u64 n=0;
    for(u64 run=first;;run+=nw){
      double el=std::chrono::duration<double>(clk::now()-t0).count();
      if(el>=secs)break;
      st[0]=run;st[1]=1;
      watchdog(20);
      Trace t=gen_trace(prof,seed,run,harness_name,SIM_POL);
      u64 f0=g_stats.ops_failed+g_stats.ops_intrinsic,k0=g_stats.ops_ok,
        w0=g_stats.growths;
      exec_trace(t);
      ++n;
      /* non-trivial: work was done, and a failure or a capacity change met it */
      if(g_stats.ops_ok>=k0+3&&(g_stats.ops_failed+g_stats.ops_intrinsic>f0||
         g_stats.growths>w0))g_runs.insert(g_log);
      st[1]=0;
      if(g_violation.set){
        write_stats(dir,wid,n,el);
        print_result();
        std::_Exit(10);
      }
    }
    watchdog(0);
    write_stats(dir,wid,n,
      std::chrono::duration<double>(clk::now()-t0).count());
    std::printf("DONE %llu\n",(unsigned long long)n);
    std::fflush(stdout);
    std::_Exit(0);
  }
  return usage();
}
