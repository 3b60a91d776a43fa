// Traces: the complete, replayable description of one simulated execution.
#ifndef SIM_TRACE_HPP
#define SIM_TRACE_HPP

#include "core.hpp"
#include <fstream>
#include <sstream>

namespace sim{

constexpr int NP=8;

struct Step
{
  u32 op=0;
  u32 p[NP]={};
  u32 fmask=0,fcount=0,fpers=0;
};

enum{G_WIDE=1,G_BULK=2,G_MID=4};

struct Config
{
  u32 heap=0;        /* HeapPolicy */
  u32 heapseed=0;
  u32 types=0xff;    /* enabled element types */
  u32 soccc=0;       /* arenas' copy-construction hook returns another arena */
  u32 maxcount=0;    /* allocator max_size, 0: unbounded */
  u32 arenas=2;      /* number of distinct user arenas */
  u32 grow=0;        /* G_WIDE: many types, G_BULK: many elements,
                      * G_MID: dozens */
  u32 dup=0;         /* name types through duplicate type_info objects */
};

struct Trace
{
  std::string harness;      /* binary identity, e.g. seq-base-0 */
  std::string prof;         /* property profile it was generated for */
  u64         seed=0;
  u64         run=0;
  Config      cfg;
  std::vector<Step> steps;
};

inline std::string to_text(const Trace& t)
{
  std::ostringstream o;
  o<<"harness "<<t.harness<<"\n";
  o<<"profile "<<t.prof<<"\n";
  o<<"seed "<<t.seed<<"\nrun "<<t.run<<"\n";
  const Config& c=t.cfg;
  o<<"cfg "<<c.heap<<' '<<c.heapseed<<' '<<c.types<<' '<<c.soccc<<' '
   <<c.maxcount<<' '<<c.arenas<<' '<<c.grow<<' '<<c.dup<<"\n";
  for(const auto& s:t.steps){
    o<<"step "<<s.op;
    for(auto x:s.p)o<<' '<<x;
    o<<" fault "<<s.fmask<<' '<<s.fcount<<' '<<s.fpers<<"\n";
  }
  return o.str();
}

/* a replay file holds one trace, or several to be run in one process */
inline bool from_file(const char* fn,std::vector<Trace>& ts)
{
  std::ifstream f(fn);
  if(!f)return false;
  std::string line;
  while(std::getline(f,line)){
    if(line.empty()||line[0]=='#')continue;
    std::istringstream i(line);
    std::string k;i>>k;
    if(k=="harness"||ts.empty())ts.emplace_back();
    Trace& t=ts.back();
    if(k=="harness")i>>t.harness;
    else if(k=="profile")i>>t.prof;
    else if(k=="seed")i>>t.seed;
    else if(k=="run")i>>t.run;
    else if(k=="cfg"){
      Config& c=t.cfg;
      i>>c.heap>>c.heapseed>>c.types>>c.soccc>>c.maxcount>>c.arenas>>c.grow
       >>c.dup;
      if(!i)return false;
    }
    else if(k=="step"){
      Step s;i>>s.op;
      for(auto& x:s.p)i>>x;
      std::string w;i>>w>>s.fmask>>s.fcount>>s.fpers;
      if(!i)return false;
      t.steps.push_back(s);
    }
  }
  return !ts.empty();
}

} /* namespace sim */

#endif
