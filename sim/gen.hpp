// Seeded generation of traces: a trace is a pure function of
// (profile, seed, run, allocator policy).
#ifndef SIM_GEN_HPP
#define SIM_GEN_HPP

#include "world.hpp"

namespace sim{

struct Profile
{
  u32 w[OP_N];
  u32 fault_pct;         /* steps with a fault armed */
  u32 kinds;             /* armed kinds */
  u32 pers_pct;
  u32 minlen,maxlen;
  u32 dup_pct,maxc_pct,soccc_pct;
  u32 arenas;            /* max */
  u32 wide_pct=4,bulk_pct=4,mid_pct=16;
  Profile()
  {
    for(auto& x:w)x=4;
    w[OP_INSERT]=26;w[OP_RANGE]=12;w[OP_ERASE]=9;w[OP_ERASE_RANGE]=5;
    w[OP_NEW]=3;w[OP_DESTROY]=1;w[OP_CLEAR]=1;w[OP_CLEAR_T]=2;w[OP_EQ]=3;
    w[OP_MUTATE]=3;w[OP_UNREG]=3;w[OP_CURSOR]=4;w[OP_EXHAUST]=2;
    w[OP_FILL]=0;w[OP_WIDE]=0;w[OP_SIDE]=1;w[OP_LENGTH]=1;w[OP_ITERS]=1;w[OP_SELFASSIGN]=1;w[OP_REG]=3;
    w[OP_RESERVE]=3;w[OP_RESERVE_T]=4;w[OP_SHRINK]=2;w[OP_SHRINK_T]=3;
    w[OP_COPYC]=2;w[OP_COPYC_AL]=2;w[OP_MOVEC]=2;w[OP_MOVEC_AL]=2;
    w[OP_RANGEC]=2;w[OP_CASSIGN]=2;w[OP_MASSIGN]=3;w[OP_SWAP]=3;
    fault_pct=30;
    kinds=(1u<<FK_ALLOC)|(1u<<FK_CTOR)|(1u<<FK_COPY)|(1u<<FK_MOVE)|
      (1u<<FK_MASSIGN)|(1u<<FK_EQ)|(1u<<FK_ITER);
    pers_pct=15;minlen=6;maxlen=36;dup_pct=25;maxc_pct=12;soccc_pct=25;
    arenas=3;
  }
};

inline Profile make_profile(const std::string& n)
{
  Profile p;
  auto& w=p.w;
  if(n=="C01"){p.fault_pct=15;w[OP_INSERT]=40;w[OP_RANGE]=22;w[OP_ERASE]=16;
    w[OP_ERASE_RANGE]=12;}
  else if(n=="C02"){p.fault_pct=30;w[OP_ITERS]=6;}
  else if(n=="C03"){p.fault_pct=60;w[OP_INSERT]=50;w[OP_RESERVE]=8;
    w[OP_RESERVE_T]=12;w[OP_SHRINK]=6;w[OP_SHRINK_T]=8;w[OP_REG]=8;
    w[OP_RANGE]=4;}
  else if(n=="C04"){p.fault_pct=60;w[OP_RANGE]=24;w[OP_MASSIGN]=6;
    w[OP_CASSIGN]=6;w[OP_MOVEC_AL]=5;}
  else if(n=="C05"){p.fault_pct=45;}
  else if(n=="C06"){p.fault_pct=25;p.soccc_pct=60;p.arenas=4;
    w[OP_COPYC]=8;w[OP_COPYC_AL]=8;w[OP_MOVEC]=6;w[OP_MOVEC_AL]=8;
    w[OP_CASSIGN]=10;w[OP_MASSIGN]=10;w[OP_SWAP]=8;w[OP_RANGEC]=6;}
  else if(n=="C07"){p.fault_pct=30;p.arenas=3;
    w[OP_COPYC]=8;w[OP_COPYC_AL]=8;w[OP_MOVEC]=8;w[OP_MOVEC_AL]=8;
    w[OP_CASSIGN]=10;w[OP_MASSIGN]=10;w[OP_SWAP]=8;w[OP_SELFASSIGN]=5;}
  else if(n=="C08"){p.fault_pct=15;w[OP_CURSOR]=22;w[OP_ITERS]=5;w[OP_SWAP]=6;
    w[OP_ERASE]=14;w[OP_ERASE_RANGE]=8;w[OP_RESERVE_T]=8;w[OP_COPYC]=1;
    w[OP_MOVEC]=1;w[OP_MASSIGN]=1;w[OP_CASSIGN]=1;w[OP_REG]=5;}
  else if(n=="C09"){p.fault_pct=35;p.pers_pct=60;
    p.kinds=(1u<<FK_ALLOC);w[OP_EXHAUST]=16;w[OP_LENGTH]=8;
    w[OP_RESERVE]=6;w[OP_RESERVE_T]=12;w[OP_SHRINK_T]=6;w[OP_ERASE]=12;
    w[OP_CLEAR_T]=5;w[OP_CLEAR]=3;w[OP_SWAP]=6;p.maxc_pct=45;
    w[OP_RANGE]=16;}
  else if(n=="C10"){p.wide_pct=25;p.fault_pct=25;p.dup_pct=80;w[OP_REG]=14;w[OP_UNREG]=20;
    w[OP_CLEAR_T]=5;w[OP_RESERVE_T]=8;w[OP_SHRINK_T]=6;w[OP_MUTATE]=8;
    p.kinds=(1u<<FK_ALLOC)|(1u<<FK_CTOR);}
  else if(n=="C11"){p.fault_pct=8;w[OP_EQ]=14;w[OP_COPYC]=8;w[OP_COPYC_AL]=8;
    w[OP_CASSIGN]=10;w[OP_RANGE]=20;w[OP_RANGEC]=8;w[OP_MOVEC_AL]=6;}
  else if(n=="C12"){p.fault_pct=20;w[OP_EQ]=40;w[OP_COPYC]=10;w[OP_CASSIGN]=8;
    p.kinds=(1u<<FK_EQ)|(1u<<FK_ALLOC);w[OP_ERASE]=12;w[OP_REG]=6;
    w[OP_RANGE]=18;w[OP_SWAP]=4;w[OP_COPYC_AL]=8;}
  else if(n=="C19"){p.fault_pct=10;w[OP_FILL]=6;w[OP_ERASE]=14;
    w[OP_ERASE_RANGE]=8;w[OP_COPYC]=5;w[OP_MOVEC]=4;w[OP_MASSIGN]=5;
    w[OP_CASSIGN]=5;w[OP_EQ]=8;w[OP_RANGE]=18;}
  else if(n=="C17"){w[OP_SIDE]=5;p.fault_pct=25;w[OP_MUTATE]=20;w[OP_SHRINK_T]=8;
    w[OP_SHRINK]=5;w[OP_RESERVE_T]=8;w[OP_ITERS]=3;}
  return p;
}

inline u64 hash_str(const std::string& s)
{
  u64 h=0xcbf29ce484222325ull;
  for(unsigned char c:s)h=(h^c)*0x100000001b3ull;
  return h;
}

inline Trace gen_trace(
  const std::string& prof,u64 seed,u64 run,const char* harness,int pol)
{
  Trace t;
  t.harness=std::string(harness)+"-"+std::to_string(pol);
  t.prof=prof;t.seed=seed;t.run=run;
  Profile p=make_profile(prof);
  Rng r{mix64(seed*0x10001+run)^hash_str(t.harness+prof)};
  Config& c=t.cfg;
  c.heap=r.below(HP_N);c.heapseed=r.u();
  c.types=0;
  int nt=1+(int)r.below(4);
  if(r.chance(1,5))c.types=0xff;
  else for(int k=0;k<nt;++k)c.types|=1u<<r.below(NT);
  /* comparable/copyable-only worlds explore copies and equality deeper */
  if(r.chance(1,4))c.types&=~((1u<<2)|(1u<<5));
  if(!c.types)c.types=1u<<r.below(2);
  c.soccc=r.chance(p.soccc_pct,100);
  c.maxcount=r.chance(p.maxc_pct,100)?8+r.below(8):0;
  c.arenas=1+r.below(p.arenas);
  c.dup=r.chance(p.dup_pct,100)?r.u()&ALLT:0;
  c.grow=0;
  if(r.chance(p.wide_pct,100))c.grow|=G_WIDE;
  if(r.chance(p.bulk_pct,100)){c.grow|=G_BULK;c.maxcount=0;}
  else if(r.chance(p.mid_pct,100)){c.grow|=G_MID;c.maxcount=0;}
  u32 tot=0;
  u32 w[OP_N];
  for(u32 k=0;k<OP_N;++k){
    w[k]=p.w[k];
    if(k==OP_WIDE&&(c.grow&G_WIDE))w[k]=10;
    if(k==OP_FILL&&(c.grow&(G_BULK|G_MID)))w[k]=10;
    /* swarm: switch some operations off in this run */
    if(k!=OP_INSERT&&k!=OP_NEW&&r.chance(1,6))w[k]=0;
    tot+=w[k];
  }
  u32 fp=p.fault_pct;
  if(r.chance(1,6))fp=0;
  else if(r.chance(1,6))fp=90;
  u32 kinds=p.kinds;
  if(r.chance(1,3)){ /* one kind only */
    u32 l[FK_N],n=0;
    for(u32 k=0;k<FK_N;++k)if(kinds&(1u<<k))l[n++]=k;
    kinds=1u<<l[r.below(n)];
  }
  u32 len=p.minlen+r.below(p.maxlen-p.minlen+1);
  if(r.chance(1,12)&&!(c.grow&(G_BULK|G_MID)))len*=4;
  if((c.grow&G_BULK)&&len>20)len=20;
  /* opening: make two collections */
  for(u32 k=0;k<2;++k){
    Step s;s.op=OP_NEW;s.p[0]=k;s.p[1]=r.u();s.p[3]=1;
    t.steps.push_back(s);
  }
  for(u32 k=0;k<len;++k){
    Step s;
    u32 x=r.below(tot);
    for(u32 o=0;o<OP_N;++o){if(x<w[o]){s.op=o;break;}x-=w[o];}
    for(auto& q:s.p)q=r.u();
    if(r.chance(fp,100)){
      s.fmask=kinds;
      if(r.chance(1,3)){
        u32 l[FK_N],n=0;
        for(u32 z=0;z<FK_N;++z)if(kinds&(1u<<z))l[n++]=z;
        s.fmask=1u<<l[r.below(n)];
      }
      u32 g=r.below(10);
      if((c.grow&G_BULK)&&g>=8)g=10;
      if((c.grow&G_MID)&&g>=8)g=11;
      s.fcount=g==10?r.below(400):g==11?r.below(120):g<4?r.below(3):g<8?r.below(8):r.below(30);
      s.fpers=r.chance(p.pers_pct,100);
    }
    t.steps.push_back(s);
  }
  return t;
}

} /* namespace sim */

#endif
