// Algorithm simulator: histories of a collection interleaved with algorithm
// calls whose callables, iterators and generators fail at seeded points.
#include "alg.hpp"
#include "driver.hpp"

namespace sim{
Violation g_violation;
int g_step=-1;
bool g_in_op=false;
u64 g_log=0;
bool g_verbose=false;
Faults g_faults;
Heap g_heap;
Arena g_arena[N_ARENA];
ElemAcc g_acc;
NewAcc g_new;
Log g_alog;
AlgFn g_alg_table[AL_N][NTS][2];
std::unordered_set<u64> g_states,g_runs;

void alg_reg1();
void alg_reg2();
void alg_reg3();

struct AStats
{
  u64 steps=0,alg_calls=0,alg_failed=0,mods=0,boundary=0,empty_seg=0,
    restituted=0,foreign=0;
  u64 op[AL_N][2]={};
}g_as;
u64 run_alg_=0,run_failed_=0;

const u32 ts_mask[NTS]={0,2,9,31};

#if SIM_KIND==0
template<typename E> void put(C& c,u32 id,u32 key){c.insert(E(id,key));}
#else
template<typename E> void put(C& c,u32 id,u32 key){c.insert(E(id,key));}
#endif
template<typename F> void with(u32 t,F f)
{
  switch(t%AT){
    case 0:f((A0*)nullptr);break;
    case 1:f((A1*)nullptr);break;
    case 2:f((A2*)nullptr);break;
    case 3:f((A3*)nullptr);break;
    default:f((A4*)nullptr);break;
  }
}

struct World
{
  C c;
  u32 next_id=1;
  explicit World():c{AAl{&g_arena[0]}}{}

  void flat(std::vector<Ref>& v)
  {
    v.clear();
    std::size_t g=0;
    for(auto s:c.segment_traversal()){
      for(auto i=s.begin();i!=s.end();++i){
        Info x=info_iface(*i);
        v.push_back(Ref{x.tag,x.id,x.key,x.addr,g++});
      }
    }
  }

  bool bulk=false;

  void alg_step(const Step& s)
  {
    u32 al=s.p[0]%AL_N,ts=s.p[1]%NTS;
    bool cn=s.p[1]&0x100;
    Rng r{mix64(((u64)s.p[2]<<32)|s.p[3])};
    Ctx x{};
    x.s=&s;x.alg=al;x.c=&c;
    flat(x.all);
    std::size_t n=x.all.size();
    x.tsmask=ts_mask[ts];x.cnst=cn;
    /* range: whole, or seeded with a bias to segment boundaries */
    auto cut=[&]{
      std::size_t k=r.below((u32)n+1);
      if(r.chance(1,2)){
        std::vector<std::size_t> b{0,n};
        for(std::size_t q=1;q<n;++q)
          if(x.all[q].tag!=x.all[q-1].tag)b.push_back(q);
        k=b[r.below((u32)b.size())];
      }
      return k;
    };
    if(s.p[4]%3==0){x.a=0;x.b=n;}
    else{x.a=cut();x.b=cut();if(x.a>x.b)std::swap(x.a,x.b);}
    x.r.assign(x.all.begin()+x.a,x.all.begin()+x.b);
    x.mid=r.chance(1,3)?x.a:cut();
    u32 dom=1+s.p[5]%6;
    x.cond.mode=r.below(8)?r.below(2):2;
    x.cond.b=1+r.below(4);
    x.cond.a=x.cond.mode==1?r.below(dom+1):r.below(8);
    if(r.chance(1,4)&&!x.r.empty()){ /* exactly one element (dis)satisfies */
      x.cond.mode=3;
      std::size_t k=r.below((u32)x.r.size());
      if(r.chance(1,2))x.cond.first_ids.push_back(x.r[k].id);
      else for(auto& e:x.r)if(e.id!=x.r[k].id)x.cond.first_ids.push_back(e.id);
    }
    x.m2=r.below(3);
    /* second range: copied from the first (possibly perturbed) or random */
    u32 how=r.below(5);
    if(how<3&&!x.r.empty()){
      std::size_t i=r.below((u32)x.r.size()),j=i;
      if(how==0){i=0;j=x.r.size();}
      else j=i+1+r.below(std::min<u32>(4,(u32)(x.r.size()-i)));
      for(;i<j;++i)x.k2.push_back(KeyV{x.r[i].key});
      if(r.chance(1,3))x.k2[r.below((u32)x.k2.size())].k=r.below(dom+1);
      if(r.chance(1,4))x.k2.push_back(KeyV{r.below(dom+1)});
      if(r.chance(1,4)){ /* permute */
        for(std::size_t k=x.k2.size();k>1;--k)
          std::swap(x.k2[k-1],x.k2[r.below((u32)k)]);
      }
    }
    else{
      u32 l=r.below(5);
      for(u32 k=0;k<l;++k)x.k2.push_back(KeyV{r.below(dom+1)});
    }
    x.n=r.chance(1,4)?n:r.chance(1,4)?r.below((u32)n+1):r.below(6);
    if(r.chance(1,8))x.n=n+r.below(3);
    x.key=r.below(dom+1);
    if(!x.r.empty()&&r.chance(1,2))x.key=x.r[r.below((u32)x.r.size())].key;
    x.key2=r.below(16);
    x.run_seed=r.u();
    /* sub-counts for evidence */
    for(std::size_t q=x.a+1;q<x.b;++q)if(x.all[q].tag!=x.all[q-1].tag)
      {++g_as.boundary;break;}
    for(auto sg:c.segment_traversal())if(sg.begin()==sg.end())
      {++g_as.empty_seg;break;}
    std::vector<Ref> before=x.all;
    g_alg_table[al][ts][cn](x);
    ++g_as.alg_calls;++g_as.op[al][0];++run_alg_;
    if(x.threw){++g_as.alg_failed;++g_as.op[al][1];++run_failed_;}
    if(ts)++g_as.restituted;
    u64 h=mix64(al*64+ts*8+cn*4+x.threw*2);
    /* abstract shape: sizes of runs of types, range cut positions */
    for(auto sg:c.segment_traversal()){
      std::size_t z=(std::size_t)(sg.end()-sg.begin());
      h=mix64(h^std::min<std::size_t>(z,4));
    }
    h=mix64(h^(x.a*31+x.b));
    if(g_states.size()<400000)g_states.insert(h);
    if(g_violation.set)return;
    if(s.fmask)return_check(x,before);else return_check(x,before);
  }
  void return_check(Ctx& x,const std::vector<Ref>& before)
  {
    std::vector<Ref> now;
    flat(now);
    if(now.size()!=before.size())
      {fail("algexc",x.w()+"changed the collection's size");return;}
    for(std::size_t k=0;k<now.size();++k)
      if(now[k].addr!=before[k].addr||now[k].id!=before[k].id||
         now[k].key!=before[k].key||now[k].tag!=before[k].tag)
        {fail("algexc",x.w()+"changed element "+std::to_string(k));return;}
    for(auto& e:before)logv(e.id);
  }

  /* insert from a collection filled by another dynamic module: a new segment
   * gets registered under that module's type_info */
  template<typename E>
  void put_foreign(u32 id,u32 key)
  {
    C d{typename C::allocator_type{&g_arena[0]}};
    put<E>(d,id,key);
#if SIM_KIND==0
    if constexpr(atag<E>::value==1||atag<E>::value==2||atag<E>::value==4)
      make_foreign<E,3>(*d.template begin<E>());
#endif
    c.insert(d.begin(),d.end());
    ++g_as.foreign;
  }

  void run_step(const Step& s)
  {
    ++g_as.steps;
    u32 op=s.op%AO_N;
    if(op!=AO_ALG)++g_as.mods;
    logv(op);
    switch(op){
      case AO_INSERT:{
        u32 t=s.p[0]%AT,n=1+s.p[2]%4,dom=1+s.p[5]%6;
        if(bulk&&s.p[6]%3==0)n=1+s.p[2]%150;
        if(c.size()>(bulk?400u:48u))break;
        for(u32 k=0;k<n;++k){
          u32 key=s.p[3]%8==4?s.p[1]%(dom+1)+k: /* ascending */
            s.p[3]&1?mix64(s.p[1]+k)%(dom+1):s.p[1]%(dom+1);
          with(t,[&](auto* e){
            using E=typename std::remove_pointer<decltype(e)>::type;
            if(s.p[4]%6==0)this->template put_foreign<E>(next_id,key);
            else put<E>(c,next_id,key);});
          ++next_id;
        }
      }break;
      case AO_ERASE:{
        std::size_t n=c.size();
        if(!n)break;
        std::size_t k=s.p[0]%n,l=std::min<std::size_t>(n,k+1+s.p[1]%6);
        iter_t a=c.begin();while(k--)++a,--l;
        if(s.p[2]&1)c.erase(a);
        else{iter_t b=a;while(l--)++b;c.erase(a,b);}
      }break;
      case AO_REG:with(s.p[0],[&](auto* e){
        using E=typename std::remove_pointer<decltype(e)>::type;
        c.template register_types<E>();});break;
      case AO_CLEAR:with(s.p[0],[&](auto* e){
        using E=typename std::remove_pointer<decltype(e)>::type;
        if(s.p[1]%4==0)c.clear();
        else if(c.template is_registered<E>())c.template clear<E>();});break;
      case AO_SHRINK:c.shrink_to_fit();break;
      case AO_RESERVE:with(s.p[0],[&](auto* e){
        using E=typename std::remove_pointer<decltype(e)>::type;
        c.template reserve<E>(s.p[1]%12);});break;
      default:alg_step(s);
    }
  }
};
alignas(World) unsigned char world_mem[sizeof(World)];

void exec(const Trace& t)
{
  static bool init=false;
  if(!init){
    init=true;alg_reg1();alg_reg2();alg_reg3();
    for(u32 a=0;a<AL_N;++a)for(int k=0;k<NTS;++k)for(int q=0;q<2;++q)
      if(!g_alg_table[a][k][q]){
        std::fprintf(stderr,"algorithm %s not registered\n",alg_name(a));
        std::_Exit(3);
      }
  }
  g_violation=Violation{};
  g_step=-1;g_in_op=false;g_log=0x1234;
  u64 pt[FK_N],ft[FK_N];
  std::memcpy(pt,g_faults.points,sizeof pt);
  std::memcpy(ft,g_faults.fired_total,sizeof ft);
  g_faults=Faults{};
  std::memcpy(g_faults.points,pt,sizeof pt);
  std::memcpy(g_faults.fired_total,ft,sizeof ft);
  g_heap.reset(t.cfg.heap%HP_N,t.cfg.heapseed);
  g_acc=ElemAcc{};
  g_alog=Log{};
  for(u32 k=0;k<N_ARENA;++k){g_arena[k]=Arena{};g_arena[k].id=k;
    g_arena[k].soccc=k;}
  run_alg_=run_failed_=0;
  World* w=::new((void*)world_mem) World;
  w->bulk=(t.cfg.grow&G_BULK)!=0;
  for(std::size_t k=0;k<t.steps.size()&&!g_violation.set;++k){
    g_step=(int)k;
    const Step& s=t.steps[k];
    if(g_verbose){
      static const char* on[]={"insert","erase","register","clear","shrink",
        "reserve","algorithm"};
      std::printf("  [%zu] %s",k,on[s.op%AO_N]);
      if(s.op%AO_N==AO_ALG)std::printf(" %s<Ts %u>%s fault=%x@%u",
        alg_name(s.p[0]%AL_N),ts_mask[s.p[1]%NTS],
        s.p[1]&0x100?" const":"",s.fmask,s.fcount);
      else std::printf(" p=%u,%u,%u,%u",s.p[0],s.p[1],s.p[2],s.p[3]);
      std::printf("\n");
    }
    w->run_step(s);
    if(g_verbose){
      if(s.op%AO_N==AO_ALG){
        if(g_faults.fired)std::printf("      fault fired: %s\n",
          fk_name(g_faults.fired_kind));
      }
      else{
        std::printf("      ");
        for(auto sg:w->c.segment_traversal()){
          std::printf("{");
          for(auto& e:sg){Info i=info_iface(e);
            std::printf(" %u:%u/%u",i.tag,i.id,i.key);}
          std::printf(" } ");
        }
        std::printf("\n");
      }
      std::fflush(stdout);
    }
  }
  if(!g_violation.set){
    w->~World();
    if(!g_heap.live.empty())fail("leak","memory left behind");
  }
}

Trace gen(const std::string& prof,u64 seed,u64 run)
{
  Trace t;
  t.harness="alg-" SIM_KIND_NAME;
  t.prof=prof;t.seed=seed;t.run=run;
  Rng r{mix64(seed*0x10001+run)^hash_str_(t.harness+prof)};
  bool rest=prof=="C14";
  t.cfg.heap=r.chance(1,2)?(r.chance(1,2)?HP_ADJACENT:HP_DESC):r.below(HP_N);
  t.cfg.heapseed=r.u();
  u32 dom=r.u();
  u32 types=r.chance(1,3)?31:1+r.below(31);
  u32 fp=r.chance(1,4)?0:rest?15:25;
  auto type=[&]{u32 k;do k=r.below(AT);while(!(types>>k&1));return k;};
  u32 len=6+r.below(28);
  if(r.chance(1,24)){t.cfg.grow|=G_BULK;if(len>16)len=16;}
  u32 only=r.chance(1,5)?r.below(AL_N):AL_N; /* concentrate on one algorithm */
  for(u32 k=0;k<len;++k){
    Step s;
    for(auto& q:s.p)q=r.u();
    s.p[5]=dom;
    u32 x=r.below(100);
    if(k<3||x<22){s.op=AO_INSERT;s.p[0]=type();}
    else if(x<27)s.op=AO_ERASE;
    else if(x<31){s.op=AO_REG;s.p[0]=type();}
    else if(x<34){s.op=AO_CLEAR;s.p[0]=type();}
    else if(x<36)s.op=AO_SHRINK;
    else if(x<38){s.op=AO_RESERVE;s.p[0]=type();}
    else{
      s.op=AO_ALG;
      s.p[0]=only<AL_N?only:r.below(AL_N);
      if(s.p[0]==AL_SAMPLE_U&&!r.chance(1,6))s.p[0]=AL_SAMPLE;
      s.p[1]=(r.chance(rest?4:3,5)?1+r.below(NTS-1):0)|(r.u()&0x100);
      if(r.chance(fp,100)){
        u32 g=r.below(4);
        s.fmask=g==0?(1u<<FK_CALL)|(1u<<FK_EQ):g==1?(1u<<FK_OUT):
          g==2?(1u<<FK_ITER)|(1u<<FK_URBG):
          (1u<<FK_CALL)|(1u<<FK_EQ)|(1u<<FK_OUT)|(1u<<FK_ITER)|(1u<<FK_URBG);
        s.fcount=r.chance(2,3)?r.below(4):r.below(t.cfg.grow?400:20);
        s.fpers=r.chance(1,5);
      }
    }
    t.steps.push_back(s);
  }
  return t;
}

void stats(std::ostream& f)
{
  f<<",\"steps\":"<<g_as.steps<<",\"algorithm_calls\":"<<g_as.alg_calls
   <<",\"algorithm_calls_failed\":"<<g_as.alg_failed
   <<",\"modifications\":"<<g_as.mods
   <<",\"calls_across_a_segment_boundary\":"<<g_as.boundary
   <<",\"calls_with_an_empty_segment\":"<<g_as.empty_seg
   <<",\"calls_with_type_restitution\":"<<g_as.restituted
   <<",\"foreign_module_inserts\":"<<g_as.foreign<<",\"fired\":{";
  for(u32 k=0;k<FK_N;++k)f<<(k?",":"")<<"\""<<fk_name(k)<<"\":"
    <<g_faults.fired_total[k];
  f<<"},\"points\":{";
  for(u32 k=0;k<FK_N;++k)f<<(k?",":"")<<"\""<<fk_name(k)<<"\":"
    <<g_faults.points[k];
  f<<"},\"ops\":{";
  for(u32 k=0;k<AL_N;++k)f<<(k?",":"")<<"\""<<alg_name(k)<<"\":["
    <<g_as.op[k][0]<<","<<g_as.op[k][1]<<"]";
  f<<"}";
}
bool nontrivial(){return run_alg_>=2;}

} /* namespace sim */

int main(int argc,char** argv)
{
  using namespace sim;
  DriverHooks h{exec,gen,stats,nontrivial};
  return driver_main(argc,argv,h,g_states,g_runs);
}
