// Simulator core: PRNG, fault engine, simulated heap + allocator, violation
// recording, event-log hash. Everything here is a pure function of the trace.
#ifndef SIM_CORE_HPP
#define SIM_CORE_HPP

#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <map>
#include <memory>
#include <new>
#include <set>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <typeinfo>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>
#include <sys/mman.h>

#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
#define SIM_POISON(p,n) __asan_poison_memory_region((p),(n))
#define SIM_UNPOISON(p,n) __asan_unpoison_memory_region((p),(n))
#else
#define SIM_POISON(p,n) ((void)0)
#define SIM_UNPOISON(p,n) ((void)0)
#endif

namespace sim{

using u8=std::uint8_t;
using u32=std::uint32_t;
using u64=std::uint64_t;

/* ---------------------------------------------------------------- PRNG */

inline u64 mix64(u64 z)
{
  z+=0x9e3779b97f4a7c15ull;
  z=(z^(z>>30))*0xbf58476d1ce4e5b9ull;
  z=(z^(z>>27))*0x94d049bb133111ebull;
  return z^(z>>31);
}

struct Rng
{
  u64 s;
  explicit Rng(u64 seed=1):s{mix64(seed^0x5bd1e995u)}{}
  u64 next(){s+=0x9e3779b97f4a7c15ull;u64 z=s;
    z=(z^(z>>30))*0xbf58476d1ce4e5b9ull;
    z=(z^(z>>27))*0x94d049bb133111ebull;return z^(z>>31);}
  u32 u(){return (u32)(next()>>32);}
  u32 below(u32 n){return n?(u32)((next()>>11)%n):0;}
  bool chance(u32 num,u32 den){return below(den)<num;}
};

/* ---------------------------------------------------------- violations */

struct Violation
{
  bool        set=false;
  std::string cls,msg;
  int         step=-1;
};

extern Violation g_violation;
extern int       g_step;     /* current step, -1 outside steps */
extern bool      g_in_op;    /* library call in progress: fault points live */
extern u64       g_log;      /* event-log hash */
extern bool      g_verbose;

inline void logv(u64 x){g_log=mix64(g_log^x)+0x1234567ull;}

[[gnu::noinline]] inline void fail(const char* cls,const std::string& msg)
{
  if(g_violation.set)return;
  g_violation.set=true;
  g_violation.cls=cls;
  g_violation.msg=msg;
  g_violation.step=g_step;
}

/* out-of-line message composition: keeps the instantiated code small */
constexpr std::size_t NOIDX=std::size_t(-1);
[[gnu::noinline]] inline void fail_at(
  const char* cls,const std::string& w,const char* what,std::size_t k,
  const char* text)
{
  if(g_violation.set)return;
  std::string m=w+what;
  if(k!=NOIDX)m+="["+std::to_string(k)+"]";
  fail(cls,m+text);
}
[[gnu::noinline]] inline void fail_n(
  const char* cls,const std::string& w,const char* what,const char* text,
  long long a,const char* text2="",long long b=0,const char* text3="")
{
  if(g_violation.set)return;
  std::string m=w+what+text+std::to_string(a);
  if(*text2)m+=text2+std::to_string(b)+text3;
  fail(cls,m);
}

/* --------------------------------------------------------------- faults */

enum FK:u32
{
  FK_ALLOC,FK_CTOR,FK_COPY,FK_MOVE,FK_MASSIGN,FK_EQ,
  FK_ITER,      /* user input iterator: dereference or increment */
  FK_CALL,      /* user predicate/callable */
  FK_OUT,       /* user output iterator assignment */
  FK_URBG,      /* user random bit generator */
  FK_N
};
inline const char* fk_name(u32 k)
{
  static const char* n[]={"alloc","ctor","copy","move_ctor","move_assign",
    "equality","input_iterator","callable","output_iterator","urbg"};
  return k<FK_N?n[k]:"?";
}

struct Injected{u32 kind;u64 serial;};
struct InjectedAlloc:std::bad_alloc
{
  u64 serial;
  explicit InjectedAlloc(u64 s):serial{s}{}
};

struct Faults
{
  u32  mask=0;        /* armed kinds */
  int  countdown=0;   /* eligible points to let through first */
  bool persistent=false;
  bool fired=false;   /* in this step */
  u32  fired_kind=0;
  u64  serial=0;
  u64  points[FK_N]={};     /* totals, for evidence */
  u64  fired_total[FK_N]={};
  u64  step_points=0;
  u64  ops_budget=0;        /* runaway guard */
  void arm(u32 m,int c,bool p){mask=m;countdown=c;persistent=p;fired=false;
    step_points=0;}
  void disarm(){mask=0;persistent=false;countdown=0;}
};
extern Faults g_faults;

/* true if the fault at this point must fire */
inline bool fault_hit(u32 k)
{
  if(!g_in_op)return false;
  ++g_faults.points[k];
  if(!(g_faults.mask&(1u<<k)))return false;
  ++g_faults.step_points;
  if(g_faults.countdown>0){--g_faults.countdown;return false;}
  if(g_faults.fired&&!g_faults.persistent)return false;
  g_faults.fired=true;
  g_faults.fired_kind=k;
  ++g_faults.fired_total[k];
  ++g_faults.serial;
  logv(0xFA000+k);
  return true;
}
inline void fault_point(u32 k)
{
  if(fault_hit(k)){
    if(k==FK_ALLOC)throw InjectedAlloc{g_faults.serial};
    throw Injected{k,g_faults.serial};
  }
}

/* scope in which harness code runs: no faults, no accounting of new/delete */
struct Quiet
{
  bool prev;
  Quiet():prev{g_in_op}{g_in_op=false;}
  ~Quiet(){g_in_op=prev;}
};
struct InOp
{
  bool prev;
  InOp():prev{g_in_op}{g_in_op=true;}
  ~InOp(){g_in_op=prev;}
};

/* --------------------------------------------------------- simulated heap */

enum HeapPolicy:u32
{
  HP_GUARD,     /* poisoned gaps, freed blocks never reused in the run */
  HP_ADJACENT,  /* zero gap, ascending; no reuse */
  HP_DESC,      /* zero gap, descending; no reuse */
  HP_LIFO,      /* zero gap, most recently freed block of the size reused */
  HP_RANDOM,    /* seeded gaps and reuse */
  HP_N
};

struct Block{std::size_t bytes;std::size_t size;u32 arena;u32 serial;};

struct Heap
{
  static constexpr std::size_t SIZE=std::size_t(64)<<20;
  unsigned char* base=nullptr;
  std::size_t lo=0,hi=SIZE;     /* bump cursors (ascending, descending) */
  u32 policy=HP_GUARD;
  Rng rng{1};
  u32 serial=0;
  std::unordered_map<const void*,Block> live;
  std::map<std::size_t,std::vector<unsigned char*>> freed;
  u64 nalloc=0,nfree=0,in_use=0,peak=0;
  u32 op_arenas=0;  /* allocators asked for memory in the current call */

  void init()
  {
    if(base)return;
    void* want=(void*)0x200000000000ull;
    void* p=mmap(want,SIZE,PROT_READ|PROT_WRITE,
      MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE,-1,0);
    if(p==MAP_FAILED||p!=want){
      std::fprintf(stderr,"sim: cannot map the simulated heap\n");
      std::_Exit(3);
    }
    base=(unsigned char*)p;
    SIM_POISON(base,SIZE);
  }
  void reset(u32 pol,u64 seed)
  {
    init();
    /* scrub what the previous run used */
    SIM_UNPOISON(base,lo);std::memset(base,0xDB,lo);SIM_POISON(base,lo);
    SIM_UNPOISON(base+hi,SIZE-hi);std::memset(base+hi,0xDB,SIZE-hi);
    SIM_POISON(base+hi,SIZE-hi);
    lo=64;hi=SIZE-64;policy=pol;rng=Rng{seed};serial=0;
    live.clear();freed.clear();nalloc=nfree=in_use=peak=0;
  }
  bool contains(const void* p)const
  {
    auto q=(const unsigned char*)p;return q>=base&&q<base+SIZE;
  }
  void* get(std::size_t bytes,std::size_t align,std::size_t size,u32 arena)
  {
    Quiet q;
    std::size_t need=(bytes+7)&~std::size_t(7);if(!need)need=8;
    if(align<8)align=8;
    unsigned char* p=nullptr;
    bool reuse=policy==HP_LIFO||(policy==HP_RANDOM&&rng.chance(1,2));
    if(reuse){
      auto it=freed.find(need);
      if(it!=freed.end()&&!it->second.empty()){
        auto c=it->second.back();
        if(((std::uintptr_t)c%align)==0){p=c;it->second.pop_back();}
      }
    }
    if(!p){
      std::size_t gap=0;
      if(policy==HP_GUARD)gap=32;
      else if(policy==HP_RANDOM)gap=8*rng.below(9);
      if(policy==HP_DESC){
        if(hi<need+align+gap+lo)return nullptr;
        hi-=need+gap;
        hi-=(std::size_t)((std::uintptr_t)(base+hi)%align);
        p=base+hi;
      }
      else{
        std::size_t a=(std::uintptr_t)(base+lo+gap)%align;
        std::size_t off=lo+gap+(a?align-a:0);
        if(off+need>hi)return nullptr;
        p=base+off;
        lo=off+need;
      }
    }
    SIM_UNPOISON(p,bytes?bytes:1);
    std::memset(p,0xAB,bytes);
    live[p]=Block{bytes,size,arena,serial++};
    ++nalloc;in_use+=bytes;if(in_use>peak)peak=in_use;
    return p;
  }
  /* returns false on a bad deallocation */
  bool put(void* p,std::size_t bytes,u32 arena,std::string& why)
  {
    Quiet q;
    auto it=live.find(p);
    if(it==live.end()){why="pointer is not a live block (double or wild free)";
      return false;}
    if(it->second.bytes!=bytes){
      why="block of "+std::to_string(it->second.bytes)+" bytes returned as "+
        std::to_string(bytes);
      return false;
    }
    if(it->second.arena!=arena){
      why="block of allocator "+std::to_string(it->second.arena)+
        " returned to allocator "+std::to_string(arena);
      return false;
    }
    in_use-=bytes;++nfree;
    live.erase(it);
    std::memset(p,0xCD,bytes);
    SIM_POISON(p,(bytes+7)&~std::size_t(7));
    std::size_t need=(bytes+7)&~std::size_t(7);if(!need)need=8;
    freed[need].push_back((unsigned char*)p);
    return true;
  }
};
extern Heap g_heap;

/* allocator domains ("arenas"): what stateful allocator objects point to */

constexpr u32 N_ARENA=8;  /* 0..3 user-chosen, 4..7 their soccc targets */

struct Arena
{
  u32 id=0;
  std::size_t max_count=0;   /* 0: default max_size */
  std::size_t max_bytes=0;   /* 0: none */
  u32 soccc=0;               /* id of select_on_container_copy_construction */
  u64 blocks=0;
};
extern Arena g_arena[N_ARENA];

/* accounting of allocator-mediated construct/destroy */
struct ElemAcc
{
  const void* constructing=nullptr;  /* address being constructed by an alloc */
  const void* destroying=nullptr;
  u64 n_construct=0,n_destroy=0;
  std::unordered_map<const void*,u32> by_alloc; /* live, by arena id */
};
extern ElemAcc g_acc;

template<typename T> struct is_element:std::false_type{};

template<typename T,typename Pol>
struct SimAlloc
{
  using value_type=T;
  using propagate_on_container_copy_assignment=typename Pol::pocca;
  using propagate_on_container_move_assignment=typename Pol::pocma;
  using propagate_on_container_swap=typename Pol::pocs;
  using is_always_equal=std::false_type;
  template<typename U> struct rebind{using other=SimAlloc<U,Pol>;};

  Arena* ar;

  SimAlloc():ar{&g_arena[0]}{}
  explicit SimAlloc(Arena* a):ar{a}{}
  SimAlloc(const SimAlloc&)=default;
  SimAlloc& operator=(const SimAlloc&)=default;
  template<typename U>
  SimAlloc(const SimAlloc<U,Pol>& x)noexcept:ar{x.ar}{}

  T* allocate(std::size_t n)
  {
    if(!g_in_op){
      /* library call made by the observer: allowed, never faulted */
    }
    fault_point(FK_ALLOC);
    void* p=nullptr;
    if(n<=Heap::SIZE/sizeof(T)){
      if(!(ar->max_bytes&&n*sizeof(T)>ar->max_bytes))
        p=g_heap.get(n*sizeof(T),alignof(T),sizeof(T),ar->id);
    }
    if(!p)throw std::bad_alloc{};
    ++ar->blocks;
    if(g_in_op)g_heap.op_arenas|=1u<<ar->id;
    logv(0xA110C000ull+n*sizeof(T)*16+ar->id);
    return static_cast<T*>(p);
  }
  void deallocate(T* p,std::size_t n)noexcept
  {
    std::string why;
    if(!g_heap.put(p,n*sizeof(T),ar->id,why)){
      Quiet q;fail("dealloc","deallocate: "+why);
      return;
    }
    --ar->blocks;
  }
  std::size_t max_size()const noexcept
  {
    if(ar->max_count)return ar->max_count;
    if(ar->max_bytes)return ar->max_bytes/sizeof(T);
    return std::size_t(-1)/2/sizeof(T);
  }
  SimAlloc select_on_container_copy_construction()const
  {
    return SimAlloc{&g_arena[ar->soccc]};
  }

  template<typename U,typename... Args>
  void construct(U* p,Args&&... args)
  {
    if(!is_element<U>::value){
      Quiet q;fail("construct",
        std::string("allocator construct called for a non-element type ")+
        typeid(U).name());
    }
    ++g_acc.n_construct;
    auto prev=g_acc.constructing;
    g_acc.constructing=p;
    try{
      ::new((void*)p) U(std::forward<Args>(args)...);
    }
    catch(...){
      g_acc.constructing=prev;
      throw;
    }
    g_acc.constructing=prev;
    {
      Quiet q;
      auto r=g_acc.by_alloc.emplace((const void*)p,ar->id);
      if(!r.second)fail("lifetime","construct over a live element");
    }
  }
  template<typename U>
  void destroy(U* p)noexcept
  {
    if(!is_element<U>::value){
      Quiet q;fail("construct",
        std::string("allocator destroy called for a non-element type ")+
        typeid(U).name());
    }
    ++g_acc.n_destroy;
    {
      Quiet q;
      auto it=g_acc.by_alloc.find((const void*)p);
      if(it==g_acc.by_alloc.end())
        fail("construct","destroy of an object not constructed by an allocator");
      else{
        if(it->second!=ar->id)
          fail("construct","element constructed by allocator "+
            std::to_string(it->second)+" destroyed by allocator "+
            std::to_string(ar->id));
        g_acc.by_alloc.erase(it);
      }
    }
    auto prev=g_acc.destroying;
    g_acc.destroying=p;
    p->~U();
    g_acc.destroying=prev;
  }
};

template<typename T,typename U,typename P>
bool operator==(const SimAlloc<T,P>& x,const SimAlloc<U,P>& y)noexcept
{return x.ar==y.ar;}
template<typename T,typename U,typename P>
bool operator!=(const SimAlloc<T,P>& x,const SimAlloc<U,P>& y)noexcept
{return x.ar!=y.ar;}

template<bool A,bool M,bool S>
struct Policy
{
  using pocca=std::integral_constant<bool,A>;
  using pocma=std::integral_constant<bool,M>;
  using pocs=std::integral_constant<bool,S>;
};

/* --------------------------------------------------- foreign-module objects
 * An object of type E as another dynamic module would have constructed it:
 * its vtable refers to that module's own std::type_info object for E (Itanium
 * ABI; E has a single vptr at offset 0, NF virtual functions and exactly one
 * direct base). */
template<typename E>
const std::type_info& foreign_info()
{
  static void* w[3];
  static char  name[256];
  if(!w[0]){
    std::memcpy(w,(const void*)&typeid(E),sizeof w);
    std::strncpy(name,typeid(E).name(),sizeof name-1);
    w[1]=name;
  }
  return *reinterpret_cast<const std::type_info*>(w);
}
template<typename E,int NF>
[[gnu::noinline]] __attribute__((no_sanitize("address")))
void make_foreign(E& x)
{
  static void* vt[NF+2];
  void*** p=reinterpret_cast<void***>(std::addressof(x));
  if(!vt[1]){
    for(int k=0;k<NF+2;++k)vt[k]=(*p)[k-2];
    vt[1]=(void*)&foreign_info<E>();
  }
  *p=vt+2;
  __asm__ volatile("":::"memory");
}

/* ------------------------------------------------ global operator new seam */

struct NewAcc{u64 in_op=0;};
extern NewAcc g_new;

} /* namespace sim */

#endif
