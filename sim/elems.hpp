// Element types. Every special member is instrumented (identity, lifetime,
// fault point); traits vary by group G.
#ifndef SIM_ELEMS_HPP
#define SIM_ELEMS_HPP

#include "core.hpp"

namespace sim{

struct ElemStats
{
  u64 ctor=0,copy=0,move=0,massign=0,cassign=0,eq=0,dtor=0;
};
extern ElemStats g_es;                  /* totals in the current run */
extern std::unordered_set<const void*> g_live_elems;
extern u64 g_elem_events;               /* runaway guard */

constexpr u32 MAGIC_ALIVE=0xA11FE5EDu,MAGIC_DEAD=0xDEADDEADu;
constexpr u32 MOVED=0;                  /* id of moved-from elements */

struct Arg{u32 id;};                    /* constructor argument */

/* constructor argument sensitive to how it is forwarded: the constructor taken
 * leaves its mark */
struct FArg{u32 id;mutable int cat=0;};
enum{FA_RVAL=1,FA_LVAL=2,FA_CLVAL=3};
constexpr u32 DEFAULT_ID=0x7000000u;    /* id of value-initialised elements */
constexpr u32 XCONV=0x40000000u;        /* E0 made from an E1 */

struct Runaway{};
inline void elem_event()
{
  if(++g_elem_events>20000000ull){
    std::fprintf(stderr,"sim: runaway element operations\n");
    std::abort();
  }
}

/* group traits */
struct GTraits
{
  bool copyable,assignable,eq,nothrow_move,nothrow_assign,can_throw_copy;
};
constexpr GTraits gt(int g)
{
  return
    g==0? GTraits{true ,true ,true ,true ,true ,true}:   /* plain */
    g==1? GTraits{true ,true ,true ,true ,true ,true}:   /* open hierarchy */
    g==2? GTraits{false,true ,true ,true ,true ,true}:   /* move-only */
    g==3? GTraits{true ,false,true ,true ,true ,true}:   /* emulated assign */
    g==4? GTraits{true ,true ,true ,false,false,true}:   /* throwing moves */
    g==5? GTraits{true ,true ,false,true ,false,true}:   /* not comparable */
    g==6? GTraits{true ,true ,true ,true ,true ,true}:   /* big, over-aligned*/
    g==7? GTraits{false,true ,true ,false,false,true}:   /* throwing move-only*/
          GTraits{true ,true ,true ,true ,true ,true};
}

template<int G>
struct CoreImpl
{
  u32         magic;
  mutable Arg arg;
  const void* self;

  void born()
  {
    magic=MAGIC_ALIVE;self=this;
    Quiet q;elem_event();
    if(!g_live_elems.insert(this).second)
      fail("lifetime","element constructed over a live element");
  }
  void check(const char* what)const
  {
    if(magic!=MAGIC_ALIVE||self!=this){
      Quiet q;
      fail("lifetime",std::string(what)+": object is not a live element");
    }
  }
  explicit CoreImpl(const Arg& a)
  {
    u32 v=a.id;          /* read the argument first */
    fault_point(FK_CTOR);
    ++g_es.ctor;arg.id=v;born();
  }
  explicit CoreImpl(u32 id_)
  {
    fault_point(FK_CTOR);
    ++g_es.ctor;arg.id=id_;born();
  }
  CoreImpl(const CoreImpl& x)
  {
    x.check("copy from");
    fault_point(FK_COPY);
    ++g_es.copy;arg.id=x.arg.id;born();
  }
  CoreImpl(CoreImpl&& x)noexcept(gt(G).nothrow_move)
  {
    x.check("move from");
    if(!gt(G).nothrow_move)fault_point(FK_MOVE);
    ++g_es.move;arg.id=x.arg.id;x.arg.id=MOVED;born();
  }
  CoreImpl& operator=(const CoreImpl& x)
  {
    check("copy assign to");x.check("copy assign from");
    fault_point(FK_COPY);
    ++g_es.cassign;arg.id=x.arg.id;
    {Quiet q;elem_event();}
    return *this;
  }
  CoreImpl& operator=(CoreImpl&& x)noexcept(gt(G).nothrow_assign)
  {
    check("move assign to");x.check("move assign from");
    if(!gt(G).nothrow_assign)fault_point(FK_MASSIGN);
    ++g_es.massign;
    if(this!=&x){arg.id=x.arg.id;x.arg.id=MOVED;}
    {Quiet q;elem_event();}
    return *this;
  }
  ~CoreImpl()
  {
    Quiet q;elem_event();
    check("destroy");
    ++g_es.dtor;
    if(!g_live_elems.erase(this))
      fail("lifetime","destruction of an object that is not live");
    magic=MAGIC_DEAD;self=nullptr;arg.id=0xBADBADu;
  }
};

struct MixNone{};
struct MixNoCopy
{
  MixNoCopy()=default;
  MixNoCopy(const MixNoCopy&)=delete;
  MixNoCopy(MixNoCopy&&)noexcept{}
  MixNoCopy& operator=(const MixNoCopy&)=delete;
  MixNoCopy& operator=(MixNoCopy&&)noexcept{return *this;}
};
struct MixNoAssign
{
  MixNoAssign()=default;
  MixNoAssign(const MixNoAssign&)noexcept{}
  MixNoAssign(MixNoAssign&&)noexcept{}
  MixNoAssign& operator=(const MixNoAssign&)=delete;
  MixNoAssign& operator=(MixNoAssign&&)=delete;
};

template<int G>
using Mix=typename std::conditional<!gt(G).copyable,MixNoCopy,
  typename std::conditional<!gt(G).assignable,MixNoAssign,MixNone>::type>::type;

template<int G>
struct Core:CoreImpl<G>,Mix<G>
{
  explicit Core(const Arg& a):CoreImpl<G>(a){}
  Core():CoreImpl<G>(DEFAULT_ID){}
  explicit Core(FArg&& a):CoreImpl<G>(a.id){a.cat=FA_RVAL;}
  explicit Core(FArg& a):CoreImpl<G>(a.id){a.cat=FA_LVAL;}
  explicit Core(const FArg& a):CoreImpl<G>(a.id){a.cat=FA_CLVAL;}
  Core(const Core&)=default;
  Core(Core&&)=default;
  Core& operator=(const Core&)=default;
  Core& operator=(Core&&)=default;
};

inline bool core_eq(const Arg& x,const Arg& y)
{
  fault_point(FK_EQ);
  ++g_es.eq;
  return x.id==y.id;
}

/* value computed through the interface: binds type, identity and argument */
inline u32 ivalue(u32 tag,u32 id,u32 k)
{
  return (u32)mix64((u64(tag)<<48)^(u64(id)<<8)^k);
}
constexpr u32 K_SET=0x80000000u; /* interface call that sets the id */

} /* namespace sim */

#endif
