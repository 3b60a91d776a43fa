// The three collection kinds under simulation and their element types.
// Select with -DSIM_KIND=0 (base), 1 (function), 2 (any).
#ifndef SIM_KINDS_HPP
#define SIM_KINDS_HPP

#include "elems.hpp"
#include <functional>

#ifndef SIM_KIND
#define SIM_KIND 0
#endif

#if SIM_KIND==0
#include <boost/poly_collection/base_collection.hpp>
#elif SIM_KIND==1
#include <boost/poly_collection/function_collection.hpp>
#else
#include <boost/poly_collection/any_collection.hpp>
#include <boost/mpl/vector.hpp>
#include <boost/type_erasure/any.hpp>
#include <boost/type_erasure/any_cast.hpp>
#include <boost/type_erasure/builtin.hpp>
#include <boost/type_erasure/callable.hpp>
#include <boost/type_erasure/relaxed.hpp>
#include <boost/type_erasure/typeid_of.hpp>
#endif
#include <boost/poly_collection/exception.hpp>

namespace sim{

template<typename T> struct type_{using type=T;};

#ifndef SIM_FILLERS
#define SIM_FILLERS 0
#endif
constexpr int NM=8;                 /* element types (tags 0..NM-1) */
constexpr int NF=SIM_FILLERS;       /* types only ever registered, no elements:
                                     * they push the type map through rehashes */
constexpr int NT=NM+NF;
constexpr u32 ALLT=(u32)((u64(1)<<NT)-1);

#if SIM_KIND==0
constexpr int tag_group(int t){return t>=NM?0:t==7?1:t;} /* 7 derives from 1 */
#else
constexpr int tag_group(int t){return t>=NM?0:t==7?8:t;}
#endif
constexpr GTraits tt(int t){return gt(tag_group(t));}
/* single end insertion / reserve have the strong guarantee */
constexpr bool strong_end(int t){return tt(t).copyable||tt(t).nothrow_move;}
/* moving elements around cannot fail */
constexpr bool quiet_moves(int t){return tt(t).nothrow_move&&
  (tt(t).nothrow_assign||!tt(t).assignable);}

/* unary & that does not give the address (in the histories for C17) */
extern bool g_odd_amp;
#define SIM_ODD_AMP(E) E* operator&(){return g_odd_amp?nullptr:this;}\
  const E* operator&()const{return g_odd_amp?nullptr:this;}

#if SIM_KIND==0

struct B
{
  virtual ~B()=default;
  B()=default;
  B(const B&)=default;
  B& operator=(const B&)=default;
  virtual u32 call(u32 k)const=0;
  virtual u32 tag()const=0;
};
struct Pad
{
  u64 p0=0x1111,p1=0x2222,p2=0x3333;
  virtual ~Pad()=default;
};

template<int T,int G>
struct BElem:B,Core<G>
{
  explicit BElem(const Arg& a):Core<G>(a){}
  BElem()=default;
  explicit BElem(FArg&& a):Core<G>(std::move(a)){}
  explicit BElem(FArg& a):Core<G>(a){}
  explicit BElem(const FArg& a):Core<G>(a){}
  u32 call(u32 k)const override
  {
    this->check("interface call");
    if(k&K_SET){this->arg.id=k&~K_SET;return 0;}
    return ivalue(tag(),this->arg.id,k);
  }
  u32 tag()const override{return T;}
};

struct E1;
struct E0 final:BElem<0,0>{using BElem::BElem;explicit E0(const E1&);};
struct E1:BElem<1,1>{using BElem::BElem;};
struct E2 final:BElem<2,2>{using BElem::BElem;};
struct E3:BElem<3,3>{using BElem::BElem;SIM_ODD_AMP(E3)};
struct E4:BElem<4,4>{using BElem::BElem;};
struct E5 final:BElem<5,5>{using BElem::BElem;};
struct alignas(32) E6:Pad,BElem<6,6>
{
  explicit E6(const Arg& a):BElem<6,6>(a){}
  E6()=default;
  explicit E6(FArg&& a):BElem<6,6>(std::move(a)){}
  explicit E6(FArg& a):BElem<6,6>(a){}
  explicit E6(const FArg& a):BElem<6,6>(a){}
  u64 tail[3]={1,2,3};
};
struct E7:E1
{
  u64 extra=7;
  using E1::E1;
  u32 tag()const override{return 7;}
};
#define SIM_EQ(E) inline bool operator==(const E& x,const E& y)\
  {return core_eq(x.arg,y.arg);}
SIM_EQ(E0) SIM_EQ(E1) SIM_EQ(E2) SIM_EQ(E3) SIM_EQ(E4) SIM_EQ(E6)

#else

template<int T,int G>
struct FElem:Core<G>
{
  explicit FElem(const Arg& a):Core<G>(a){}
  FElem()=default;
  explicit FElem(FArg&& a):Core<G>(std::move(a)){}
  explicit FElem(FArg& a):Core<G>(a){}
  explicit FElem(const FArg& a):Core<G>(a){}
  u32 operator()(u32 k)const
  {
    this->check("interface call");
    if(k&K_SET){this->arg.id=k&~K_SET;return 0;}
    return ivalue(T,this->arg.id,k);
  }
};
struct E1;
struct E0:FElem<0,0>{using FElem::FElem;explicit E0(const E1&);};
struct E1:FElem<1,1>{using FElem::FElem;};
struct E2:FElem<2,2>{using FElem::FElem;};
struct E3:FElem<3,3>{using FElem::FElem;SIM_ODD_AMP(E3)};
struct E4:FElem<4,4>{using FElem::FElem;};
struct E5:FElem<5,5>{using FElem::FElem;};
struct alignas(32) E6:FElem<6,6>{using FElem::FElem;u64 tail[3]={1,2,3};};
struct E7:FElem<7,8>{using FElem::FElem;u8 odd[3]={1,2,3};};
#define SIM_EQ(E) inline bool operator==(const E& x,const E& y)\
  {return core_eq(x.arg,y.arg);}
SIM_EQ(E0) SIM_EQ(E1) SIM_EQ(E2) SIM_EQ(E3) SIM_EQ(E4) SIM_EQ(E6) SIM_EQ(E7)

#endif

inline E0::E0(const E1& x):E0{Arg{x.arg.id^XCONV}}{x.check("convert from");}

#define SIM_ELEM(E) template<> struct is_element<E>:std::true_type{};
SIM_ELEM(E0) SIM_ELEM(E1) SIM_ELEM(E2) SIM_ELEM(E3)
SIM_ELEM(E4) SIM_ELEM(E5) SIM_ELEM(E6) SIM_ELEM(E7)

#if SIM_KIND==0
template<int T> struct Filler:BElem<T,0>{using BElem<T,0>::BElem;};
#else
template<int T> struct Filler:FElem<T,0>{using FElem<T,0>::FElem;};
#endif
template<int T> bool operator==(const Filler<T>& x,const Filler<T>& y)
{return core_eq(x.arg,y.arg);}
template<int T> struct is_element<Filler<T>>:std::true_type{};

template<int T> struct elem_of{using type=Filler<T>;};
template<> struct elem_of<0>{using type=E0;};
template<> struct elem_of<1>{using type=E1;};
template<> struct elem_of<2>{using type=E2;};
template<> struct elem_of<3>{using type=E3;};
template<> struct elem_of<4>{using type=E4;};
template<> struct elem_of<5>{using type=E5;};
template<> struct elem_of<6>{using type=E6;};
template<> struct elem_of<7>{using type=E7;};
template<int T> using elem_t=typename elem_of<T>::type;

template<typename E> struct tag_of;
#define SIM_TAG(E,T) template<> struct tag_of<E>:\
  std::integral_constant<int,T>{};
template<int T> struct tag_of<Filler<T>>:std::integral_constant<int,T>{};
SIM_TAG(E0,0) SIM_TAG(E1,1) SIM_TAG(E2,2) SIM_TAG(E3,3)
SIM_TAG(E4,4) SIM_TAG(E5,5) SIM_TAG(E6,6) SIM_TAG(E7,7)

template<std::size_t... I>
const std::type_info& info_of_impl(int t,std::index_sequence<I...>)
{
  static const std::type_info* const l[]={&typeid(elem_t<(int)I>)...};
  return *l[t];
}
inline const std::type_info& info_of(int t)
{return info_of_impl(t,std::make_index_sequence<NT>{});}
inline int tag_of_info(const std::type_info& i)
{
  for(int t=0;t<NT;++t)if(i==info_of(t))return t;
  return -1;
}

template<typename F>
auto with_type(int t,F&& f)->decltype(f(type_<E0>{}))
{
  switch(t){
    case 0:return f(type_<E0>{});
    case 1:return f(type_<E1>{});
    case 2:return f(type_<E2>{});
    case 3:return f(type_<E3>{});
    case 4:return f(type_<E4>{});
    case 5:return f(type_<E5>{});
    case 6:return f(type_<E6>{});
    default:return f(type_<E7>{});
  }
}

/* fillers included */
template<int T,typename F>
void with_filler(int t,F& f)
{
  if constexpr(T<NT){
    if(t==T)f(type_<elem_t<T>>{});
    else with_filler<T+1>(t,f);
  }
}
template<typename F>
void with_any_type(int t,F&& f)
{
  if(t<NM)with_type(t,f);
  else with_filler<NM>(t,f);
}

/* a reference to an element through the interface */
struct View{int tag;const void* addr;u32 v0;u32 id;bool ok;};

#if SIM_KIND==0
#define SIM_KIND_NAME "base"
template<typename A> using coll_t=boost::base_collection<B,A>;
using iface_t=B;
#elif SIM_KIND==1
#define SIM_KIND_NAME "function"
using sig_t=u32(u32);
template<typename A> using coll_t=boost::function_collection<sig_t,A>;
using iface_t=boost::poly_collection::function_collection_value_type<sig_t>;
#else
#define SIM_KIND_NAME "any"
namespace te=boost::type_erasure;
using concept_t=boost::mpl::vector<
  te::typeid_<>,te::callable<u32(u32),const te::_self>,te::relaxed>;
template<typename A> using coll_t=boost::any_collection<concept_t,A>;
using iface_t=boost::poly_collection::any_collection_value_type<concept_t>;
using owning_any_t=te::any<boost::mpl::vector<
  te::copy_constructible<>,te::typeid_<>,
  te::callable<u32(u32),const te::_self>,te::relaxed>>;
#endif

/* the address as a number the optimiser knows nothing about */
inline std::uintptr_t opaque_addr(const void* p)
{
  std::uintptr_t a=(std::uintptr_t)p;
  __asm__ volatile("":"+r"(a));
  return a;
}

template<typename E>
View view_of_concrete(const E& x)
{
  if(opaque_addr(std::addressof(x))%alignof(E)!=0)
    fail("bind","element of type T"+std::to_string(tag_of<E>::value)+
      " is not aligned");
  return View{tag_of<E>::value,(const void*)std::addressof(x),
    ivalue(tag_of<E>::value,x.arg.id,5),x.arg.id,
    x.magic==MAGIC_ALIVE&&
    x.self==static_cast<const CoreImpl<tag_group(tag_of<E>::value)>*>(std::addressof(x))};
}

/* concrete object behind an interface reference, as the interface tells */
#if SIM_KIND==0
inline const void* iface_addr(const iface_t& x)
{return dynamic_cast<const void*>(&x);}
inline const std::type_info& iface_type(const iface_t& x){return typeid(x);}
inline u32 iface_call(const iface_t& x,u32 k){return x.call(k);}
template<typename E> const E* iface_target(const iface_t& x)
{return dynamic_cast<const E*>(&x);}
#elif SIM_KIND==1
inline const void* iface_addr(const iface_t& x){return x.data();}
inline const std::type_info& iface_type(const iface_t& x)
{return x.target_type();}
inline u32 iface_call(const iface_t& x,u32 k){return x(k);}
template<typename E> const E* iface_target(const iface_t& x)
{return x.template target<E>();}
#else
inline const void* iface_addr(const iface_t& x)
{return te::any_cast<const void*>(&x);}
inline const std::type_info& iface_type(const iface_t& x)
{return te::typeid_of(x);}
inline u32 iface_call(const iface_t& x,u32 k){return x(k);}
template<typename E> const E* iface_target(const iface_t& x)
{return te::any_cast<const E*>(&x);}
#endif

/* full view through the interface */
[[gnu::noinline]] inline View view_of(const iface_t& x)
{
  View v{};
  const std::type_info& ti=iface_type(x);
  v.tag=tag_of_info(ti);
  if(v.tag<0||v.tag>=NM)return v;
  v.addr=iface_addr(x);
  with_type(v.tag,[&](auto t){
    using E=typename decltype(t)::type;
    const E* p=iface_target<E>(x);
    if(!p||(const void*)p!=v.addr){v.ok=false;return;}
    View w=view_of_concrete(*p);
    v.ok=w.ok;
    v.id=w.id;
  });
  if(v.ok){
    v.v0=iface_call(x,5);
    if(v.v0!=ivalue(v.tag,v.id,5))v.ok=false;
#if SIM_KIND==1
    /* the remaining ways a callable wrapper can be used */
    iface_t& nx=const_cast<iface_t&>(x);
    if(!x||nx.data()!=v.addr)v.ok=false;
    with_type(v.tag,[&](auto t){
      if(nx.template target<typename decltype(t)::type>()!=v.addr)v.ok=false;});
    with_type((v.tag+2)%7,[&](auto t){
      using E=typename decltype(t)::type;
      if(nx.template target<E>()||x.template target<E>())v.ok=false;});
    if(!(v.id&3)){
      std::function<sig_t> f=x,g=x.operator std::function<sig_t>();
      iface_t y=x;
      if(f(5)!=v.v0||g(5)!=v.v0||y(5)!=v.v0||y.data()!=v.addr)v.ok=false;
    }
#endif
  }
  return v;
}
template<typename E,typename=typename std::enable_if<is_element<E>::value>::type>
View view_of(const E& x,int=0){return view_of_concrete(x);}

} /* namespace sim */

#endif
