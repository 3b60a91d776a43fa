// Algorithm simulator: every boost::poly_collection algorithm against the std
// algorithm on the flat sequence, with instrumented callables, output
// iterators, second ranges and generators that can fail at any call.
#ifndef SIM_ALG_HPP
#define SIM_ALG_HPP

#include "core.hpp"
#include "trace.hpp"

#ifndef SIM_KIND
#define SIM_KIND 0
#endif
#if SIM_KIND==0
#include <boost/poly_collection/base_collection.hpp>
#elif SIM_KIND==1
#include <boost/poly_collection/function_collection.hpp>
#else
#include <boost/poly_collection/any_collection.hpp>
#include <boost/mpl/vector.hpp>
#include <boost/type_erasure/any.hpp>
#include <boost/type_erasure/any_cast.hpp>
#include <boost/type_erasure/builtin.hpp>
#include <boost/type_erasure/callable.hpp>
#include <boost/type_erasure/relaxed.hpp>
#include <boost/type_erasure/typeid_of.hpp>
#endif
#include <boost/poly_collection/algorithm.hpp>
#include <algorithm>
#include <iterator>
#include <optional>

namespace sim{

/* ---------------------------------------------------------------- elements */

struct Req{};
struct Info{int tag;u32 id,key;const void* addr;bool ok;};

constexpr int AT=5;
constexpr u32 AMAGIC=0x600D600Du;

struct ABody
{
  u32 magic=AMAGIC,id,key;
  ABody(u32 i,u32 k):id{i},key{k}{}
  ABody(const ABody& x):id{x.id},key{x.key}{}
  ABody(ABody&& x)noexcept:id{x.id},key{x.key}{}
  ABody& operator=(const ABody& x)noexcept{id=x.id;key=x.key;return *this;}
  ~ABody(){magic=0xDEADu;}
};

#if SIM_KIND==0
#define SIM_KIND_NAME "base"
struct AB
{
  virtual ~AB()=default;
  AB()=default;AB(const AB&)=default;AB& operator=(const AB&)=default;
  virtual Info info()const=0;
};
struct APad{u64 p0=1,p1=2;virtual ~APad()=default;};
template<typename D,int T> struct AElem:AB,ABody
{
  using ABody::ABody;
  Info info()const override;
};
struct A0 final:AElem<A0,0>{using AElem::AElem;};
struct A1:AElem<A1,1>{using AElem::AElem;};
struct A2:A1{u64 more=2;using A1::A1;Info info()const override;};
struct alignas(32) A3:APad,AElem<A3,3>
{A3(u32 i,u32 k):AElem(i,k){} u64 tail[3]={3,3,3};};
struct A4:AElem<A4,4>{using AElem::AElem;char c[5]={};};
#else
template<typename D,int T> struct AElem:ABody
{
  using ABody::ABody;
  Info operator()(Req)const;
};
struct A0 final:AElem<A0,0>{using AElem::AElem;};
struct A1:AElem<A1,1>{using AElem::AElem;};
struct A2:AElem<A2,2>{using AElem::AElem;u64 more=2;};
struct alignas(32) A3:AElem<A3,3>{using AElem::AElem;u64 tail[3]={3,3,3};};
struct A4:AElem<A4,4>{using AElem::AElem;char c[5]={};};
#if SIM_KIND==1
#define SIM_KIND_NAME "function"
#else
#define SIM_KIND_NAME "any"
#endif
#endif

template<typename E> struct atag:std::integral_constant<int,-1>{};
template<> struct atag<A0>:std::integral_constant<int,0>{};
template<> struct atag<A1>:std::integral_constant<int,1>{};
template<> struct atag<A2>:std::integral_constant<int,2>{};
template<> struct atag<A3>:std::integral_constant<int,3>{};
template<> struct atag<A4>:std::integral_constant<int,4>{};
template<> struct is_element<A0>:std::true_type{};
template<> struct is_element<A1>:std::true_type{};
template<> struct is_element<A2>:std::true_type{};
template<> struct is_element<A3>:std::true_type{};
template<> struct is_element<A4>:std::true_type{};

template<typename E>
Info info_concrete(const E& x)
{
  return Info{atag<E>::value,x.id,x.key,(const void*)&x,x.magic==AMAGIC};
}
#if SIM_KIND==0
template<typename D,int T> Info AElem<D,T>::info()const
  {return info_concrete(static_cast<const D&>(*this));}
inline Info A2::info()const{return info_concrete(*this);}
using iface_t=AB;
template<typename A> using coll_t=boost::base_collection<AB,A>;
inline Info info_iface(const iface_t& x){return x.info();}
#else
template<typename D,int T> Info AElem<D,T>::operator()(Req)const
  {return info_concrete(static_cast<const D&>(*this));}
#if SIM_KIND==1
using sig_t=Info(Req);
template<typename A> using coll_t=boost::function_collection<sig_t,A>;
using iface_t=boost::poly_collection::function_collection_value_type<sig_t>;
#else
namespace te=boost::type_erasure;
using concept_t=boost::mpl::vector<
  te::typeid_<>,te::callable<Info(Req),const te::_self>,te::relaxed>;
template<typename A> using coll_t=boost::any_collection<concept_t,A>;
using iface_t=boost::poly_collection::any_collection_value_type<concept_t>;
#endif
inline Info info_iface(const iface_t& x){return x(Req{});}
#endif

/* what a callable, comparison or output iterator was handed */
struct Probe{Info i;int stat;bool cnst,rval;};
enum{STAT_IFACE=-1,STAT_BAD=-2,STAT_VALUE=-3};

struct KeyV{u32 k;};                     /* second-range values */

template<typename X> struct probeable:std::integral_constant<bool,
  (atag<X>::value>=0)||std::is_same<X,iface_t>::value>{};

template<typename X>
typename std::enable_if<(atag<X>::value>=0),Probe>::type probe_of(
  const X& x,bool cnst,bool rval)
  {return Probe{info_concrete(x),atag<X>::value,cnst,rval};}
inline Probe probe_of(const iface_t& x,bool cnst,bool rval)
  {return Probe{info_iface(x),STAT_IFACE,cnst,rval};}

struct Log
{
  std::vector<Probe> el;      /* elements handed over */
  u64 calls=0;                /* applications of the callable */
};
extern Log g_alog;

template<typename X>
u32 note(X& x)
{
  using U=typename std::remove_const<X>::type;
  Probe p=probe_of(static_cast<const U&>(x),std::is_const<X>::value,false);
  Quiet q;
  if(g_alog.el.size()<100000)g_alog.el.push_back(p);
  return p.i.key;
}

/* comparison of anything with anything, by key */
template<typename X,typename Y,typename std::enable_if<
  probeable<X>::value&&probeable<Y>::value>::type* =nullptr>
bool operator==(X& x,Y& y)
{
  ++g_alog.calls;
  fault_point(FK_EQ);
  u32 a=note(x),b=note(y);
  return a==b;
}
template<typename X,typename Y,typename std::enable_if<
  probeable<X>::value&&probeable<Y>::value>::type* =nullptr>
bool operator==(const X& x,const Y& y)
{
  ++g_alog.calls;
  fault_point(FK_EQ);
  u32 a=note(x),b=note(y);
  return a==b;
}
template<typename X,typename std::enable_if<probeable<X>::value>::type* =nullptr>
bool operator==(X& x,const KeyV& y)
{
  ++g_alog.calls;
  fault_point(FK_EQ);
  return note(x)==y.k;
}
template<typename X,typename std::enable_if<probeable<X>::value>::type* =nullptr>
bool operator==(const X& x,const KeyV& y)
{
  ++g_alog.calls;
  fault_point(FK_EQ);
  return note(x)==y.k;
}

/* -------------------------------------------------------------- reference */

struct Ref{int tag;u32 id,key;const void* addr;std::size_t gi;};

/* unary condition on (key,id) chosen by parameters */
struct Cond
{
  u32 mode=0,a=0,b=1;
  std::vector<u32> first_ids; /* mode 3: ids before the partition point */
  bool operator()(u32 key,u32 id)const
  {
    switch(mode){
      case 0:return key%b==a%b;
      case 1:return key<a;
      case 2:return (a&1)!=0;
      default:return std::find(first_ids.begin(),first_ids.end(),id)!=
        first_ids.end();
    }
  }
};
/* binary conditions: 0 equality of keys, 1 equality mod 2 (equivalences),
 * 2 a<=b (not symmetric) */
inline bool rel(u32 m,u32 x,u32 y)
{
  return m==0?x==y:m==1?(x&1)==(y&1):x<=y;
}

struct P1 /* unary predicate */
{
  const Cond* c;
  template<typename X> bool operator()(X& x)const
  {
    ++g_alog.calls;
    fault_point(FK_CALL);
    using U=typename std::remove_const<X>::type;
    Info i=probe_of(static_cast<const U&>(x),false,false).i;
    note(x);
    return (*c)(i.key,i.id);
  }
};
struct P2 /* binary predicate */
{
  u32 m;
  static u32 val(const KeyV& k){return k.k;}
  template<typename X,typename std::enable_if<
    probeable<typename std::remove_const<X>::type>::value>::type* =nullptr>
  static u32 val(X& x){return note(x);}
  template<typename X,typename Y> bool operator()(X& x,Y& y)const
  {
    ++g_alog.calls;
    fault_point(FK_CALL);
    u32 a=val(x),b=val(y);
    return rel(m,a,b);
  }
};

struct FwK /* forward iterator over second-range values; may fail */
{
  using value_type=KeyV;
  using reference=const KeyV&;
  using pointer=const KeyV*;
  using difference_type=std::ptrdiff_t;
  using iterator_category=std::forward_iterator_tag;
  const KeyV* p=nullptr;
  const KeyV* e=nullptr;
  reference operator*()const
  {
    fault_point(FK_ITER);
    if(p>=e){Quiet q;fail("alg","read past the end of the second range");
      static KeyV z{0};return z;}
    return *p;
  }
  FwK& operator++()
  {
    fault_point(FK_ITER);
    if(p>=e){Quiet q;fail("alg","second range advanced past its end");
      return *this;}
    ++p;return *this;
  }
  FwK operator++(int){FwK x=*this;++*this;return x;}
  friend bool operator==(const FwK& x,const FwK& y){return x.p==y.p;}
  friend bool operator!=(const FwK& x,const FwK& y){return x.p!=y.p;}
};

struct TR{u32 v;};                       /* result of transform operations */

struct Write{std::size_t pos;Probe p;u32 value;};
struct Sink{std::vector<Write> w;};

struct Out /* output iterator; may fail */
{
  using value_type=void;
  using reference=void;
  using pointer=void;
  using difference_type=std::ptrdiff_t;
  using iterator_category=std::output_iterator_tag;
  Sink* s=nullptr;
  std::size_t n=0;
  struct Proxy
  {
    Sink* s;std::size_t n;
    void put(const Probe& p,u32 v)const
    {
      fault_point(FK_OUT);
      Quiet q;
      if(s->w.size()<100000)s->w.push_back(Write{n,p,v});
    }
    void operator=(const KeyV& k)const
      {put(Probe{Info{},STAT_VALUE,false,false},k.k);}
    void operator=(const TR& k)const
      {put(Probe{Info{},STAT_VALUE,false,false},k.v);}
    template<typename X,typename std::enable_if<probeable<
      typename std::remove_const<typename std::remove_reference<X>::type>::type
      >::value>::type* =nullptr>
    void operator=(X&& x)const
    {
      using R=typename std::remove_reference<X>::type;
      using U=typename std::remove_const<R>::type;
      Probe p=probe_of(static_cast<const U&>(x),std::is_const<R>::value,
        !std::is_lvalue_reference<X>::value);
      put(p,p.i.key);
    }
  };
  Proxy operator*()const{return Proxy{s,n};}
  Out& operator++(){++n;return *this;}
  Out operator++(int){Out x=*this;++n;return x;}
};

struct Urbg
{
  using result_type=u64;
  Rng* r;u64* calls;
  static constexpr u64 min(){return 0;}
  static constexpr u64 max(){return ~u64(0);}
  u64 operator()(){++*calls;fault_point(FK_URBG);return r->next();}
};

/* ------------------------------------------------------------------ world */

enum AlgOp:u32
{
  AO_INSERT,AO_ERASE,AO_REG,AO_CLEAR,AO_SHRINK,AO_RESERVE,AO_ALG,AO_N
};

enum Alg:u32
{
  AL_ALL_OF,AL_ANY_OF,AL_NONE_OF,AL_FOR_EACH,AL_FOR_EACH_N,
  AL_FIND,AL_FIND_IF,AL_FIND_IF_NOT,AL_FIND_END,AL_FIND_END_P,
  AL_FIND_FIRST_OF,AL_FIND_FIRST_OF_P,AL_ADJACENT_FIND,AL_ADJACENT_FIND_P,
  AL_COUNT,AL_COUNT_IF,AL_MISMATCH,AL_MISMATCH_P,AL_MISMATCH4,AL_MISMATCH4_P,
  AL_EQUAL,AL_EQUAL_P,AL_EQUAL4,AL_EQUAL4_P,AL_IS_PERM,AL_IS_PERM_P,
  AL_IS_PERM4,AL_IS_PERM4_P,AL_SEARCH,AL_SEARCH_P,AL_SEARCH_N,AL_SEARCH_N_P,
  AL_COPY,AL_COPY_N,AL_COPY_IF,AL_MOVE,AL_TRANSFORM,AL_TRANSFORM2,
  AL_REPLACE_COPY,AL_REPLACE_COPY_IF,AL_REMOVE_COPY,AL_REMOVE_COPY_IF,
  AL_UNIQUE_COPY,AL_UNIQUE_COPY_P,AL_ROTATE_COPY,AL_SAMPLE,AL_SAMPLE_U,
  AL_IS_PARTITIONED,AL_PARTITION_COPY,AL_PARTITION_POINT,
  AL_SELF_EQUAL,AL_SELF_MISMATCH,AL_SELF_SEARCH,AL_SELF_PERM,
  AL_N
};
inline const char* alg_name(u32 a)
{
  static const char* n[]={"all_of","any_of","none_of","for_each","for_each_n",
    "find","find_if","find_if_not","find_end","find_end(pred)",
    "find_first_of","find_first_of(pred)","adjacent_find",
    "adjacent_find(pred)","count","count_if","mismatch(3)",
    "mismatch(3,pred)","mismatch(4)","mismatch(4,pred)","equal(3)",
    "equal(3,pred)","equal(4)","equal(4,pred)","is_permutation(3)",
    "is_permutation(3,pred)","is_permutation(4)","is_permutation(4,pred)",
    "search","search(pred)","search_n","search_n(pred)","copy","copy_n",
    "copy_if","move","transform","transform(2)","replace_copy",
    "replace_copy_if","remove_copy","remove_copy_if","unique_copy",
    "unique_copy(pred)","rotate_copy","sample","sample-uniform",
    "is_partitioned","partition_copy","partition_point",
    "equal(self)","mismatch(self)","search(self)","is_permutation(self)"};
  return a<AL_N?n[a]:"?";
}

using APol=Policy<true,true,true>;
using AAl=SimAlloc<iface_t,APol>;
using C=coll_t<AAl>;
using iter_t=C::iterator;
using citer_t=C::const_iterator;

template<typename... Ts> struct TL
{
  static constexpr u32 mask(){u32 m=0;int l[]={0,((m|=1u<<atag<Ts>::value),0)...};
    (void)l;return m;}
};

/* everything an algorithm call needs */
struct Ctx
{
  const Step* s;
  u32 alg;
  C* c;
  std::vector<Ref> all;        /* flat sequence of the collection */
  std::vector<Ref> r;          /* [first,last) */
  std::size_t a,b,mid;
  bool cnst;
  u32 tsmask;
  Cond cond;
  u32 m2;                      /* binary relation */
  std::vector<KeyV> k2;        /* second range */
  std::size_t n;               /* count argument */
  u32 key,key2;                /* value arguments */
  u32 run_seed;

  bool threw=false,injected=false;
  std::string ename;

  std::string w()const{return std::string(alg_name(alg))+
    (cnst?" const":"")+" Ts="+std::to_string(tsmask)+" ["+std::to_string(a)+
    ","+std::to_string(b)+"): ";}

  template<typename F> bool guard(F f)
  {
    g_alog.el.clear();g_alog.calls=0;
    g_heap.op_arenas=0;
    threw=injected=false;
    g_faults.arm(s->fmask,(int)s->fcount,s->fpers!=0);
    try{InOp in;f();}
    catch(const Injected&){threw=injected=true;}
    catch(const InjectedAlloc&){threw=injected=true;}
    catch(const std::exception& e){threw=true;ename=e.what();}
    catch(...){threw=true;ename="unknown";}
    g_faults.mask=0;
    if(threw&&!injected)fail("algexc",w()+"threw "+ename);
    if(!threw&&g_faults.fired)
      fail("algexc",w()+"swallowed an exception of the user's "+
        fk_name(g_faults.fired_kind));
    if(g_heap.op_arenas)fail("algexc",w()+"obtained memory");
    logv(0xA1600000ull+alg*16+(threw?1:0));
    check_log();
    return !threw&&!g_violation.set;
  }

  const Ref* by_id(u32 id)const
  {
    for(auto& x:all)if(x.id==id)return &x;
    return nullptr;
  }
  /* an element handed over is an element of [lo,hi), rightly typed */
  bool check_probe(const Probe& p,const char* what)
  {
    const Ref* x=by_id(p.i.id);
    if(!p.i.ok||!x){fail("restit",w()+what+" was handed something that is not "
      "an element");return false;}
    if(p.i.addr!=x->addr||p.i.tag!=x->tag)
      {fail("restit",w()+what+" was handed element "+std::to_string(p.i.id)+
        " at another address or as another type");return false;}
    int want=(tsmask>>x->tag)&1?x->tag:STAT_IFACE;
    if(p.stat!=want)
      {fail("restit",w()+what+" was handed element "+std::to_string(p.i.id)+
        " of type "+std::to_string(x->tag)+(p.stat==STAT_IFACE?
        " as an interface reference though its type is listed":
        " as a concrete reference though its type is not listed"));
        return false;}
    if(p.cnst!=cnst)
      {fail("restit",w()+what+" was handed element "+std::to_string(p.i.id)+
        (p.cnst?" as const from non-const iterators":
        " as non-const from const iterators"));return false;}
    return true;
  }
  bool self2=false; /* the second range is of elements too (not restituted) */
  void check_log()
  {
    if(g_violation.set)return;
    std::size_t k=0;
    for(auto& p:g_alog.el){
      logv(p.i.id);
      bool second=self2&&(k&1);
      ++k;
      if(second){
        if(!p.i.ok||!by_id(p.i.id))
          {fail("restit",w()+"second-range argument is not an element");return;}
        continue;
      }
      if(!check_probe(p,"the callable"))return;
      bool in=false;
      for(auto& x:r)if(x.id==p.i.id){in=true;break;}
      if(!in){fail("alg",w()+"applied the callable to element "+
        std::to_string(p.i.id)+" outside the range");return;}
    }
  }
  void bound(u64 max)
  {
    if(!g_violation.set&&g_alog.calls>max)
      fail("algbound",w()+"applied the callable "+
        std::to_string(g_alog.calls)+" times, bound "+std::to_string(max));
  }
  void exactly(u64 n_)
  {
    if(!g_violation.set&&g_alog.calls!=n_)
      fail("alg",w()+"applied the callable "+
        std::to_string(g_alog.calls)+" times instead of "+std::to_string(n_));
  }
  void eq(bool got,bool want)
  {
    logv(got);
    if(!g_violation.set&&got!=want)
      fail("alg",w()+"returned "+(got?"true":"false")+", std returns "+
        (want?"true":"false"));
  }
  void eqn(long long got,long long want)
  {
    logv((u64)got);
    if(!g_violation.set&&got!=want)
      fail("alg",w()+"returned "+std::to_string(got)+", std returns "+
        std::to_string(want));
  }
  template<typename It> It at(std::size_t k)const
  {
    iter_t i=c->begin();
    while(k--)++i;
    return It(i);
  }
  /* returned iterator is at position k of the collection */
  template<typename It>
  void pos(const It& got,std::size_t k)
  {
    if(g_violation.set)return;
    It want=at<It>(k);
    if(!(got==want)){
      std::string h="elsewhere";
      std::size_t q=0;
      iter_t i=c->begin();
      for(;q<=all.size();++q){
        if(got==It(i)){h="position "+std::to_string(q);break;}
        if(q<all.size())++i;
      }
      fail("alg",w()+"returned an iterator to "+h+
        " of the collection, std returns position "+std::to_string(k));
      return;
    }
    /* and traverses the rest */
    It i=got;std::size_t q=k;
    It e=at<It>(all.size());
    for(;i!=e;++i,++q){
      if(q>=all.size()){fail("alg",w()+"traversal from the returned iterator "
        "overruns");return;}
      Info x=info_iface(*i);
      if(x.addr!=all[q].addr){fail("alg",w()+"traversal from the returned "
        "iterator visits other elements");return;}
    }
    if(q!=all.size())fail("alg",w()+"traversal from the returned iterator "
      "misses elements");
  }
  /* the writes are exactly those of std: (value or element id) in order */
  struct W{bool elem;u32 v;};
  void writes(const Sink& s_,const Out& ret,const std::vector<W>& want,
    bool rval=false,bool complete=true)
  {
    for(std::size_t k=0;k<s_.w.size()&&!g_violation.set;++k){
      const Write& x=s_.w[k];
      logv(x.value);
      if(x.pos!=k){fail("alg",w()+"write "+std::to_string(k)+
        " went to output position "+std::to_string(x.pos));return;}
      if(k>=want.size()){fail("alg",w()+"more writes than std: "+
        std::to_string(s_.w.size())+" instead of "+
        std::to_string(want.size()));return;}
      bool el=x.p.stat!=STAT_VALUE;
      if(el!=want[k].elem||(el?x.p.i.id:x.value)!=want[k].v)
        {fail("alg",w()+"write "+std::to_string(k)+" is "+
          (el?"element ":"value ")+std::to_string(el?x.p.i.id:x.value)+
          ", std writes "+(want[k].elem?"element ":"value ")+
          std::to_string(want[k].v));return;}
      if(el){
        if(!check_probe(x.p,"the output iterator"))return;
        if(x.p.rval!=rval){fail("alg",w()+"element written as "+
          (x.p.rval?"rvalue":"lvalue"));return;}
      }
    }
    if(g_violation.set||!complete)return;
    if(s_.w.size()!=want.size())
      {fail("alg",w()+std::to_string(s_.w.size())+" writes instead of "+
        std::to_string(want.size()));return;}
    if(ret.n!=want.size())
      fail("alg",w()+"returned output iterator is at position "+
        std::to_string(ret.n)+" instead of "+std::to_string(want.size()));
  }
};

using AlgFn=void(*)(Ctx&);
/* [alg][ts][const] */
constexpr int NTS=4;
extern AlgFn g_alg_table[AL_N][NTS][2];

} /* namespace sim */

#endif
