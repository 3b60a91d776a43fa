// Race simulator: several simulated threads use collections at the same time
// under a seeded scheduler that can switch threads at every memory access;
// every access of the headers under test feeds a happens-before detector, and
// each thread's results are compared with those of the thread running alone.
#include "core.hpp"
#include "trace.hpp"
#include "driver.hpp"
#include "race_rt.h"

#ifndef SIM_KIND
#define SIM_KIND 0
#endif
#if SIM_KIND==0
#include <boost/poly_collection/base_collection.hpp>
#elif SIM_KIND==1
#include <boost/poly_collection/function_collection.hpp>
#else
#include <boost/poly_collection/any_collection.hpp>
#include <boost/mpl/vector.hpp>
#include <boost/type_erasure/any.hpp>
#include <boost/type_erasure/any_cast.hpp>
#include <boost/type_erasure/builtin.hpp>
#include <boost/type_erasure/callable.hpp>
#include <boost/type_erasure/relaxed.hpp>
#include <boost/type_erasure/typeid_of.hpp>
#endif
#include <boost/poly_collection/algorithm.hpp>
#include <boost/poly_collection/exception.hpp>

namespace sim{

Violation g_violation;
int g_step=-1;
bool g_in_op=false;
u64 g_log=0;
bool g_verbose=false;
Faults g_faults;
Heap g_heap;
Arena g_arena[N_ARENA];
ElemAcc g_acc;
NewAcc g_new;
std::unordered_set<u64> g_states,g_runs;

/* ------------------------------------------------------------- elements */

struct RFault{u32 kind;};
inline void rfault(u32 k){if(rt_fault(k))throw RFault{k};}

constexpr int RT=5;
struct RInfo{u32 tag,id,val;};
struct RReq{u32 set;};   /* 0: read, else write val */

/* plain data */
struct RBody
{
  u32 id,val;
  explicit RBody(u32 i):id{i},val{i*3}{}
  RBody(const RBody& x):id{x.id},val{x.val}{rfault(FK_COPY);}
  RBody(RBody&& x)noexcept:id{x.id},val{x.val}{}
  RBody& operator=(const RBody& x){id=x.id;val=x.val;return *this;}
  u32 get()const{return val;}
  void put(u32 v){val=v;}
};
/* state in a separate block owned by the element */
struct ROwn
{
  u32 id;
  u32* p;
  explicit ROwn(u32 i):id{i},p{new u32(i*3)}{}
  ROwn(const ROwn& x):id{x.id},p{(rfault(FK_COPY),new u32(*x.p))}{}
  ROwn(ROwn&& x)noexcept:id{x.id},p{x.p}{x.p=nullptr;}
  ROwn& operator=(ROwn&& x)noexcept
    {id=x.id;std::swap(p,x.p);return *this;}
  ~ROwn(){delete p;}
  u32 get()const{return *p;}
  void put(u32 v){*p=v;}
};
/* not copyable, not comparable */
struct RUniq
{
  u32 id,val;
  explicit RUniq(u32 i):id{i},val{i*3}{}
  RUniq(RUniq&& x)noexcept:id{x.id},val{x.val}{}
  RUniq& operator=(RUniq&& x)noexcept{id=x.id;val=x.val;return *this;}
  u32 get()const{return val;}
  void put(u32 v){val=v;}
};

#if SIM_KIND==0
#define SIM_KIND_NAME "base"
struct RB
{
  virtual ~RB()=default;
  RB()=default;RB(const RB&)=default;RB& operator=(const RB&)=default;
  virtual RInfo info()const=0;
  virtual void set(u32)=0;
};
struct RPad{u64 p0=1;virtual ~RPad()=default;};
#define RMEM(T) RInfo info()const override{return RInfo{T,id,get()};}\
  void set(u32 v)override{put(v);}
#define RDEF(N,T,BODY) struct N:RB,BODY{using BODY::BODY;RMEM(T)};
RDEF(R0,0,RBody)
struct alignas(32) R1:RPad,RB,RBody
{explicit R1(u32 i):RBody(i){} RMEM(1)};
RDEF(R2,2,ROwn)
struct R3:R0{u64 more=3;using R0::R0;
  RInfo info()const override{return RInfo{3,id,get()};}};
RDEF(R4,4,RUniq)
#else
#define RDEF(N,T,BODY) struct N:BODY{using BODY::BODY;\
  RInfo operator()(RReq)const{return RInfo{T,this->id,this->get()};}};
RDEF(R0,0,RBody)
struct alignas(32) R1:RBody{using RBody::RBody;
  RInfo operator()(RReq)const{return RInfo{1,id,get()};}};
RDEF(R2,2,ROwn)
struct R3:RBody{u64 more=3;using RBody::RBody;
  RInfo operator()(RReq)const{return RInfo{3,id,get()};}};
RDEF(R4,4,RUniq)
#if SIM_KIND==1
#define SIM_KIND_NAME "function"
#else
#define SIM_KIND_NAME "any"
#endif
#endif
#define REQ(N) inline bool operator==(const N& x,const N& y)\
  {rfault(FK_EQ);return x.id==y.id&&x.get()==y.get();}
REQ(R0) REQ(R1) REQ(R2) REQ(R3)

template<typename E> struct rtag;
template<> struct rtag<R0>:std::integral_constant<u32,0>{};
template<> struct rtag<R1>:std::integral_constant<u32,1>{};
template<> struct rtag<R2>:std::integral_constant<u32,2>{};
template<> struct rtag<R3>:std::integral_constant<u32,3>{};
template<> struct rtag<R4>:std::integral_constant<u32,4>{};

#if SIM_KIND==0
using iface_t=RB;
template<typename A> using coll_t=boost::base_collection<RB,A>;
inline RInfo rinfo(const iface_t& x){return x.info();}
#elif SIM_KIND==1
using sig_t=RInfo(RReq);
template<typename A> using coll_t=boost::function_collection<sig_t,A>;
using iface_t=boost::poly_collection::function_collection_value_type<sig_t>;
inline RInfo rinfo(const iface_t& x){return x(RReq{0});}
#else
namespace te=boost::type_erasure;
using concept_t=boost::mpl::vector<
  te::typeid_<>,te::callable<RInfo(RReq),const te::_self>,te::relaxed>;
template<typename A> using coll_t=boost::any_collection<concept_t,A>;
using iface_t=boost::poly_collection::any_collection_value_type<concept_t>;
inline RInfo rinfo(const iface_t& x){return x(RReq{0});}
#endif
template<typename E,typename std::enable_if<(rtag<E>::value<99)>::type* =nullptr>
RInfo rinfo(const E& x){return RInfo{rtag<E>::value,x.id,x.get()};}

/* ------------------------------------------------------------- allocator */

template<typename T>
struct RAlloc
{
  using value_type=T;
  using propagate_on_container_copy_assignment=std::false_type;
  using propagate_on_container_move_assignment=std::true_type;
  using propagate_on_container_swap=std::true_type;
  using is_always_equal=std::false_type;
  template<typename U> struct rebind{using other=RAlloc<U>;};
  u32 arena;
  RAlloc(u32 a=0):arena{a}{}
  template<typename U> RAlloc(const RAlloc<U>& x)noexcept:arena{x.arena}{}
  T* allocate(std::size_t n)
  {
    if(rt_fault(FK_ALLOC))throw std::bad_alloc{};
    void* p=rt_alloc(n*sizeof(T),alignof(T),arena);
    if(!p)throw std::bad_alloc{};
    return (T*)p;
  }
  void deallocate(T* p,std::size_t n)noexcept
  {
    if(!rt_free(p,n*sizeof(T),arena))std::abort();
  }
};
template<typename T,typename U>
bool operator==(const RAlloc<T>& x,const RAlloc<U>& y)noexcept
  {return x.arena==y.arena;}
template<typename T,typename U>
bool operator!=(const RAlloc<T>& x,const RAlloc<U>& y)noexcept
  {return x.arena!=y.arena;}

using Al=RAlloc<iface_t>;
using C=coll_t<Al>;
namespace pc=boost::poly_collection;

struct Dup:std::type_info
{
  static const char* dup(const char* s)
  {
    std::size_t n=std::strlen(s)+1;
    char* p=(char*)std::malloc(n);std::memcpy(p,s,n);return p;
  }
  explicit Dup(const std::type_info& i):std::type_info(dup(i.name())){}
};
inline const std::type_info& info_of(u32 t)
{
  switch(t%RT){
    case 0:return typeid(R0);case 1:return typeid(R1);
    case 2:return typeid(R2);case 3:return typeid(R3);
    default:return typeid(R4);
  }
}
Dup dups[RT]={Dup{typeid(R0)},Dup{typeid(R1)},Dup{typeid(R2)},Dup{typeid(R3)},
  Dup{typeid(R4)}};
/* which: even the type's own descriptor, odd another one of the same type */
inline const std::type_info& name_of(u32 t,u32 which)
{
  if(which&1)return dups[t%RT];
  return info_of(t);
}
template<typename F> u64 with(u32 t,F f)
{
  switch(t%RT){
    case 0:return f((R0*)nullptr);
    case 1:return f((R1*)nullptr);
    case 2:return f((R2*)nullptr);
    case 3:return f((R3*)nullptr);
    default:return f((R4*)nullptr);
  }
}
#define ELEM(e) typename std::remove_pointer<decltype(e)>::type

/* digest of results; never of addresses */
struct H
{
  u64 h=0x9E37;
  void add(u64 x){h=(h^x)*0x100000001b3ull;h^=h>>29;}
  void add(const RInfo& i){add(((u64)i.tag<<56)^((u64)i.id<<32)^i.val);}
};
inline u64 digest(const C& c)
{
  H h;
  for(auto s:c.segment_traversal()){
    h.add(0x5E6);
    for(auto i=s.begin();i!=s.end();++i)h.add(rinfo(*i));
  }
  return h.h;
}

/* ------------------------------------------------------------------ world */

enum{MAXF=3};
enum ROp:u32{RO_SETUP,RO_OP,RO_SCHED,RO_N};
enum{MODE_CONST,MODE_COLLS,MODE_ELEMS};
const char* const mode_names[]={"const operations on one collection",
  "different collections","different elements"};

struct Fiber
{
  C* mine;C* mine2;            /* owned */
  std::vector<C::iterator> it; /* elements this thread may write */
  std::vector<C::iterator> ro; /* elements anybody may read */
  std::vector<u32> own_tag;    /* tags of it */
  std::vector<const Step*> ops;
  std::vector<u64> res;        /* result of each operation */
  u32 next_id,failed,nth,scratch;
  char pad[64];
};

struct World
{
  C a,b;                       /* shared */
  C c[MAXF],c2[MAXF];          /* each thread's own */
  Fiber f[MAXF];
  int nf,mode;
  /* typed ranges for disjoint restituted writes: segment of type t is
   * written by thread t%nf only (mode elems) */
  C::iterator segb[RT],sege[RT];
  u32 seen_types;

  World(int n,int m,u32 shared_arena):
    a{Al(0)},b{Al(0)},
    c{C{Al(shared_arena?0:1)},C{Al(shared_arena?0:2)},C{Al(shared_arena?0:3)}},
    c2{C{Al(shared_arena?0:1)},C{Al(shared_arena?0:2)},C{Al(shared_arena?0:3)}},
    nf{n},mode{m},seen_types{0}
  {
    for(int k=0;k<MAXF;++k){
      f[k].mine=&c[k];f[k].mine2=&c2[k];f[k].next_id=10000u*(k+1);
      f[k].failed=0;f[k].nth=0;f[k].scratch=8u+(u32)k;
    }
  }
};

World* g_w;

template<typename E> u64 do_insert(C& c,u32 id,u32 where)
{
  switch(where%3){
    case 0:{auto i=c.insert(E(id));return i==c.end();}
    case 1:{auto i=c.template emplace<E>(id);return i==c.end();}
    default:{
      auto i=c.template insert(c.template is_registered<E>()?
        c.template begin<E>():(c.template register_types<E>(),
          c.template begin<E>()),E(id));
      return (u64)(i-c.template begin<E>());
    }
  }
}

/* single-threaded construction of the shared past */
void setup_step(World& w,const Step& s,u32 idx)
{
  u32 k=s.p[0]%14,t=s.p[1],n=1+s.p[2]%4;
  auto pick=[&](u32 x)->C&{
    if(w.mode!=MODE_COLLS)return x%3?w.a:w.b;
    x%=(u32)w.nf*2;return x&1?w.c2[x/2]:w.c[x/2];
  };
  C& c=pick(s.p[3]);
  C& d=pick(s.p[4]);
  auto dflt=[&]{
    for(u32 q=0;q<n;++q){
      u32 id=100*idx+q+1;
      with(t,[&](auto* e){using E=ELEM(e);
        if(std::is_same<E,R4>::value&&s.p[5]%3)return do_insert<R0>(c,id,0);
        return do_insert<E>(c,id,s.p[6]);});
    }
  };
  try{
    switch(k){
      case 0:if(&c!=&d)c=d;break;
      case 1:if(&c!=&d)c=std::move(d);break;
      case 2:if(&c!=&d)c.swap(d);break;
      case 3:with(t,[&](auto* e){using E=ELEM(e);
        c.template register_types<E>();return 0;});break;
      case 4:if(c.is_registered(name_of(t,s.p[5])))
        c.clear(name_of(t,s.p[5]));break;
      case 5:c.shrink_to_fit();break;
      case 6:with(t,[&](auto* e){using E=ELEM(e);
        c.template reserve<E>(s.p[2]%16);return 0;});break;
      /* a non-const lookup through another descriptor of the type */
      case 7:if(c.is_registered(name_of(t,s.p[5])))
        (void)c.begin(name_of(t,s.p[5]));break;
      case 8:if(c.begin()!=c.end())c.erase(c.begin());break;
      default:dflt();
    }
  }
  catch(const std::exception&){}
}

/* positions each thread may touch in mode elems */
void assign_elems(World& w)
{
  u32 k=0;
  for(auto& x:w.f){x.it.clear();x.ro.clear();x.own_tag.clear();}
  for(int t=0;t<RT;++t)w.segb[t]=w.sege[t]=w.a.end();
  w.seen_types=0;
  for(auto i=w.a.begin();i!=w.a.end();++i,++k){
    u32 t=rinfo(*i).tag;
    if(!(w.seen_types>>t&1)){w.segb[t]=i;w.seen_types|=1u<<t;}
    {auto j=i;++j;w.sege[t]=j;}
    /* R2 and R1 segments belong whole to one thread each; others are dealt */
    u32 o=t==1?0:t==2?1%(u32)w.nf:k%(u32)(w.nf+1);
    if((int)o==w.nf){for(int q=0;q<w.nf;++q)w.f[q].ro.push_back(i);}
    else{w.f[o].it.push_back(i);w.f[o].own_tag.push_back(t);}
  }
}

struct Out_ /* output iterator into a digest */
{
  using value_type=void;using reference=void;using pointer=void;
  using difference_type=std::ptrdiff_t;
  using iterator_category=std::output_iterator_tag;
  H* h;
  struct P{H* h;template<typename X> void operator=(const X& x)const
    {h->add(rinfo(x));}};
  P operator*()const{return P{h};}
  Out_& operator++(){return *this;}
  Out_ operator++(int){return *this;}
};
struct OutV
{
  using value_type=void;using reference=void;using pointer=void;
  using difference_type=std::ptrdiff_t;
  using iterator_category=std::output_iterator_tag;
  H* h;
  struct P{H* h;void operator=(u32 x)const{h->add(x);}};
  P operator*()const{return P{h};}
  OutV& operator++(){return *this;}
  OutV operator++(int){return *this;}
};
struct PEven{u32 m,r;template<typename X> bool operator()(const X& x)const
  {rfault(FK_CALL);return rinfo(x).id%m==r;}};
struct PSame{template<typename X,typename Y>
  bool operator()(const X& x,const Y& y)const
  {rfault(FK_CALL);return rinfo(x).id==rinfo(y).id+1;}};

struct PId{template<typename X,typename Y>
  bool operator()(const X& x,const Y& y)const
  {rfault(FK_CALL);return val(x)==val(y);}
  static u32 val(u32 n){return n;}
  template<typename X> static u32 val(const X& x){return rinfo(x).id%7;}};
struct Lcg /* the caller's own bit generator */
{
  using result_type=u32;u32 s;
  static constexpr u32 min(){return 0;}
  static constexpr u32 max(){return 0xffffffffu;}
  u32 operator()(){s=s*1664525u+1013904223u;return s^s>>15;}
};

constexpr u32 N_CONST=32,N_COLL=27,N_ELEM=9;

u64 const_op(const C& c,const C& d,Fiber& f,const Step& s)
{
  H h;
  u32 t=s.p[2],wh=s.p[3];
  switch(s.p[1]%N_CONST){
    case 0:h.add(c.size());h.add(c.empty());break;
    case 1:with(t,[&](auto* e){using E=ELEM(e);
      h.add(c.template size<E>());h.add(c.template empty<E>());
      h.add(c.template capacity<E>());h.add(c.template max_size<E>());
      return 0;});break;
    case 2:h.add(c.size(name_of(t,wh)));h.add(c.empty(name_of(t,wh)));
      h.add(c.capacity(name_of(t,wh)));h.add(c.max_size(name_of(t,wh)));break;
    case 3:for(u32 q=0;q<RT;++q)h.add(c.is_registered(name_of(q,wh>>q)));
      with(t,[&](auto* e){using E=ELEM(e);
        h.add(c.template is_registered<E>());return 0;});break;
    case 4:for(auto i=c.begin();i!=c.end();++i)h.add(rinfo(*i));break;
    case 5:for(auto i=c.cbegin(),e=c.cend();i!=e;++i)h.add(rinfo(*i));break;
    case 6:for(const auto& x:c)h.add(rinfo(x));break;
    case 7:for(auto sg:c.segment_traversal()){
      h.add(sg.type_info()==info_of(t));
      for(const auto& x:sg)h.add(rinfo(x));}break;
    case 8:for(auto sg:c.segment_traversal()){
      if(sg.type_info()==info_of(t))with(t,[&](auto* e){using E=ELEM(e);
        for(auto i=sg.template begin<E>();i!=sg.template end<E>();++i)
          h.add(rinfo(*i));return 0;});}break;
    case 9:with(t,[&](auto* e){using E=ELEM(e);
      auto sg=c.template segment<E>();
      for(auto i=sg.begin();i!=sg.end();++i)h.add(rinfo(*i));return 0;});break;
    case 10:{auto sg=c.segment(name_of(t,wh));
      for(auto i=sg.begin();i!=sg.end();++i)h.add(rinfo(*i));}break;
    case 11:for(auto i=c.begin(name_of(t,wh));i!=c.end(name_of(t,wh));++i)
      h.add(rinfo(*i));break;
    case 12:with(t,[&](auto* e){using E=ELEM(e);
      auto i=c.template begin<E>();auto l=c.template end<E>();
      h.add((u64)(l-i));for(;i!=l;++i)h.add(i->get());return 0;});break;
    case 13:h.add(c==d);h.add(c!=d);break;
    case 14:h.add(c==c);break;
    case 15:{C x{c,Al(f.scratch)};h.add(digest(x));h.add(x==c);}break;
    case 16:{C x{c};h.add(digest(x));}break;
    case 17:f.mine->insert(c.begin(),c.end());h.add(digest(*f.mine));
      if(f.mine->size()>60)f.mine->clear();break;
    case 18:*f.mine=c;h.add(digest(*f.mine));break;
    case 19:pc::for_each<R0,R2>(c.begin(),c.end(),
      [&](const auto& x){rfault(FK_CALL);h.add(rinfo(x));});break;
    case 20:{PEven p{2+t%3,wh%2};
      h.add(pc::count_if<R1>(c.begin(),c.end(),p));
      h.add(pc::all_of(c.begin(),c.end(),p));
      auto i=pc::find_if<R3,R4,R0,R1,R2>(c.begin(),c.end(),p);
      for(;i!=c.end();++i)h.add(rinfo(*i));}break;
    case 21:{auto i=pc::adjacent_find<R0,R1>(c.cbegin(),c.cend(),PSame{});
      h.add(i==c.cend());
      h.add(pc::equal<R2>(c.begin(),c.end(),d.begin(),d.end(),
        [](const auto& x,const auto& y){
          return rinfo(x).id==rinfo(y).id;}));}break;
    case 22:pc::copy<R1,R2>(c.begin(),c.end(),Out_{&h});
      pc::transform(c.begin(),c.end(),OutV{&h},
        [](const auto& x){return rinfo(x).id*3;});
      pc::unique_copy<R0>(c.begin(),c.end(),Out_{&h},PSame{});break;
    case 23:{auto n=(std::ptrdiff_t)(c.size()?wh%(c.size()+1):0);
      auto i=pc::for_each_n<R0,R3>(c.begin(),n,
        [&](const auto& x){rfault(FK_CALL);h.add(rinfo(x));});
      for(;i!=c.end();++i)h.add(rinfo(*i));
      PEven p{2+t%3,wh%2};
      h.add(pc::none_of<R2,R1>(c.begin(),c.end(),p));
      h.add(pc::any_of(c.begin(),c.end(),p));
      h.add(pc::find_if_not<R1>(c.begin(),c.end(),p)==c.end());}break;
    case 24:{auto r=pc::mismatch<R0,R1>(
        c.begin(),c.end(),d.begin(),d.end(),PId{});
      h.add(r.first==c.end());h.add(r.second==d.end());
      h.add(pc::is_permutation<R2>(
        c.begin(),c.end(),d.begin(),d.end(),PId{}));
      h.add(pc::is_permutation(
        c.begin(),c.end(),c.begin(),c.end(),PId{}));}break;
    case 25:{u32 v[2]={t%7,wh%7};
      h.add(pc::search<R0>(c.begin(),c.end(),v,v+2,PId{})==c.end());
      h.add(pc::find_end<R0,R1,R2>(c.begin(),c.end(),v,v+1,PId{})==c.end());
      h.add(pc::find_first_of(c.begin(),c.end(),v,v+2,PId{})==c.end());
      auto i=pc::search_n<R2,R3>(c.begin(),c.end(),1+(int)(wh%2),t%7,PId{});
      for(;i!=c.end();++i)h.add(rinfo(*i));}break;
    case 26:{PEven p{2+t%3,wh%2};R0 x{77};
      pc::copy_if<R0>(c.begin(),c.end(),Out_{&h},p);
      pc::remove_copy_if<R1,R2>(c.begin(),c.end(),Out_{&h},p);
      pc::replace_copy_if<R3>(c.begin(),c.end(),Out_{&h},p,x);
      auto i=c.begin();for(u32 q=wh%8;q&&i!=c.end();--q)++i;
      pc::rotate_copy<R0>(c.begin(),i,c.end(),Out_{&h});}break;
    case 27:{PEven p{2+t%3,wh%2};
      pc::partition_copy<R0,R4>(c.begin(),c.end(),Out_{&h},Out_{&h},p);
      auto i=pc::partition_point<R1,R2>(c.begin(),c.end(),
        [&](const auto&){rfault(FK_CALL);return false;});
      h.add(i==c.begin());
      pc::sample<R2>(c.begin(),c.end(),Out_{&h},(std::ptrdiff_t)(wh%5),
        Lcg{t+wh});
      pc::transform<R0>(c.begin(),c.end(),c.begin(),OutV{&h},
        [](const auto& x,const auto& y){return rinfo(x).id^rinfo(y).tag;});
      }break;
    case 28:with(t,[&](auto* e){using E=ELEM(e);
      auto b=c.begin(name_of(t,wh)),l=c.end(name_of(t,wh));
      C::const_local_iterator<E> i{b},k{l};
      h.add((u64)(k-i));h.add((u64)(l-b));h.add(b<l);
      for(std::ptrdiff_t q=0;q<k-i;++q){h.add(i[q].get());
        h.add(rinfo(b[q]));}
      C::const_local_base_iterator b2{i};h.add(b2==b);
      for(;k!=i;)h.add((--k)->get());
      return 0;});break;
    case 29:{C x(c.begin(),c.end(),Al(f.scratch));h.add(x.size());
      h.add(digest(x));}break;
    case 30:with(t,[&](auto* e){using E=ELEM(e);
      C& m=*f.mine;m.template register_types<E>();
      if(m.size()>60)m.clear();
      m.insert(c.template begin<E>(),c.template end<E>());
      m.insert(m.template end<E>(),c.template cbegin<E>(),
        c.template cend<E>());
      if(wh&1)m.insert(c.cbegin(name_of(t,wh>>1)),c.cend(name_of(t,wh>>1)));
      h.add(digest(m));return 0;});break;
    default:h.add(c.get_allocator().arena);
      {PEven p{3,t%3};h.add(pc::is_partitioned<R0>(c.begin(),c.end(),p));
       pc::copy_n(c.begin(),(std::ptrdiff_t)(c.size()/2),Out_{&h});}
  }
  return h.h;
}

u64 coll_op(Fiber& f,const Step& s)
{
  H h;
  u32 t=s.p[2],wh=s.p[3];
  C& c=*f.mine;C& d=*f.mine2;
  switch(s.p[1]%N_COLL){
    case 0:case 1:case 2:
      if(c.size()<60)h.add(with(t,[&](auto* e){using E=ELEM(e);
        return do_insert<E>(c,f.next_id++,wh);}));break;
    case 3:if(c.begin()!=c.end()){auto i=c.erase(c.begin());
      h.add(i==c.end());}break;
    case 4:{auto i=c.begin();std::size_t n=c.size();
      if(n){n=wh%n;while(n--)++i;c.erase(i,c.end());}}break;
    case 5:c.clear(name_of(t,wh));break;
    case 6:c.clear();break;
    case 7:with(t,[&](auto* e){using E=ELEM(e);
      c.template reserve<E>(wh%24);return 0;});break;
    case 8:c.reserve(name_of(t,wh),wh%24);break;
    case 9:c.shrink_to_fit();break;
    case 10:with(t,[&](auto* e){using E=ELEM(e);
      c.template register_types<E>();return 0;});break;
    case 11:c=d;break;
    case 12:d=std::move(c);break;
    case 13:c.swap(d);break;
    case 14:{C x{c};d=std::move(x);}break;
    case 15:if(c.size()<40){d.insert(c.begin(),c.end());
      if(d.size()>60)d.clear();}break;
    case 16:h.add(c==d);break;
    case 17:for(auto i=c.begin(name_of(t,wh));i!=c.end(name_of(t,wh));++i)
      h.add(rinfo(*i));break;
    case 18:{u32 n=0;pc::for_each<R0,R1,R2,R3>(c.begin(),c.end(),
      [&](auto& x){++n;h.add(rinfo(x));});h.add(n);}break;
    case 19:with(t,[&](auto* e){using E=ELEM(e);
      c.template register_types<E>();
      if(c.size()>60)c.clear();
      u32 v[3]={f.next_id,f.next_id+1,f.next_id+2};f.next_id+=3;
      auto p=c.template begin<E>();
      if(c.template size<E>())p+=wh%c.template size<E>();
      auto i=c.insert(p,v,v+3);
      h.add((u64)(i-c.template begin<E>()));return 0;});break;
    case 20:with(t,[&](auto* e){using E=ELEM(e);
      if(c.size()>60)c.clear();
      auto i=c.template emplace_hint<E>(c.begin(),f.next_id++);
      h.add(rinfo(*i));
      auto j=c.template emplace_pos<E>(c.begin(name_of(t,wh)),f.next_id++);
      h.add(rinfo(*j));
      auto k=c.emplace_pos(c.template begin<E>(),f.next_id++);
      h.add(rinfo(*k));
      i=c.insert(c.cbegin(),E(f.next_id++));h.add(rinfo(*i));
      return 0;});break;
    case 21:with(t,[&](auto* e){using E=ELEM(e);
      auto n=(std::ptrdiff_t)c.template size<E>();
      if(n){
        auto i=c.erase(c.template begin<E>()+wh%n);
        h.add((u64)(i-c.template begin<E>()));
        auto j=c.erase(c.begin(name_of(t,wh)),c.begin(name_of(t,wh))+(n-1)/2);
        h.add((u64)(j-c.begin(name_of(t,wh))));
      }
      return 0;});break;
    case 22:with(t,[&](auto* e){using E=ELEM(e);
      if(c.size()>60)c.clear();
      E v[2]={E(f.next_id),E(f.next_id+1)};f.next_id+=2;
      if(wh&1)c.insert(std::make_move_iterator(v),std::make_move_iterator(v+2));
      else c.insert(c.cbegin(),std::make_move_iterator(v),
        std::make_move_iterator(v+2));
      return 0;});break;
    case 23:{C x{std::move(c),Al(f.scratch)};c.clear();
      c=std::move(x);}break;
    case 24:{C x{c,Al(f.scratch)};d=x;swap(c,d);}break;
    case 25:{Step q=s;q.p[1]=wh>>4;
      u32 k=q.p[1]%N_CONST;
      if(k==17||k==30)break;
      h.add(const_op(c,d,f,q));}break;
    default:{C x{std::move(c)};c=std::move(x);
      C y{std::move(c),Al(c.get_allocator())};c.swap(y);}
  }
  h.add(digest(c));h.add(digest(d));
  return h.h;
}

struct Setter{u32 v;H* h;
  template<typename X> void operator()(X& x)const{set(x,0);}
  template<typename X> auto set(X& x,int)const->decltype(x.put(0u))
    {h->add(rinfo(x));x.put(v);}
  void set(iface_t& x,long)const
  {
#if SIM_KIND==0
    h->add(rinfo(x));x.set(v);
#else
    h->add(rinfo(x));
#endif
  }
};

u64 elem_op(World& w,int me,Fiber& f,const Step& s)
{
  H h;
  u32 v=s.p[3];
  const C& cc=w.a;
  switch(s.p[1]%N_ELEM){
    case 0:case 1: /* write one element through the interface */
      if(!f.it.empty()){
        std::size_t k=s.p[2]%f.it.size();
        C::iterator i=f.it[k];
        C::iterator j=i;++j;
        /* a range of one element: the algorithm must touch no other */
        pc::for_each<R0,R1,R2,R3,R4>(i,j,Setter{v,&h});
        h.add(rinfo(*i));
      }break;
    case 2: /* whole segments owned by one thread */
      if(me==0&&(w.seen_types>>1&1))
        pc::for_each<R1>(w.segb[1],w.sege[1],Setter{v,&h});
      if(me==1%w.nf&&(w.seen_types>>2&1))
        pc::for_each<R2>(w.segb[2],w.sege[2],Setter{v,&h});
      break;
    case 3: /* read what nobody writes */
      for(auto i:f.ro)h.add(rinfo(*i));break;
    case 4:for(auto i:f.it){h.add(rinfo(*i));
#if SIM_KIND==0
      i->set(v);
#endif
      }break;
    case 5: /* queries that look at no element */
      h.add(cc.size());h.add(cc.empty());
      for(u32 q=0;q<RT;++q)h.add(cc.is_registered(name_of(q,v>>q)));break;
    case 6:h.add(cc.size(name_of(s.p[2],v)));
      h.add(cc.capacity(name_of(s.p[2],v)));break;
    case 7: /* advance without looking */
      {u32 n=0;for(auto i=cc.begin();i!=cc.end();++i)++n;h.add(n);}break;
    default: /* restituted write to each owned element */
      for(auto i:f.it){auto j=i;++j;
        pc::for_each<R4,R0,R3>(i,j,Setter{v+1,&h});}
  }
  return h.h;
}

void fiber_body(int me)
{
  World& w=*g_w;
  Fiber& f=w.f[me];
  for(std::size_t k=0;k<f.ops.size();++k){
    const Step& s=*f.ops[k];
    rt_set_op((int)k);
    rt_arm(s.fmask,(int)s.fcount,(int)s.fpers);
    u64 r;
    try{
      r=w.mode==MODE_CONST?const_op(w.a,w.b,f,s):
        w.mode==MODE_COLLS?coll_op(f,s):elem_op(w,me,f,s);
    }
    catch(const RFault& x){r=0xFA0000+x.kind;++f.failed;}
    catch(const pc::unregistered_type&){r=0xE1;++f.failed;}
    catch(const pc::not_copy_constructible&){r=0xE2;++f.failed;}
    catch(const pc::not_equality_comparable&){r=0xE3;++f.failed;}
    catch(const std::bad_alloc&){r=0xE4;++f.failed;}
    catch(const std::exception&){r=0xE5;++f.failed;}
    rt_disarm();
    f.res.push_back(r);
  }
}

/* ----------------------------------------------------------------- driver */

struct RStats{u64 steps=0,ops=0,failed=0,accesses=0,switches=0,alone=0,
  threads=0,mode[3]={};}g_rs;
u64 run_sw_=0,run_ops_=0;

void build_world(World* w,const Trace& t)
{
  u32 idx=0;
  for(auto& s:t.steps)if(s.op==RO_SETUP)setup_step(*w,s,++idx);
  if(w->mode==MODE_ELEMS)assign_elems(*w);
  for(auto& s:t.steps)if(s.op==RO_OP){
    Fiber& f=w->f[s.p[0]%(u32)w->nf];
    f.ops.push_back(&s);
  }
  for(auto& f:w->f)f.res.reserve(f.ops.size()+1);
}
int g_only;
void only_body(int){fiber_body(g_only);}

alignas(World) unsigned char wmem[2][sizeof(World)];

void op_text(const World& w,const Trace&,int f,int op,char* out,size_t n)
{
  const Step* s=(size_t)op<w.f[f].ops.size()?w.f[f].ops[op]:nullptr;
  static const char* cn[]={"size","size<T>","size(info)","is_registered",
    "traverse","ctraverse","range-for","segments","typed segments",
    "segment<T>","segment(info)","begin(info)","begin<T>","==","==self",
    "copy(al)","copy","insert range from","assign from","for_each","count_if",
    "adjacent_find","copy alg","for_each_n","mismatch/is_permutation",
    "search","copy_if","partition_copy/sample","local iterators",
    "range construct","insert typed range from","misc"};
  static const char* dn[]={"insert","insert","insert","erase","erase range",
    "clear(info)","clear","reserve<T>","reserve(info)","shrink","register",
    "copy assign","move assign","swap","copy","insert range","==",
    "begin(info)","for_each","insert at position","emplace hint/pos",
    "erase local","insert own range","move to other allocator",
    "copy to other allocator","const operation","move construct"};
  static const char* en[]={"write one","write one","write segment","read",
    "write all","queries","size(info)","advance","write restituted"};
  std::snprintf(out,n,"%s",!s?"?":w.mode==MODE_CONST?cn[s->p[1]%N_CONST]:
    w.mode==MODE_COLLS?dn[s->p[1]%N_COLL]:en[s->p[1]%N_ELEM]);
}

void exec(const Trace& t)
{
  g_violation=Violation{};
  g_step=-1;g_log=0x1234;
  run_sw_=run_ops_=0;
  int nf=2+(int)(t.cfg.arenas%2);
  int mode=(int)(t.cfg.grow%3);
  u32 shared=t.cfg.soccc&1;
  if(nf>MAXF)nf=MAXF;
  ++g_rs.mode[mode];g_rs.threads+=nf;
  g_rs.steps+=t.steps.size();
  std::vector<rt_switch> sch;
  for(auto& s:t.steps)if(s.op==RO_SCHED)
    sch.push_back(rt_switch{s.p[0]%100000,s.p[1]});
  rt_heap_reset(t.cfg.heap,t.cfg.heapseed);
  World* w=::new((void*)wmem[0]) World(nf,mode,shared);
  build_world(w,t);
  u64 before_a=digest(w->a),before_b=digest(w->b);
  g_w=w;
  rt_run(nf,fiber_body,sch.data(),sch.size());
  rt_race rc=*rt_get_race();
  g_rs.accesses+=rt_accesses();g_rs.switches+=rt_switches();
  run_sw_=rt_switches();
  logv(rt_sched_hash());logv(rt_accesses());
  if(g_states.size()<400000)g_states.insert(rt_sched_hash());
  for(int k=0;k<nf;++k){
    g_rs.ops+=w->f[k].ops.size();g_rs.failed+=w->f[k].failed;
    run_ops_+=w->f[k].ops.size();
    for(u64 r:w->f[k].res)logv(r);
  }
  if(g_verbose){
    std::printf("  %s, %d threads, %zu switches scheduled, %llu taken, "
      "%llu accesses\n",mode_names[mode],nf,sch.size(),
      (unsigned long long)rt_switches(),(unsigned long long)rt_accesses());
    for(int k=0;k<nf;++k)for(std::size_t q=0;q<w->f[k].ops.size();++q){
      char o[64];op_text(*w,t,k,(int)q,o,sizeof o);
      std::printf("  [t%d.%zu] %s p=%u,%u fault=%x@%u -> %llx\n",k,q,o,
        w->f[k].ops[q]->p[2],w->f[k].ops[q]->p[3],w->f[k].ops[q]->fmask,
        w->f[k].ops[q]->fcount,(unsigned long long)
        (q<w->f[k].res.size()?w->f[k].res[q]:0));
    }
    if(rc.found)std::printf("  race at %#lx, code %p and %p\n",
      (unsigned long)rc.addr,rc.pc1,rc.pc2);
    std::fflush(stdout);
  }
  if(rc.found){
    char o1[64],o2[64];
    op_text(*w,t,rc.f1,rc.op1,o1,sizeof o1);
    op_text(*w,t,rc.f2,rc.op2,o2,sizeof o2);
    fail("race",std::string(mode_names[mode])+": conflicting accesses to "+
      rc.where+": "+(rc.w1?"write":"read")+" by thread "+
      std::to_string(rc.f1)+" in "+o1+" and "+(rc.w2?"write":"read")+
      " by thread "+std::to_string(rc.f2)+" in "+o2+
      ", unordered");
    return;
  }
  /* the shared collections are as before */
  if(mode==MODE_CONST&&(digest(w->a)!=before_a||digest(w->b)!=before_b))
    {fail("raceres","const operations changed the shared collection");return;}
  /* each thread alone, from the same past */
  std::vector<std::vector<u64>> res(nf);
  std::vector<u64> fin(nf),fin2(nf);
  for(int k=0;k<nf;++k){
    res[k]=w->f[k].res;
    fin[k]=digest(*w->f[k].mine);fin2[k]=digest(*w->f[k].mine2);
    if(mode==MODE_ELEMS){H h;for(auto i:w->f[k].it)h.add(rinfo(*i));
      fin[k]=h.h;}
  }
  w->~World();
  if(rt_heap_live()){fail("leak","memory left behind");return;}
  for(int k=0;k<nf;++k){
    ++g_rs.alone;
    rt_heap_reset(t.cfg.heap,t.cfg.heapseed);
    World* v=::new((void*)wmem[1]) World(nf,mode,shared);
    build_world(v,t);
    g_w=v;g_only=k;
    rt_run(1,only_body,nullptr,0);
    for(std::size_t q=0;q<res[k].size();++q)
      if(v->f[k].res[q]!=res[k][q]){
        char o[64];op_text(*v,t,k,(int)q,o,sizeof o);
        fail("raceres",std::string(mode_names[mode])+": operation "+o+
          " of thread "+std::to_string(k)+
          " gave another result than when run alone");
        return;
      }
    u64 a=digest(*v->f[k].mine),b=digest(*v->f[k].mine2);
    if(mode==MODE_ELEMS){H h;for(auto i:v->f[k].it)h.add(rinfo(*i));a=h.h;}
    if(a!=fin[k]||b!=fin2[k])
      {fail("raceres",std::string(mode_names[mode])+": thread "+
        std::to_string(k)+" ends with other contents than when run alone");
        return;}
    v->~World();
  }
}

Trace gen(const std::string& prof,u64 seed,u64 run)
{
  Trace t;
  t.harness="race-" SIM_KIND_NAME;
  t.prof=prof;t.seed=seed;t.run=run;
  Rng r{mix64(seed*0x10001+run)^hash_str_(t.harness+prof)};
  t.cfg.heap=r.below(4);t.cfg.heapseed=r.u();
  t.cfg.arenas=r.below(2);
  t.cfg.grow=prof=="C15"?MODE_CONST:r.chance(2,3)?MODE_COLLS:MODE_ELEMS;
  t.cfg.soccc=r.below(2);
  int nf=2+(int)(t.cfg.arenas%2);
  u32 types=r.chance(1,3)?31:1+r.below(31);
  if(r.chance(1,2))types&=15;
  if(!types)types=1;
  auto type=[&]{u32 k;do k=r.below(RT);while(!(types>>k&1));return k;};
  u32 ns=2+r.below(10);
  for(u32 k=0;k<ns;++k){
    Step s;s.op=RO_SETUP;
    for(auto& q:s.p)q=r.u();
    s.p[1]=type();
    if(k<2)s.p[0]=13;
    t.steps.push_back(s);
  }
  u32 fp=r.chance(1,3)?0:20;
  u32 no=nf+r.below(10);
  u32 only=r.chance(1,4)?r.u():0;
  for(u32 k=0;k<no;++k){
    Step s;s.op=RO_OP;
    for(auto& q:s.p)q=r.u();
    s.p[0]=k<(u32)nf?k:r.below(nf);
    if(only&&r.chance(2,3))s.p[1]=only; /* the same operation in all threads */
    s.p[2]=r.chance(1,10)?r.u():type();
    if(r.chance(fp,100)){
      s.fmask=(1u<<FK_ALLOC)|(1u<<FK_COPY)|(1u<<FK_EQ)|(1u<<FK_CALL);
      if(r.chance(1,2))s.fmask=1u<<FK_ALLOC;
      s.fcount=r.below(8);s.fpers=r.chance(1,6);
    }
    t.steps.push_back(s);
  }
  u32 scale=r.below(3),nsw=r.below(scale==0?120:scale==1?60:20);
  for(u32 k=0;k<nsw;++k){
    Step s;s.op=RO_SCHED;
    s.p[0]=scale==0?r.below(6):scale==1?r.below(40):r.below(400);
    s.p[1]=r.below(nf);
    t.steps.push_back(s);
  }
  return t;
}

void stats(std::ostream& f)
{
  f<<",\"steps\":"<<g_rs.ops<<",\"operations\":"<<g_rs.ops
   <<",\"operations_failed\":"<<g_rs.failed
   <<",\"instrumented_accesses\":"<<g_rs.accesses
   <<",\"thread_switches\":"<<g_rs.switches
   <<",\"alone_runs_compared\":"<<g_rs.alone
   <<",\"simulated_threads\":"<<g_rs.threads
   <<",\"mode_const\":"<<g_rs.mode[0]<<",\"mode_collections\":"<<g_rs.mode[1]
   <<",\"mode_elements\":"<<g_rs.mode[2]<<",\"fired\":{\"alloc\":"
   <<rt_fault_total(FK_ALLOC)<<",\"copy\":"<<rt_fault_total(FK_COPY)
   <<",\"equality\":"<<rt_fault_total(FK_EQ)<<",\"callable\":"
   <<rt_fault_total(FK_CALL)<<",\"preemption\":"<<g_rs.switches<<"}";
}
bool nontrivial(){return run_sw_>=1&&run_ops_>=2;}

} /* namespace sim */

int main(int argc,char** argv)
{
  using namespace sim;
  DriverHooks h{exec,gen,stats,nontrivial};
  return driver_main(argc,argv,h,g_states,g_runs);
}
