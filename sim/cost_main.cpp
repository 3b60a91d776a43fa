// Running-time simulator. The clock is simulated: one tick per executed
// program edge of the library code (compiler instrumentation, counted here).
// Every history is run on twin collections that differ only in scale; what an
// operation costs on the two decides whether its running time depends on what
// it may depend on.
#define SIM_FILLERS 0
#include "core.hpp"
#include "driver.hpp"
#include <algorithm>
#include <functional>
#include <iterator>
#include <memory>
#include <optional>

#ifndef SIM_KIND
#define SIM_KIND 0
#endif
#if SIM_KIND==0
#include <boost/poly_collection/base_collection.hpp>
#elif SIM_KIND==1
#include <boost/poly_collection/function_collection.hpp>
#else
#include <boost/poly_collection/any_collection.hpp>
#include <boost/mpl/vector.hpp>
#include <boost/type_erasure/any.hpp>
#include <boost/type_erasure/any_cast.hpp>
#include <boost/type_erasure/builtin.hpp>
#include <boost/type_erasure/callable.hpp>
#include <boost/type_erasure/relaxed.hpp>
#include <boost/type_erasure/typeid_of.hpp>
#endif
#include <boost/poly_collection/algorithm.hpp>

namespace sim{u64 g_ticks=0;}
extern "C" __attribute__((no_sanitize("coverage")))
void __sanitizer_cov_trace_pc(){++sim::g_ticks;}

namespace sim{
Violation g_violation;
int g_step=-1;
bool g_in_op=false;
u64 g_log=0;
bool g_verbose=false;
Faults g_faults;
Heap g_heap;
Arena g_arena[N_ARENA];
ElemAcc g_acc;
NewAcc g_new;
std::unordered_set<u64> g_states,g_runs;

template<typename T> struct type_{using type=T;};

/* light allocator: failures only */
template<typename T> struct CAl
{
  using value_type=T;
  using propagate_on_container_copy_assignment=std::true_type;
  using propagate_on_container_move_assignment=std::true_type;
  using propagate_on_container_swap=std::true_type;
  u32 id=0;
  CAl()=default;
  explicit CAl(u32 i):id{i}{}
  template<typename U> CAl(const CAl<U>& x)noexcept:id{x.id}{}
  T* allocate(std::size_t n)
  {
    fault_point(FK_ALLOC);
    void* p=nullptr;
    if(posix_memalign(&p,alignof(T)<16?16:alignof(T),n*sizeof(T)+1))
      throw std::bad_alloc{};
    return (T*)p;
  }
  void deallocate(T* p,std::size_t)noexcept{std::free((void*)p);}
};
template<typename T,typename U>
bool operator==(const CAl<T>& x,const CAl<U>& y)noexcept{return x.id==y.id;}
template<typename T,typename U>
bool operator!=(const CAl<T>& x,const CAl<U>& y)noexcept{return x.id!=y.id;}

#if SIM_KIND==0
#define SIM_KIND_NAME "base"
struct LB
{
  u32 id;
  explicit LB(u32 i):id{i}{}
  virtual ~LB()=default;
  LB(const LB&)=default;
  LB& operator=(const LB&)=default;
};
using C=boost::base_collection<LB,CAl<LB>>;
using iface_t=LB;
inline u32 id_of(const LB& x){return x.id;}
#else
struct LB
{
  u32 id;
  explicit LB(u32 i):id{i}{}
  u32 operator()(u32 k)const{return id+k;}
};
#if SIM_KIND==1
#define SIM_KIND_NAME "function"
using iface_t=boost::poly_collection::function_collection_value_type<u32(u32)>;
using C=boost::function_collection<u32(u32),CAl<iface_t>>;
#else
#define SIM_KIND_NAME "any"
namespace te=boost::type_erasure;
using concept_t=boost::mpl::vector<
  te::typeid_<>,te::callable<u32(u32),const te::_self>,te::relaxed>;
using iface_t=boost::poly_collection::any_collection_value_type<concept_t>;
using C=boost::any_collection<concept_t,CAl<iface_t>>;
#endif
inline u32 id_of(const iface_t& x){return x(0);}
inline u32 id_of(const LB& x){return x.id;}
#endif
struct L0:LB{using LB::LB;};
struct L1:LB /* moves may fail */
{
  u64 w[3]={};
  explicit L1(u32 i):LB{i}{fault_point(FK_CTOR);}
  L1(const L1& x):LB(x){fault_point(FK_COPY);}
  L1(L1&& x):LB(x){fault_point(FK_MOVE);}
  L1& operator=(const L1& x){fault_point(FK_COPY);id=x.id;return *this;}
  L1& operator=(L1&& x){fault_point(FK_MASSIGN);id=x.id;return *this;}
};
struct L2 final:LB /* move only */
{
  explicit L2(u32 i):LB{i}{}
  L2(const L2&)=delete;
  L2(L2&& x)noexcept:LB(x){}
  L2& operator=(L2&& x)noexcept{id=x.id;return *this;}
};
struct L3 final:LB /* not assignable */
{
  explicit L3(u32 i):LB{i}{}
  L3(const L3& x):LB(x){fault_point(FK_COPY);}
  L3(L3&& x)noexcept:LB(x){}
  L3& operator=(L3&&)=delete;
};
template<int N> struct LF:LB{using LB::LB;};
#define SIM_EQ(L) inline bool operator==(const L& x,const L& y)\
{return x.id==y.id;}
SIM_EQ(L0) SIM_EQ(L1) SIM_EQ(L2) SIM_EQ(L3)
template<int N> bool operator==(const LF<N>& x,const LF<N>& y)
{return x.id==y.id;}
constexpr int LT=4;
template<typename F> void with(u32 t,F f)
{
  switch(t%LT){
    case 0:f(type_<L0>{});break;
    case 1:f(type_<L1>{});break;
    case 2:f(type_<L2>{});break;
    default:f(type_<L3>{});
  }
}

/* operations of the twins' history */
enum HOp{H_FILL,H_ERASE,H_SHRINK,H_RESERVE,H_CLEAR,H_COPY,H_MOVE,H_REG,
  H_FAIL,H_MEASURE,H_N};
/* measured operations; the first group may not depend on scale at all, the
 * second is linear in it */
enum MOp
{
  M_INS_COPY,M_INS_MOVE,M_EMPLACE,M_EMPLACE_POS,M_EMPLACE_HINT,M_INS_REF,
  M_ERASE,M_ERASE_GLOBAL,M_ERASE_RANGE,M_QUERY,M_QUERY_T,M_RESERVE,M_SWAP,
  M_MOVE,M_INS_RANGE,M_INS_IRANGE,M_ALG_EARLY,M_ITER,M_REGISTER,M_CLEAR_SMALL,
  M_SHRINK_SMALL,M_ARITH,M_SEGMENTS,
  M_LINEAR,
  M_CLEAR_T=M_LINEAR,M_CLEAR,M_COPY,M_ASSIGN,M_EQ,M_ERASE_ALL,M_RANGE_END,
  M_RANGE_FRONT,M_GROW,M_SHRINK,M_SINGLES,M_TRAVERSE,M_ALG,M_POP_ALL,
  M_ERASE_FRONT,M_RANGES_SHORT,M_MOVE_UNEQUAL,M_ERASE_SPAN,
  M_ERASE_LOCAL,
  M_N
};
inline const char* m_name(u32 m)
{
  static const char* n[]={"insert(const T&) at the end","insert(T&&) at the end",
    "emplace<T>","emplace_pos near the end","emplace_hint(end())",
    "insert(interface reference)","erase near the end",
    "erase(global iterator)","erase(range near the end)",
    "begin()/end()/size()/empty()","queries about a type",
    "reserve below capacity","swap","move construction and assignment",
    "insert(short range near the end)","insert(interface range)",
    "algorithm that stops early","iterator increments","register_types",
    "clear<U>() of a short segment","shrink_to_fit<U>() of a short segment",
    "local iterator arithmetic","segment traversal",
    "clear<T>()","clear()","copy construction","copy assignment","==",
    "erase(whole segment)","insert(long range) at the end",
    "insert(short range) at the front","reserve with growth","shrink_to_fit()",
    "one-by-one insertion","traversal","algorithm","one-by-one erasure",
    "erase at the front","insertion of many short ranges",
    "move between unequal allocators","erase(range over several segments)",
    "erase(long range inside a segment)"};
  return n[m];
}
inline const char* h_name(u32 h)
{
  static const char* n[]={"fill","erase","shrink","reserve","clear","copy",
    "move","register","failing insertion","measure"};
  return n[h];
}

struct CStats
{
  u64 steps=0,measured=0,skipped=0,ticks=0;
  u64 op[M_N][2]={};
}g_cs;
u64 run_measured=0;

struct Twin
{
  std::optional<C> c;
  u32 scale;
  u32 next=1;
  explicit Twin(u32 sc):scale{sc}{c.emplace(C::allocator_type(1u));}

  /* 'big' of the two: types in the mask scale, the others do not */
  template<typename F> bool guarded(const Step& s,F f)
  {
    g_faults.arm(s.fmask,(int)s.fcount,s.fpers!=0);
    bool ok=true;
    try{InOp in;f();}
    catch(const InjectedAlloc&){ok=false;}
    catch(const Injected&){ok=false;}
    catch(const std::exception&){ok=false;}
    g_faults.mask=0;
    return ok;
  }
  template<typename T> std::size_t size()
  {return c->template is_registered<T>()?c->template size<T>():0;}

  void history(const Step& s,u32 scaled)
  {
    u32 t=s.p[0]%LT,sc=(scaled>>t&1)?scale:1;
    C& x=*c;
    with(t,[&](auto ty){
      using T=typename decltype(ty)::type;
      switch(s.op%H_N){
        case H_FILL:{
          u32 n=(4+s.p[1]%24)*sc;
          if(this->template size<T>()>4000)break;
          this->guarded(s,[&]{
            for(u32 k=0;k<n;++k){
              if(s.p[2]%3==0)x.template emplace<T>(next++);
              else x.insert(T{next++});
            }
          });
        }break;
        case H_ERASE:{
          std::size_t z=this->template size<T>();
          std::size_t n=std::min<std::size_t>(z,(1+s.p[1]%8)*sc);
          if(z)this->guarded(s,[&]{
            if(s.p[2]&1)x.erase(x.template begin<T>(),
              x.template begin<T>()+(std::ptrdiff_t)n);
            else x.erase(x.template end<T>()-(std::ptrdiff_t)n,
              x.template end<T>());
          });
        }break;
        case H_SHRINK:this->guarded(s,[&]{
          if(s.p[1]&1)x.shrink_to_fit();
          else if(x.template is_registered<T>())x.template shrink_to_fit<T>();
        });break;
        case H_RESERVE:this->guarded(s,[&]{
          x.template reserve<T>((s.p[1]%40)*sc);});break;
        case H_CLEAR:if(x.template is_registered<T>())
          x.template clear<T>();break;
        case H_COPY:{
          std::optional<C> y;
          bool ok=this->guarded(s,[&]{y.emplace(x);});
          if(ok){
            if(s.p[1]&1)c.emplace(std::move(*y));
            else this->guarded(s,[&]{x=*y;});
          }
        }break;
        case H_MOVE:this->guarded(s,[&]{
          if(s.p[1]&1){C y{std::move(x)};x=std::move(y);}
          else{C y{C::allocator_type(2u)};y.swap(x);x=std::move(y);}
        });break;
        case H_REG:this->guarded(s,[&]{
          x.template register_types<LF<0>,LF<1>,LF<2>>();
          if(s.p[1]&1)x.template register_types<LF<3>,LF<4>,LF<5>,LF<6>,LF<7>,
            LF<8>,LF<9>,LF<10>>();});break;
        case H_FAIL:{
          Step z=s;
          if(!z.fmask){z.fmask=(1u<<FK_ALLOC)|(1u<<FK_CTOR)|(1u<<FK_COPY);
            z.fcount=s.p[1]%4;}
          this->guarded(z,[&]{
            for(u32 k=0;k<6;++k)x.template emplace<T>(next++);
            x.template reserve<T>(this->template size<T>()*2+3);
          });
        }break;
        default:;
      }
    });
  }

  /* returns the ticks the operation took; false if it could not be done */
  template<typename F> static u64 timed(F f)
  {
    u64 a=g_ticks;
    f();
    return g_ticks-a;
  }
  template<typename It> struct InIt
  {
    using value_type=typename std::iterator_traits<It>::value_type;
    using reference=const value_type&;
    using pointer=const value_type*;
    using difference_type=std::ptrdiff_t;
    using iterator_category=std::input_iterator_tag;
    It i;
    reference operator*()const{return *i;}
    pointer operator->()const{return &*i;}
    InIt& operator++(){++i;return *this;}
    InIt operator++(int){InIt x=*this;++*this;return x;}
    friend bool operator==(const InIt& a,const InIt& b){return a.i==b.i;}
    friend bool operator!=(const InIt& a,const InIt& b){return a.i!=b.i;}
  };

  bool measure(const Step& s,u32 small,u64& out)
  {
    u32 op=s.p[1]%M_N,t=s.p[0]%LT;
    C& x=*c;
    bool done=false;
    with(t,[&](auto ty){
      using T=typename decltype(ty)::type;
      constexpr bool cp=std::is_copy_constructible<T>::value;
      x.template register_types<T>();
      std::ptrdiff_t n=(std::ptrdiff_t)x.template size<T>();
      std::ptrdiff_t d=s.p[2]%4,k=1+s.p[3]%6;
      if(n<d+k+2)return;
      std::size_t room=(std::size_t)n+64;
      if(op<=M_INS_REF||op==M_INS_RANGE||op==M_INS_IRANGE)
        x.template reserve<T>(room);
      auto& info=typeid(T);
      auto lend=[&]{return x.template end<T>();};
      auto lbend=[&]{return x.end(info);};
      done=true;
      switch(op){
        case M_INS_COPY:
          if constexpr(cp){T v{next++};out=timed([&]{x.insert(v);});}
          else done=false;
          break;
        case M_INS_MOVE:{T v{next++};out=timed([&]{x.insert(std::move(v));});}
          break;
        case M_EMPLACE:out=timed([&]{x.template emplace<T>(next++);});break;
        case M_EMPLACE_POS:out=timed([&]{
          if(s.p[4]&1)x.emplace_pos(lend()-d,next++);
          else x.template emplace_pos<T>(lbend()-d,next++);});break;
        case M_EMPLACE_HINT:out=timed([&]{
          x.template emplace_hint<T>(x.end(),next++);});break;
        case M_INS_REF:
          if constexpr(cp)out=timed([&]{
            const iface_t& r=*(lbend()-1);
            if(s.p[4]&1)x.insert(r);else x.insert(lbend()-d,r);});
          else done=false;
          break;
        case M_ERASE:out=timed([&]{
          if(s.p[4]&1)x.erase(lend()-1-d);else x.erase(lbend()-1-d);});break;
        case M_ERASE_GLOBAL:{
          auto it=x.begin();
          for(auto sg:x.segment_traversal()){
            if(sg.type_info()==info)break;
            std::advance(it,sg.end()-sg.begin());
          }
          std::advance(it,n-1-d);
          out=timed([&]{x.erase(it);});
        }break;
        case M_ERASE_RANGE:out=timed([&]{
          if(s.p[4]&1)x.erase(lend()-d-k,lend()-d);
          else x.erase(lbend()-d-k,lbend()-d);});break;
        case M_QUERY:out=timed([&]{
          const C& cx=x;
          g_log^=cx.size()+cx.empty()+(x.begin()!=x.end())+
            (cx.begin()==cx.end());});break;
        case M_QUERY_T:out=timed([&]{
          const C& cx=x;
          g_log^=cx.template size<T>()+cx.size(info)+cx.empty(info)+
            cx.capacity(info)+cx.template capacity<T>()+cx.max_size(info)+
            cx.is_registered(info)+
            (std::size_t)(cx.template end<T>()-cx.template begin<T>())+
            (std::size_t)(cx.end(info)-cx.begin(info));
          auto sg=x.template segment<T>();
          g_log^=(std::size_t)(sg.end()-sg.begin());});break;
        case M_RESERVE:out=timed([&]{
          x.template reserve<T>((std::size_t)d);x.reserve(info,2);});break;
        case M_SWAP:{
          C y{x.get_allocator()};
          if(s.p[4]&1)y.template emplace<T>(1u);
          out=timed([&]{x.swap(y);});
          x.swap(y);
        }break;
        case M_MOVE:out=timed([&]{C y{std::move(x)};x=std::move(y);});break;
        case M_INS_RANGE:
          if constexpr(cp){
            std::vector<T> v;
            for(std::ptrdiff_t z=0;z<k;++z)v.emplace_back(next++);
            using V=std::vector<T>;
            using I=InIt<typename V::const_iterator>;
            out=timed([&]{
              if(s.p[4]&1)x.insert(lend()-d,v.cbegin(),v.cend());
              else x.insert(lend()-d,I{v.cbegin()},I{v.cend()});});
          }
          else done=false;
          break;
        case M_INS_IRANGE:
          if constexpr(cp){
            C y{x.get_allocator()};
            for(std::ptrdiff_t z=0;z<k;++z)y.template emplace<T>(next++);
            out=timed([&]{
              if(s.p[4]%3==0)x.insert(y.begin(),y.end());
              else if(s.p[4]%3==1)x.insert(y.begin(info),y.end(info));
              else x.insert(lbend()-d,y.begin(info),y.end(info));});
          }
          else done=false;
          break;
        case M_ALG_EARLY:out=timed([&]{
          auto yes=[](const auto&){return true;};
          auto no=[](const auto&){return false;};
          auto b=x.begin();auto e=x.end();
          switch(s.p[4]%6){
            case 0:g_log^=boost::poly_collection::any_of(b,e,yes);break;
            case 1:g_log^=boost::poly_collection::all_of<L0,L1>(b,e,no);break;
            case 2:g_log^=boost::poly_collection::find_if(b,e,yes)==b;break;
            case 3:boost::poly_collection::for_each_n(b,3,yes);break;
            case 4:{u32 o[4];
              (void)o;
              g_log^=boost::poly_collection::find_if_not<L2>(b,e,no)==b;}break;
            default:g_log^=boost::poly_collection::none_of(b,e,yes);
          }});break;
        case M_ITER:out=timed([&]{
          auto it=x.begin();
          for(int z=0;z<3;++z){g_log^=id_of(*it);++it;}});break;
        case M_REGISTER:out=timed([&]{x.template register_types<T>();});break;
        case M_CLEAR_SMALL:case M_SHRINK_SMALL:{
          done=false;
          if(small>=(u32)LT||small==t)break;
          with(small,[&](auto tu){
            using U=typename decltype(tu)::type;
            x.template register_types<U>();
            x.template clear<U>();
            x.template shrink_to_fit<U>();
            for(std::ptrdiff_t z=0;z<k;++z)x.template emplace<U>(next++);
            done=true;
            if(op==M_CLEAR_SMALL)out=timed([&]{
              if(s.p[4]&1)x.template clear<U>();else x.clear(typeid(U));});
            else out=timed([&]{
              if(s.p[4]&1)x.template shrink_to_fit<U>();
              else x.shrink_to_fit(typeid(U));});
          });
        }break;
        case M_ARITH:out=timed([&]{
          auto a=x.begin(info);auto z=a+n/2;
          auto p=x.template begin<T>();auto q=p+n/2;
          g_log^=id_of(*z)+id_of(*q)+(u64)(z-a)+(u64)(q-p)+(a<z)+(p<q)+
            id_of(a[n/3])+id_of(p[n/3]);});break;
        case M_SEGMENTS:out=timed([&]{
          for(auto sg:x.segment_traversal())
            g_log^=(u64)(sg.end()-sg.begin())+(sg.begin()==sg.end());});break;

        case M_CLEAR_T:out=timed([&]{x.template clear<T>();});break;
        case M_CLEAR:out=timed([&]{x.clear();});break;
        case M_COPY:case M_ASSIGN:case M_EQ:{
          if(this->size<L2>()){done=false;break;}
          std::optional<C> y;
          if(op==M_COPY){out=timed([&]{y.emplace(x);});break;}
          if(op==M_ASSIGN){
            y.emplace(C::allocator_type(1u));
            if(s.p[4]&1)y->template emplace<T>(1u);
            out=timed([&]{*y=x;});
            break;
          }
          y.emplace(x);
          out=timed([&]{g_log^=(x==*y)+(x!=*y);});
        }break;
        case M_ERASE_ALL:out=timed([&]{
          if(s.p[4]&1)x.erase(x.template begin<T>(),lend());
          else x.erase(x.begin(),x.end());});break;
        case M_RANGE_END:case M_RANGE_FRONT:
          if constexpr(cp){
            std::vector<T> v;
            /* ranges go in one element at a time: long ones at the end only */
            std::ptrdiff_t w=op==M_RANGE_END?n:k;
            v.reserve((std::size_t)w);
            for(std::ptrdiff_t z=0;z<w;++z)v.emplace_back(next++);
            using V=std::vector<T>;
            using I=InIt<typename V::const_iterator>;
            out=timed([&]{
              auto p=op==M_RANGE_END?lend():x.template begin<T>();
              if(op==M_RANGE_FRONT||s.p[4]&1)x.insert(p,v.cbegin(),v.cend());
              else x.insert(p,I{v.cbegin()},I{v.cend()});});
          }
          else done=false;
          break;
        case M_GROW:{
          std::size_t z=x.template capacity<T>()*2;
          out=timed([&]{x.template reserve<T>(z);});
        }break;
        case M_SHRINK:
          x.reserve(2*x.size()+8); /* spare capacity in every segment */
          out=timed([&]{x.shrink_to_fit();});break;
        case M_SINGLES:{
          u32 f=s.p[4]%5;
          if(s.p[5]&1)x.template shrink_to_fit<T>();
          out=timed([&]{
            for(std::ptrdiff_t z=0;z<n;++z){
              if(f==0)x.template emplace<T>(next++);
              else if(f==1)x.insert(T{next++});
              else if(f==2)x.emplace_pos(lend(),next++);
              else if(f==3)x.template emplace_hint<T>(x.end(),next++);
              else x.insert(lbend(),T{next++});
            }});
        }break;
        case M_TRAVERSE:out=timed([&]{
          u64 h=0;
          for(auto& e:x)h+=id_of(e);
          g_log^=h;});break;
        case M_ALG:out=timed([&]{
          u64 h=0;
          auto no=[&](const auto& e){h+=id_of(e);return false;};
          auto b=x.begin();auto e=x.end();
          switch(s.p[4]%8){
            case 0:boost::poly_collection::for_each(b,e,no);break;
            case 1:boost::poly_collection::count_if<L0>(b,e,no);break;
            case 2:boost::poly_collection::find_if<L0,L1,L2,L3>(b,e,no);break;
            case 3:boost::poly_collection::any_of(b,e,no);break;
            case 4:boost::poly_collection::adjacent_find(b,e,
              [&](const auto& p,const auto& q){h+=id_of(p);(void)q;
                return false;});break;
            case 5:{
              static std::vector<u32> o;
              o.resize(x.size());
              boost::poly_collection::transform<L1>(b,e,o.begin(),
                [](const auto& q){return id_of(q);});
            }break;
            case 6:boost::poly_collection::is_partitioned(b,e,no);break;
            default:boost::poly_collection::partition_point<L3>(b,e,
              [](const auto&){return true;});
          }
          g_log^=h;});break;
        case M_POP_ALL:out=timed([&]{
          for(std::ptrdiff_t z=0;z<n;++z){
            if(s.p[4]&1)x.erase(lend()-1);else x.erase(lbend()-1);
          }});break;
        case M_ERASE_FRONT:out=timed([&]{
          if(s.p[4]&1)x.erase(x.template begin<T>());
          else x.erase(x.begin(info));});break;
        case M_RANGES_SHORT:
          if constexpr(cp){
            std::vector<T> v;
            for(std::ptrdiff_t z=0;z<k;++z)v.emplace_back(next++);
            using V=std::vector<T>;
            using I=InIt<typename V::const_iterator>;
            out=timed([&]{
              for(std::ptrdiff_t z=0;z<n/2;++z){
                if(s.p[4]&1)x.insert(lend(),v.cbegin(),v.cend());
                else x.insert(lend(),I{v.cbegin()},I{v.cend()});
              }});
          }
          else done=false;
          break;
        case M_MOVE_UNEQUAL:{
          std::optional<C> y;
          out=timed([&]{y.emplace(std::move(x),C::allocator_type(3u));});
          out+=timed([&]{C w{std::move(*y),C::allocator_type(1u)};
            x=std::move(w);});
        }break;
        case M_ERASE_SPAN:{
          /* from inside the first segment to the same place of another */
          auto b=x.begin();
          auto e=b;
          std::size_t before=0;
          bool past=false;
          for(auto sg:x.segment_traversal()){
            if(sg.type_info()==info){past=before!=0;break;}
            before+=(std::size_t)(sg.end()-sg.begin());
          }
          if(!past){done=false;break;}
          std::size_t to=before+(std::size_t)(s.p[4]&1?n-d-1:n/2);
          std::advance(e,(std::ptrdiff_t)to);
          if(before>(std::size_t)k)std::advance(b,k);
          out=timed([&]{x.erase(b,e);});
        }break;
        case M_ERASE_LOCAL:out=timed([&]{
          std::ptrdiff_t z=n/4;
          if(s.p[4]&1)x.erase(x.template begin<T>()+z,
            x.template begin<T>()+3*z);
          else x.erase(x.begin(info)+z,x.begin(info)+3*z);});break;
        default:done=false;
      }
    });
    return done;
  }
};

constexpr u32 SCALE=64;

void exec(const Trace& t)
{
  g_violation=Violation{};
  g_step=-1;g_in_op=false;g_log=0x1234;
  u64 pt[FK_N],ft[FK_N];
  std::memcpy(pt,g_faults.points,sizeof pt);
  std::memcpy(ft,g_faults.fired_total,sizeof ft);
  g_faults=Faults{};
  std::memcpy(g_faults.points,pt,sizeof pt);
  std::memcpy(g_faults.fired_total,ft,sizeof ft);
  run_measured=0;
  u64 ticks0=g_ticks;
  Twin a{1},b{SCALE};
  u32 scaled=t.cfg.types&15;
  for(std::size_t q=0;q<t.steps.size()&&!g_violation.set;++q){
    g_step=(int)q;
    const Step& s=t.steps[q];
    ++g_cs.steps;
    u32 h=s.op%H_N;
    if(g_verbose){
      std::printf("  [%zu] %s type L%u",q,h_name(h),s.p[0]%LT);
      if(h==H_MEASURE)std::printf(": %s",m_name(s.p[1]%M_N));
      else std::printf(" p=%u,%u fault=%x@%u",s.p[1],s.p[2],s.fmask,s.fcount);
      std::printf("\n");
    }
    if(h!=H_MEASURE){
      a.history(s,scaled);
      b.history(s,scaled);
      logv(a.c->size());logv(b.c->size());
    }
    else{
      /* an unscaled type, if any */
      u32 small=LT;
      for(u32 z=0;z<(u32)LT;++z)if(!(scaled>>((z+s.p[5])%LT)&1))
        small=(z+s.p[5])%LT;
      u32 m=s.p[1]%M_N;
      u64 ca=0,cb=0;
      bool ok=true,threw=false;
      /* injected failures may have cut the twins differently */
      u64 ratio=SCALE;
      {
        auto up=[&](u64 na,u64 nb){
          u64 q=(nb+na)/(na+1)+1;
          if(q>ratio)ratio=q;
        };
        up(a.c->size(),b.c->size());
        with(s.p[0]%LT,[&](auto ty){
          using T=typename decltype(ty)::type;
          up(a.size<T>(),b.size<T>());
        });
      }
      try{ok=a.measure(s,small,ca);ok=b.measure(s,small,cb)&&ok;}
      catch(const std::exception& e){
        threw=true;
        fail("timeexc",std::string(m_name(m))+": threw "+e.what());
      }
      if(threw)break;
      std::size_t za=a.c->size(),zb=b.c->size();
      if(!ok||g_violation.set){++g_cs.skipped;continue;}
      ++g_cs.measured;++run_measured;++g_cs.op[m][0];
      logv(m);logv(ca);logv(cb);
      bool lin=m>=M_LINEAR;
      /* generous: small factors plus slack */
      bool grow=m==M_RANGE_END||m==M_RANGE_FRONT||m==M_SINGLES||
        m==M_RANGES_SHORT; /* reallocations need not fall in both twins */
      u64 lim=lin?(grow?6:4)*ratio*(ca+100):2*ca+500;
      if(g_verbose)std::printf("      %llu ticks with %zu elements after, "
        "%llu with %zu (limit %llu)\n",(unsigned long long)ca,za,
        (unsigned long long)cb,zb,(unsigned long long)lim);
      if(g_states.size()<400000){
        auto lg=[](u64 v){u64 r=0;while(v){++r;v>>=1;}return r;};
        g_states.insert(mix64(m*4096+(s.p[0]%LT)*1024+s.p[4]%30*32)^
          mix64(lg(ca)*64+lg(za)*4096+lg(zb)));
      }
      if(4*cb>lim)++g_cs.op[m][1];
      if(cb>lim)fail("time",std::string(m_name(m))+" took "+
        std::to_string(ca)+" steps in the small twin and "+std::to_string(cb)+
        " in the one "+std::to_string(SCALE)+" times larger: "+
        (lin?"more than linear":"it depends on the size"));
    }
  }
  g_cs.ticks+=g_ticks-ticks0;
}

Trace gen(const std::string& prof,u64 seed,u64 run)
{
  Trace t;
  t.harness="cost-" SIM_KIND_NAME;
  t.prof=prof;t.seed=seed;t.run=run;
  Rng r{mix64(seed*0x10001+run)^hash_str_(t.harness+prof)};
  t.cfg.types=1+r.below(15);
  if(r.chance(1,4))t.cfg.types=15;
  u32 len=4+r.below(14);
  u32 fp=r.chance(1,3)?0:35;
  for(u32 k=0;k<len;++k){
    Step s;
    for(auto& q:s.p)q=r.u();
    u32 x=r.below(100);
    if(k<2)s.op=H_FILL;
    else if(x<50)s.op=H_MEASURE;
    else if(x<62)s.op=H_FILL;
    else s.op=1+r.below(H_MEASURE-1);
    if(k<2||r.chance(2,3)){ /* prefer a scaled type */
      u32 z;do z=r.below(LT);while(!(t.cfg.types>>z&1));
      s.p[0]=z;
    }
    if(s.op!=H_MEASURE&&k>=2&&r.chance(fp,100)){
      s.fmask=1u<<r.below(5);
      if(r.chance(1,2))s.fmask=31;
      s.fcount=r.below(40);
      s.fpers=0;
    }
    t.steps.push_back(s);
  }
  return t;
}

void stats(std::ostream& f)
{
  f<<",\"steps\":"<<g_cs.steps<<",\"measurements\":"<<g_cs.measured
   <<",\"measurements_skipped\":"<<g_cs.skipped
   <<",\"simulated_ticks\":"<<g_cs.ticks<<",\"fired\":{";
  for(u32 k=0;k<FK_N;++k)f<<(k?",":"")<<"\""<<fk_name(k)<<"\":"
    <<g_faults.fired_total[k];
  f<<"},\"points\":{";
  for(u32 k=0;k<FK_N;++k)f<<(k?",":"")<<"\""<<fk_name(k)<<"\":"
    <<g_faults.points[k];
  f<<"},\"ops\":{";
  for(u32 k=0;k<M_N;++k)f<<(k?",":"")<<"\""<<m_name(k)<<"\":["
    <<g_cs.op[k][0]<<","<<g_cs.op[k][1]<<"]";
  f<<"}";
}
bool nontrivial(){return run_measured>=1;}

} /* namespace sim */

int main(int argc,char** argv)
{
  using namespace sim;
  DriverHooks h{exec,gen,stats,nontrivial};
  return driver_main(argc,argv,h,g_states,g_runs);
}
