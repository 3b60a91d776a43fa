// Side scenarios: private collections over other interfaces than the main
// histories use (other signatures and concepts, references of one collection
// inserted into another of a different interface, type-erased objects as
// elements, a concrete base), driven by the seeded parameters of one step
// against a small model, under the same allocator, heap policy and faults.
#define SIM_FILLERS 10
#include "core.hpp"
#include "kinds.hpp"
#include "trace.hpp"
#include <optional>
#if SIM_KIND==2
#include <boost/type_erasure/operators.hpp>
#endif

namespace sim{

#if SIM_KIND==1
/* -------------------------------------------------------------- function */
static u32 tok_copies;
struct Tok
{
  u32 v;
  explicit Tok(u32 v):v{v}{}
  Tok(const Tok& x):v{x.v}{++tok_copies;}
  Tok(Tok&& x)noexcept:v{x.v}{x.v=0;}
  Tok& operator=(const Tok&)=delete;
  u32 m0(Tok& b,const Tok& c,Tok d)
  {u32 r=v*3+b.v*5+c.v*7+d.v*11;++b.v;return r^1000;}
  u32 m1(Tok& b,const Tok& c,Tok d)
  {u32 r=v*3+b.v*5+c.v*7+d.v*11;++b.v;return r^1001;}
};
inline u32 body(u32 id,u32 a,Tok& b,u32 c,u32 d)
{
  u32 r=a*3+b.v*5+c*7+d*11;
  ++b.v;
  fault_point(FK_CALL);
  return r^id;
}
u32 fp0(Tok a,Tok& b,const Tok& c,Tok d)
{return body(1000,a.v,b,c.v,d.v);}
u32 fp1(Tok a,Tok& b,const Tok& c,Tok d)
{return body(1001,a.v,b,c.v,d.v);}
using sig1=u32(Tok,Tok&,const Tok&,Tok);
using sig2=u32*(u32);
using sig3=void(u8); /* callables of sig2 qualify */
struct P0
{
  mutable u32 id;
  explicit P0(u32 i):id{i}{fault_point(FK_CTOR);}
  P0(const P0& x):id{x.id}{fault_point(FK_COPY);}
  P0(P0&& x)noexcept:id{x.id}{x.id=0xdead;}
  P0& operator=(P0&& x)noexcept{id=x.id;x.id=0xdead;return *this;}
  P0& operator=(const P0&)=delete;
  u32 operator()(Tok a,Tok& b,const Tok& c,Tok d)const
  {return body(id,a.v,b,c.v,d.v);}
  u32* operator()(u32 k)const{id+=k;return &id;}
};
struct alignas(64) P1 /* generic: sees the value categories */
{
  u8  pad[65]={};
  mutable u32 id;
  explicit P1(u32 i):id{i}{fault_point(FK_CTOR);}
  P1(const P1& x):id{x.id}{fault_point(FK_COPY);}
  P1(P1&& x)noexcept:id{x.id}{x.id=0xdead;}
  P1& operator=(P1&& x)noexcept{id=x.id;x.id=0xdead;return *this;}
  template<typename A,typename B,typename C,typename D>
  u32 operator()(A&& a,B&& b,C&& c,D&& d)const
  {
    static constexpr bool ok=
      std::is_same<A&&,Tok&&>::value&&std::is_same<B&&,Tok&>::value&&
      std::is_same<C&&,const Tok&>::value&&std::is_same<D&&,Tok&&>::value;
    if constexpr(!ok)return 0xbad;
    else{
      Tok t{std::move(a)},u{std::move(d)};
      return body(id,t.v,b,c.v,u.v);
    }
  }
  u32* operator()(u32 k)const{id+=k;return &id;}
};
struct P2 final:P0 /* move only, hidden address */
{
  explicit P2(u32 i):P0{i}{}
  P2(const P2&)=delete;
  P2(P2&&)=default;
  P2& operator=(P2&&)=default;
  SIM_ODD_AMP(P2)
};
using P3=u32(*)(Tok,Tok&,const Tok&,Tok);
using P4=u32(Tok::*)(Tok&,const Tok&,Tok);
constexpr int NPT=5;
template<> struct is_element<P3>:std::true_type{};
template<> struct is_element<P4>:std::true_type{};
template<typename T> T make(u32 id){return T{id};}
template<> inline P3 make<P3>(u32 id){return id&1?&fp1:&fp0;}
template<> inline P4 make<P4>(u32 id){return id&1?&Tok::m1:&Tok::m0;}
template<typename T> u32 ident(const T& x){return x.id;}
inline u32 ident(const P3& x){return x==&fp1?1001:x==&fp0?1000:0;}
inline u32 ident(const P4& x){return x==&Tok::m1?1001:x==&Tok::m0?1000:0;}
template<typename Sig,typename P> using pcoll=boost::function_collection<
  Sig,SimAlloc<boost::poly_collection::function_collection_value_type<Sig>,P>>;
template<typename P> using PC1=pcoll<sig1,P>;
template<typename P> using PC2=pcoll<sig2,P>;
template<typename P> using PC3=pcoll<sig3,P>;
constexpr int ntypes(int c){return c==0?5:3;}
template<typename V> const void* addr(const V& x){return x.data();}
template<typename V> const std::type_info& type(const V& x)
{return x.target_type();}

template<typename F>
bool invoke1(F&& f,u32 id,u32 k,bool fault)
{
  Tok a{k|1},b{k*3+2},c{k*5+3},d{k*7+4};
  u32 want=(a.v*3+b.v*5+c.v*7+d.v*11)^id,bv=b.v,cv=c.v;
  tok_copies=0;
  u32 got=0;
  bool thrown=false;
  try{
    if(fault){InOp in;got=f(std::move(a),b,c,std::move(d));}
    else got=f(std::move(a),b,c,std::move(d));
  }
  catch(const Injected& i){if(i.kind!=FK_CALL)throw;thrown=true;}
  if(thrown)return g_faults.fired&&b.v==bv+1&&d.v==0;
  return got==want&&a.v==0&&b.v==bv+1&&c.v==cv&&d.v==0&&tok_copies==0;
}
inline bool use(
  boost::poly_collection::function_collection_value_type<sig1>& x,u32 id,u32 k,
  bool fault)
{
  if(!invoke1(x,id,k,fault))return false;
  auto y=x;
  const auto& z=y;
  if(!invoke1(z,id,k+1,false))return false;
  std::function<sig1> f=x.operator std::function<sig1>();
  std::function<sig1> g=f;
  return invoke1(g,id,k+2,false)&&bool(x);
}
inline bool use(
  boost::poly_collection::function_collection_value_type<sig2>& x,u32 id,u32 k,
  bool)
{
  /* a pointer to the element's own state comes out */
  k&=0xff;
  u32& r=*x(k);
  if(r!=id+k)return false;
  const char* p=(const char*)x.data();
  if((const char*)&r<p||(const char*)&r>=p+sizeof(P1))return false;
  auto f=x.operator std::function<sig2>();
  u32& r2=*f(1);
  bool ok=&r2==&r&&r==id+k+1;
  r=id;
  return ok;
}
template<typename V> u32* target_id(V& x)
{
  if(P0* p=x.template target<P0>())return &p->id;
  if(P1* p=x.template target<P1>())return &p->id;
  if(P2* p=x.template target<P2>())return &p->id;
  return nullptr;
}
inline bool use(
  boost::poly_collection::function_collection_value_type<sig3>& x,u32 id,u32 k,
  bool)
{
  static_assert(std::is_void<decltype(x(u8(1)))>::value,"void expected");
  u32* e=target_id(x);
  x((u8)k);
  bool ok=*e==id+(k&0xff);
  auto f=x.operator std::function<sig3>();
  f(3);
  ok=ok&&*e==id+(k&0xff)+3;
  *e=id;
  return ok;
}
constexpr bool p_copyable(int t){return t!=2;}

#elif SIM_KIND==2
/* ------------------------------------------------------------------- any */
struct P0
{
  u32 id;
  explicit P0(u32 i):id{i}{fault_point(FK_CTOR);}
  P0(const P0& x):id{x.id}{fault_point(FK_COPY);}
  P0(P0&& x)noexcept:id{x.id}{x.id=0xdead;}
  P0& operator=(P0&& x)noexcept{id=x.id;x.id=0xdead;return *this;}
  P0& operator=(const P0& x){fault_point(FK_COPY);id=x.id;return *this;}
  u32 operator()(u32 k)const{return id^(k*77);}
  P0& operator++(){++id;return *this;}
};
struct P1:P0{alignas(64) u8 pad[65]={};using P0::P0;};
struct P2 final:P0
{
  explicit P2(u32 i):P0{i}{}
  P2(const P2&)=delete;
  P2(P2&&)=default;
  P2& operator=(P2&&)=default;
  SIM_ODD_AMP(P2)
};
/* type-erased objects as elements: with typeid_ (an interface to what it
 * holds, elsewhere) and without (opaque) */
using P3=te::any<boost::mpl::vector<te::copy_constructible<>,te::assignable<>,
  te::typeid_<>,te::callable<u32(u32),const te::_self>,te::incrementable<>>>;
using P4=te::any<boost::mpl::vector<te::copy_constructible<>,te::assignable<>,
  te::callable<u32(u32),const te::_self>,te::incrementable<>>>;
constexpr int NPT=5;
template<> struct is_element<P3>:std::true_type{};
template<> struct is_element<P4>:std::true_type{};
template<typename T> T make(u32 id){return T{id};}
template<> inline P3 make<P3>(u32 id){return P3{P0{id}};}
template<> inline P4 make<P4>(u32 id){return P4{P1{id}};}
template<typename T> u32 ident(const T& x){return x.id;}
inline u32 ident(const P3& x){return x(0);}
inline u32 ident(const P4& x){return x(0);}
using con1=boost::mpl::vector<
  te::typeid_<>,te::callable<u32(u32),const te::_self>,te::relaxed>;
using con2=boost::mpl::vector<te::incrementable<>,te::relaxed>; /* no typeid_ */
using con3=boost::mpl::vector<te::callable<u32(u32),const te::_self>,
  te::incrementable<>,te::relaxed>;
template<typename Con,typename P> using pcoll=boost::any_collection<
  Con,SimAlloc<boost::poly_collection::any_collection_value_type<Con>,P>>;
template<typename P> using PC1=pcoll<con1,P>;
template<typename P> using PC2=pcoll<con2,P>;
template<typename P> using PC3=pcoll<con3,P>;
constexpr int ntypes(int){return 5;}
template<typename V> const void* addr(const V& x)
{return te::any_cast<const void*>(&x);}
template<typename V> const std::type_info& type(const V& x)
{return te::typeid_of(x);}
template<typename V> u32 pcall_(V& x,u32 k,std::integral_constant<int,0>)
{const V& y=x;return y(k);}
inline bool use(
  boost::poly_collection::any_collection_value_type<con1>& x,u32 id,u32 k,bool)
{
  const auto& y=x;
  auto z=x;
  return y(k)==(id^(k*77))&&z(k)==y(k)&&addr(z)==addr(x);
}
inline u32 id_behind(const void* p,const std::type_info& i)
{
  if(i==typeid(P0))return ((const P0*)p)->id;
  if(i==typeid(P1))return ((const P1*)p)->id;
  if(i==typeid(P2))return ((const P2*)p)->id;
  if(i==typeid(P3))return ident(*(const P3*)p);
  if(i==typeid(P4))return ident(*(const P4*)p);
  return 0;
}
inline void set_behind(void* p,const std::type_info& i,u32 id)
{
  if(i==typeid(P0))((P0*)p)->id=id;
  if(i==typeid(P1))((P1*)p)->id=id;
  if(i==typeid(P2))((P2*)p)->id=id;
  if(i==typeid(P3))te::any_cast<P0&>(*(P3*)p).id=id;
  if(i==typeid(P4))*(P4*)p=make<P4>(id);
}
inline bool use(
  boost::poly_collection::any_collection_value_type<con2>& x,u32 id,u32,bool)
{
  ++x;
  bool ok=id_behind(addr(x),type(x))==id+1;
  set_behind((void*)addr(x),type(x),id);
  return ok;
}
inline bool use(
  boost::poly_collection::any_collection_value_type<con3>& x,u32 id,u32 k,bool)
{
  const auto& y=x;
  bool ok=y(k)==(id^(k*77));
  ++x;
  ok=ok&&y(k)==((id+1)^(k*77));
  set_behind((void*)addr(x),type(x),id);
  return ok;
}
constexpr bool p_copyable(int t){return t!=2;}

#else
/* ------------------------------------------------------------------ base */
struct P0 /* concrete base, itself an element type */
{
  u32 id;
  explicit P0(u32 i):id{i}{fault_point(FK_CTOR);}
  P0(const P0& x):id{x.id}{fault_point(FK_COPY);}
  P0(P0&& x)noexcept:id{x.id}{x.id=0xdead;}
  P0& operator=(P0&& x)noexcept{id=x.id;x.id=0xdead;return *this;}
  P0& operator=(const P0&)=delete;
  virtual ~P0()=default;
  virtual u32 call(u32 k)const{return id^(k*77);}
  SIM_ODD_AMP(P0)
};
struct Q /* second interface of the same objects */
{
  u64 q=0x51;
  virtual ~Q()=default;
  virtual u32 qcall(u32 k)const=0;
};
template<typename D> struct QI:Q
{
  u32 qcall(u32 k)const override
  {return static_cast<const D*>(this)->id^(k*99);}
};
struct P1:P0,QI<P1>{using P0::P0;u32 call(u32 k)const override{return id^(k*78);}};
struct P2 final:QI<P2>,P0
{
  u8 pad[3]={1,2,3};
  explicit P2(u32 i):P0{i}{}
  P2(const P2&)=delete;
  P2(P2&&)=default;
  P2& operator=(P2&&)=default;
  u32 call(u32 k)const override{return id^(k*79);}
};
struct P3:QI<P3>,P1,Pad
{
  using P1::P1;
  u32 call(u32 k)const override{return id^(k*80);}
  u32 qcall(u32 k)const override{return id^(k*81);}
};
struct P4 final:Pad,QI<P4>,P0
{
  alignas(64) u8 pad[65]={};
  using P0::P0;
  u32 call(u32 k)const override{return id^(k*82);}
};
constexpr int NPT=5;
template<> struct is_element<P3>:std::true_type{};
template<> struct is_element<P4>:std::true_type{};
template<typename T> T make(u32 id){return T{id};}
template<typename T> u32 ident(const T& x){return x.id;}
template<typename P> using PC1=boost::base_collection<P0,SimAlloc<P0,P>>;
template<typename P> using PC2=boost::base_collection<P1,SimAlloc<P1,P>>;
template<typename P> using PC3=boost::base_collection<Q,SimAlloc<Q,P>>;
template<typename V> const void* addr(const V& x)
{return dynamic_cast<const void*>(std::addressof(x));}
template<typename V> const std::type_info& type(const V& x){return typeid(x);}
inline bool use(P0& x,u32 id,u32 k,bool)
{
  const std::type_info& i=typeid(x);
  u32 z=i==typeid(P0)?77:i==typeid(P1)?78:i==typeid(P2)?79:i==typeid(P3)?80:82;
  return x.call(k)==(id^(k*z))&&x.id==id;
}
inline bool use(P1& x,u32 id,u32 k,bool b)
{return use(static_cast<P0&>(x),id,k,b);}
inline bool use(Q& x,u32 id,u32 k,bool)
{
  return x.q==0x51&&x.qcall(k)==(id^(k*(typeid(x)==typeid(P3)?81:99)));
}
constexpr bool p_copyable(int t){return t!=2;}
#endif

template<> struct is_element<P0>:std::true_type{};
template<> struct is_element<P1>:std::true_type{};
template<> struct is_element<P2>:std::true_type{};

/* which of the five types each of the three interfaces takes */
template<int C,int T> struct takes
{
#if SIM_KIND==0
  static constexpr bool value=C==0?true:C==1?T==1||T==3:T==1||T==2||T==4;
#else
  static constexpr bool value=T<ntypes(C);
#endif
};
template<int T> struct ptype;
template<> struct ptype<0>{using type=P0;};
template<> struct ptype<1>{using type=P1;};
template<> struct ptype<2>{using type=P2;};
template<> struct ptype<3>{using type=P3;};
template<> struct ptype<4>{using type=P4;};

template<int C,int T=0,typename F>
void with_p(int t,F&& f)
{
  if constexpr(T<NPT){
    if(t==T){
      if constexpr(takes<C,T>::value)
        f(std::integral_constant<int,T>{},type_<typename ptype<T>::type>{});
    }
    else with_p<C,T+1>(t,f);
  }
}
inline int p_tag(const std::type_info& i)
{
  return i==typeid(P0)?0:i==typeid(P1)?1:i==typeid(P2)?2:i==typeid(P3)?3:
    i==typeid(P4)?4:-1;
}

struct PModel
{
  std::vector<u32> v[NPT];
  bool reg[NPT]={};
};

struct Probe
{
  using Pol=Policy<false,true,false>;
  using A1=PC1<Pol>;
  using A2=PC2<Pol>;
  using A3=PC3<Pol>;
  const Step& s;
  Rng r;
  std::optional<A1> c1;
  std::optional<A2> c2;
  std::optional<A3> c3;
  PModel m[3];
  u32 next=2;
  u64 nops=0;

  explicit Probe(const Step& s):s(s),r{((u64)s.p[0]<<32)^s.p[1]}{}

  template<typename F> int call(F f) /* 0 ok, 1 injected, 2 unreg, 3 nocopy */
  {
    g_faults.arm(s.fmask|(s.fmask?1u<<FK_CALL:0),(int)s.fcount,s.fpers!=0);
    int o=0;
    try{InOp in;f();}
    catch(const InjectedAlloc&){o=1;}
    catch(const Injected&){o=1;}
    catch(const boost::poly_collection::unregistered_type&){o=2;}
    catch(const boost::poly_collection::not_copy_constructible&){o=3;}
    catch(...){o=4;}
    g_faults.mask=0;
    g_new.in_op=0;
    logv(0x9B0B00u+(u32)o);
    if(o==4||(o==1&&!g_faults.fired))
      fail("bind","side scenario: unexpected exception");
    return o;
  }
  u32 fresh(int t)
  {
#if SIM_KIND==1
    if(t>=3)return 1000+(next++&1);
#endif
    (void)t;
    return next++;
  }

  template<int C,typename X> void check(X& x)
  {
    Quiet q;
    std::size_t total=0;
    std::string at="side scenario, interface "+std::to_string(C)+": ";
    const X& cx=x;
    int guard=0;
    for(auto sg:x.segment_traversal()){
      if(++guard>NPT)return fail("view",at+"too many segments");
      int t=p_tag(sg.type_info());
      if(t<0||!m[C].reg[t])return fail("view",at+"unexpected segment");
      auto& v=m[C].v[t];
      if((std::size_t)(sg.end()-sg.begin())!=v.size())
        return fail("bind",at+"segment P"+std::to_string(t)+" holds "+
          std::to_string(sg.end()-sg.begin())+" elements, expected "+
          std::to_string(v.size()));
      with_p<C>(t,[&](auto,auto ty){
        using T=typename decltype(ty)::type;
        auto lb=x.begin(typeid(T));
        auto l=x.template begin<T>();
        for(std::size_t k=0;k<v.size()&&!g_violation.set;++k,++l,++lb){
          T& e=*l;
          const void* p=std::addressof(e);
          std::string w=at+"P"+std::to_string(t)+"["+std::to_string(k)+"]: ";
          if(opaque_addr(p)%alignof(T))return fail("bind",w+"not aligned");
          if(ident(e)!=v[k])return fail("bind",w+"holds another value");
          auto& i=*lb;
          if(addr(i)!=p||!(type(i)==typeid(T)))
            return fail("bind",w+"the interface denotes another object");
          if(!use(i,v[k],(u32)(k*13+5),false))
            return fail("bind",w+"a call through the interface did not reach "
              "the element as made");
          if(addr(cx.begin(typeid(T))[(std::ptrdiff_t)k])!=p||
             addr(sg.begin()[(std::ptrdiff_t)k])!=p)
            return fail("bind",w+"views disagree");
          if(ident(e)!=v[k])return fail("bind",w+"changed by a call");
        }
      });
      if(g_violation.set)return;
      total+=v.size();
    }
    std::size_t n=0;
    for(auto it=cx.begin();it!=cx.end();++it)
      if(++n>total)return fail("view",at+"traversal overruns");
    if(n!=total||cx.size()!=total)fail("view",at+"wrong number of elements");
    for(int t=0;t<NPT;++t)
      if(m[C].reg[t]){
        bool found=false;
        for(auto sg:x.segment_traversal())
          if(p_tag(sg.type_info())==t)found=true;
        if(!found)return fail("reg",at+"segment lost");
      }
  }
  void check_all()
  {
    if(!g_violation.set)check<0>(*c1);
    if(!g_violation.set)check<1>(*c2);
    if(!g_violation.set)check<2>(*c3);
  }

  /* registration may happen even if the insertion then fails */
  template<typename X> void resync(X& x,int C,int t)
  {
    Quiet q;
    with_t(C,t,[&](auto ty){
      if(x.is_registered(typeid(typename decltype(ty)::type)))
        m[C].reg[t]=true;
    });
  }
  template<typename F> void with_t(int C,int t,F f)
  {
    auto g=[&](auto,auto ty){f(ty);};
    if(C==0)with_p<0>(t,g);
    else if(C==1)with_p<1>(t,g);
    else with_p<2>(t,g);
  }

  template<int C,typename X> void mutate(X& x)
  {
    int t=(int)r.below(NPT);
    u32 how=r.below(10),z=r.u();
    with_p<C>(t,[&](auto,auto ty){
      using T=typename decltype(ty)::type;
      auto& v=m[C].v[t];
      u32 id=fresh(t);
      auto done=[&](int o,std::size_t pos){
        if(o==0){m[C].reg[t]=true;v.insert(v.begin()+(std::ptrdiff_t)pos,id);}
        else if(o==1)this->resync(x,C,t);
        else fail("exc","side scenario: insertion refused");
      };
      /* type-erased objects move by copying: basic guarantee in the middle */
      constexpr bool throwing=is_any_elem<T>::value;
      auto unspecified=[&]{
        Quiet q;
        x.template clear<T>();
        v.clear();
      };
      if(how<3){
        std::optional<T> tmp;
        {Quiet q;tmp.emplace(make<T>(id));}
        /* by type, at the end */
        int o=call([&]{
          if(how==0)x.template emplace<T>(std::move(*tmp));
          else{
            x.template register_types<T>();
            x.template emplace_pos<T>(x.template end<T>(),std::move(*tmp));
          }
        });
        done(o,v.size());
      }
      else if(how==3){
        if constexpr(!is_any_elem<T>::value){
          std::optional<T> tmp;
          {Quiet q;tmp.emplace(make<T>(id));}
          int o=call([&]{x.insert(std::move(*tmp));});
          done(o,v.size());
        }
      }
      else if(how==4&&!v.empty()){
        std::size_t p=z%v.size();
        int o=call([&]{
          if(z&0x100)x.erase(x.template begin<T>()+(std::ptrdiff_t)p);
          else x.erase(x.begin(typeid(T))+(std::ptrdiff_t)p);
        });
        if(o&&throwing)unspecified();
        else v.erase(v.begin()+(std::ptrdiff_t)p);
      }
      else if(how==5){
        call([&]{x.template reserve<T>(z%20);});
        resync(x,C,t);
      }
      else if(how==6){call([&]{x.shrink_to_fit();});}
      else if(how==7&&m[C].reg[t]){
        std::optional<T> tmp;
        {Quiet q;tmp.emplace(make<T>(id));}
        std::size_t p=v.size()?z%(v.size()+1):0;
        int o=call([&]{
          x.template emplace_pos<T>(
            x.template begin<T>()+(std::ptrdiff_t)p,std::move(*tmp));});
        /* strong anywhere if moves are nothrow */
        if(o==1&&throwing&&p<v.size())unspecified();
        else done(o,p);
      }
      else if(how==8){
        int o=call([&]{X y{std::move(x)};X w{y.get_allocator()};w.swap(y);
          x=std::move(w);});
        if(o)fail("exc","side scenario: move or swap failed");
      }
      else if(how==9&&!v.empty()){
        /* a fault may strike inside the invoked element */
        Quiet q;
        g_faults.arm(1u<<FK_CALL,(int)(z%3),false);
        std::size_t p=z%v.size();
        bool ok=use(x.begin(typeid(T))[(std::ptrdiff_t)p],v[p],z>>8,true);
        g_faults.mask=0;
        if(!ok)fail("bind","side scenario: a call that fails midway did not "
          "reach the element as made");
      }
    });
  }
  template<typename T> struct is_any_elem:std::false_type{};
#if SIM_KIND==2
  template<typename C_,typename T_>
  struct is_any_elem<te::any<C_,T_>>:std::true_type{};
#endif

  /* references of one interface inserted into a collection of another */
  template<int C,int D,typename X,typename Y> void cross(X& x,Y& y)
  {
    int t=(int)r.below(NPT);
    u32 z=r.u();
    auto& v=m[C].v[t];
    if(v.empty())return;
    std::size_t p=z%v.size();
    bool there=m[D].reg[t];
#if SIM_KIND==0
    /* static and dynamic type agree: a value of that type, not an interface */
    bool plain=C==1&&t==1;
#else
    bool plain=false;
#endif
    u32 id=v[p];
    auto& ref=x.begin(x_type(t))[(std::ptrdiff_t)p];
    const auto& cref=ref;
    int o=call([&]{
      if(z&0x1000)y.insert(cref);
      else if(z&0x2000)y.insert(ref);
      else{
        auto it=x.cbegin(x_type(t))+(std::ptrdiff_t)p;
        y.insert(it,it+1);
      }
    });
    if(o==1)resync(y,D,t);
    if(plain&&o==0)m[D].reg[t]=there=true;
    if(!there&&!plain){
      if(o!=2&&o!=1)fail("exc","side scenario: reference to an element of an "
        "unregistered type was not refused");
    }
    else if(!p_copyable(t)){
      if(o!=3&&o!=1)fail("exc","side scenario: copy of a move-only element "
        "was not refused");
    }
    else if(o==0)m[D].v[t].push_back(id);
    else if(o!=1)fail("exc","side scenario: reference to an element was "
      "refused");
  }
  const std::type_info& x_type(int t)
  {
    return t==0?typeid(P0):t==1?typeid(P1):t==2?typeid(P2):t==3?typeid(P3):
      typeid(P4);
  }

  void run()
  {
    {
      Quiet q;
      auto& ar=g_arena[s.p[2]%2];
      c1.emplace(typename A1::allocator_type(&ar));
      c2.emplace(typename A2::allocator_type(&ar));
      c3.emplace(typename A3::allocator_type(&ar));
    }
    u32 n=4+s.p[3]%12;
    for(u32 k=0;k<n&&!g_violation.set;++k){
      ++nops;
      switch(r.below(8)){
        case 0:case 1:mutate<0>(*c1);break;
        case 2:case 3:mutate<1>(*c2);break;
        case 4:case 5:mutate<2>(*c3);break;
#if SIM_KIND==0
        case 6:cross<1,0>(*c2,*c1);break;
        default:cross<0,0>(*c1,*c1);break;
#else
#if SIM_KIND==1
        case 6:cross<1,2>(*c2,*c3);break;
#else
        case 6:cross<2,1>(*c3,*c2);break;
#endif
        default:
          switch(r.below(3)){
#if SIM_KIND==2
            case 0:cross<2,0>(*c3,*c1);break;
#endif
            case 1:cross<1,1>(*c2,*c2);break;
            default:cross<0,0>(*c1,*c1);
          }
#endif
      }
      check_all();
    }
    Quiet q;
    c1.reset();c2.reset();c3.reset();
  }
};

u64 run_probe(const Step& s)
{
  std::size_t mc[N_ARENA];
  for(u32 k=0;k<N_ARENA;++k){mc[k]=g_arena[k].max_count;g_arena[k].max_count=0;}
  Probe p{s};
  p.run();
  for(u32 k=0;k<N_ARENA;++k)g_arena[k].max_count=mc[k];
  g_heap.op_arenas=0;
  g_new.in_op=0;
  return p.nops;
}

} /* namespace sim */
