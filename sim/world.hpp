// The simulated world: several real collections, a reference model, clients'
// held positions, operations, observation and oracles.
#ifndef SIM_WORLD_HPP
#define SIM_WORLD_HPP

#include "kinds.hpp"
#include "trace.hpp"
#include <algorithm>
#include <iterator>
#include <list>
#include <optional>

namespace sim{

/* A second std::type_info object describing the same type, as dynamic
 * modules produce: same name contents, other address. */
struct DupInfo:std::type_info
{
  static const char* dup(const char* s)
  {
    auto n=std::strlen(s)+1;auto p=(char*)std::malloc(n);
    std::memcpy(p,s,n);return p;
  }
  explicit DupInfo(const std::type_info& i):std::type_info(dup(i.name())){}
};
inline const std::type_info& dup_info(int t)
{
  static const DupInfo* d[NT]={};
  if(!d[t])d[t]=new DupInfo{info_of(t)};
  return *d[t];
}

/* ------------------------------------------------------------------ model */

struct MSeg{bool reg=false;bool warm=false;std::vector<u32> v;};
struct MColl
{
  bool alive=false;
  u32  arena=0;
  MSeg seg[NT];
  std::vector<int> order;
  std::size_t total()const
  {std::size_t n=0;for(auto& s:seg)n+=s.v.size();return n;}
  u32 regmask()const
  {u32 r=0;for(int t=0;t<NT;++t)if(seg[t].reg)r|=1u<<t;return r;}
};

struct OSeg
{
  bool reg=false;
  std::vector<u32> ids;
  std::vector<const void*> addr;
  std::size_t cap=0,maxs=0;
};
struct Obs{bool alive=false;u32 arena=0;OSeg seg[NT];std::vector<int> order;};

inline bool same_ids(const MColl& m,const Obs& o,u32 mask=0xffffffffu)
{
  for(int t=0;t<NT;++t)if(mask&(1u<<t))if(m.seg[t].v!=o.seg[t].ids)return false;
  return true;
}
inline u32 obs_reg(const Obs& o)
{u32 r=0;for(int t=0;t<NT;++t)if(o.seg[t].reg)r|=1u<<t;return r;}

inline std::string show(const std::vector<u32>& v)
{
  std::string s="[";
  for(std::size_t i=0;i<v.size()&&i<24;++i)
    s+=(i?",":"")+std::to_string(v[i]);
  if(v.size()>24)s+=",...";
  return s+"]";
}
inline std::string show(const MColl& m)
{
  std::string s;
  for(int t=0;t<NT;++t)if(m.seg[t].reg)
    s+="T"+std::to_string(t)+show(m.seg[t].v)+" ";
  return s;
}
inline std::string show(const Obs& m)
{
  std::string s;
  for(int t=0;t<NT;++t)if(m.seg[t].reg)
    s+="T"+std::to_string(t)+show(m.seg[t].ids)+" ";
  return s;
}

/* --------------------------------------------------------------- outcomes */

enum OutK{O_OK,O_INJ,O_UNREG,O_NOCOPY,O_NOEQ,O_LENGTH,O_BADALLOC,O_OTHER};
inline const char* out_name(int k)
{
  static const char* n[]={"ok","injected fault","unregistered_type",
    "not_copy_constructible","not_equality_comparable","length_error",
    "bad_alloc","other exception"};
  return n[k];
}
struct Outcome{OutK k=O_OK;const std::type_info* pinfo=nullptr;};

/* --------------------------------------------------------------------- ops */

enum Op:u32
{
  OP_NEW,OP_DESTROY,OP_COPYC,OP_COPYC_AL,OP_MOVEC,OP_MOVEC_AL,OP_RANGEC,
  OP_CASSIGN,OP_MASSIGN,OP_SWAP,OP_REG,OP_RESERVE,OP_RESERVE_T,OP_SHRINK,
  OP_SHRINK_T,OP_INSERT,OP_RANGE,OP_ERASE,OP_ERASE_RANGE,OP_CLEAR,OP_CLEAR_T,
  OP_EQ,OP_MUTATE,OP_UNREG,OP_CURSOR,OP_EXHAUST,OP_LENGTH,OP_SELFASSIGN,
  OP_ITERS,OP_FILL,OP_WIDE,OP_SIDE,OP_N
};
inline const char* op_name(u32 o)
{
  static const char* n[]={"new","destroy","copy-construct",
    "copy-construct(al)","move-construct","move-construct(al)",
    "range-construct","copy-assign","move-assign","swap","register_types",
    "reserve(n)","reserve<T>(n)","shrink_to_fit()","shrink_to_fit<T>()",
    "insert/emplace","range-insert","erase","erase-range","clear()",
    "clear<T>()","==","mutate","query-unregistered","hold-position",
    "fill-under-exhaustion","beyond-max_size","self-assign","iterator-laws","fill",
    "register-many","side-scenario"};
  return o<OP_N?n[o]:"?";
}

/* user input iterator, single pass, may fail */
template<typename T>
struct InIt
{
  using value_type=T;
  using reference=const T&;
  using pointer=const T*;
  using difference_type=std::ptrdiff_t;
  using iterator_category=std::input_iterator_tag;
  const T* p=nullptr;
  reference operator*()const{fault_point(FK_ITER);return *p;}
  pointer operator->()const{return p;}
  InIt& operator++(){fault_point(FK_ITER);++p;return *this;}
  InIt operator++(int){InIt x=*this;++*this;return x;}
  friend bool operator==(const InIt& x,const InIt& y){return x.p==y.p;}
  friend bool operator!=(const InIt& x,const InIt& y){return x.p!=y.p;}
};
/* forward variant */
template<typename T>
struct FwIt
{
  using value_type=T;
  using reference=const T&;
  using pointer=const T*;
  using difference_type=std::ptrdiff_t;
  using iterator_category=std::forward_iterator_tag;
  const T* p=nullptr;
  reference operator*()const{fault_point(FK_ITER);return *p;}
  pointer operator->()const{return p;}
  /* increments do not fail: libstdc++'s uninitialized_copy loses track of one
   * element if they do */
  FwIt& operator++(){++p;return *this;}
  FwIt operator++(int){FwIt x=*this;++*this;return x;}
  friend bool operator==(const FwIt& x,const FwIt& y){return x.p==y.p;}
  friend bool operator!=(const FwIt& x,const FwIt& y){return x.p!=y.p;}
};
/* iterator over interface references */
struct IfIt
{
  using value_type=iface_t;
  using reference=const iface_t&;
  using pointer=const iface_t*;
  using difference_type=std::ptrdiff_t;
  using iterator_category=std::forward_iterator_tag;
  const iface_t* const* p=nullptr;
  reference operator*()const{fault_point(FK_ITER);return **p;}
  pointer operator->()const{return *p;}
  IfIt& operator++(){fault_point(FK_ITER);++p;return *this;}
  IfIt operator++(int){IfIt x=*this;++*this;return x;}
  friend bool operator==(const IfIt& x,const IfIt& y){return x.p==y.p;}
  friend bool operator!=(const IfIt& x,const IfIt& y){return x.p!=y.p;}
};

u64 run_probe(const Step&);   /* probe.cpp */

struct Stats
{
  u64 steps=0,ops_ok=0,ops_failed=0,ops_intrinsic=0,ops_skipped=0;
  u64 op_count[OP_N]={},op_failed[OP_N]={};
  u64 alias_growth=0,dup_lookups=0,cursor_checks=0,observations=0;
  u64 growths=0,exhaust_inserts=0,recoveries=0,unequal_moves=0,seg_created=0,foreign=0,fills=0,wide=0,big=0,side=0;
};
extern Stats g_stats;
extern std::unordered_set<u64> g_states;   /* distinct abstract states */
extern bool g_keep; /* C03: failed end insertions leave storage alone */
extern std::size_t g_states_cap;

template<typename Pol>
struct World
{
  using A=SimAlloc<iface_t,Pol>;
  using C=coll_t<A>;
  using iterator=typename C::iterator;
  using const_iterator=typename C::const_iterator;
  using lb_iterator=typename C::local_base_iterator;
  using clb_iterator=typename C::const_local_base_iterator;
  template<typename T> using l_iterator=
    typename C::template local_iterator<T>;
  template<typename T> using cl_iterator=
    typename C::template const_local_iterator<T>;
  static constexpr int NS=3;

  struct Cursor
  {
    bool valid=false;
    int  slot=0,tag=0;
    std::size_t idx=0;
    bool local_end=false;    /* position is the end of the segment */
    bool global_end=false;
    iterator git;
    const_iterator cgit;
    lb_iterator lb;
    clb_iterator clb;
    const void* addr=nullptr;
    u32 id=0;
  };
  static constexpr int NC=6;

  std::optional<C> c[NS];
  MColl  m[NS];
  Obs    obs[NS];
  Cursor cur[NC];
  u32    next_id=1;
  Config cfg;

  u64    last_work=0,last_eq=0,last_copies=0;   /* element operations of the last call */

  /* per-step effect description */
  std::size_t stable[NS][NT];     /* elements with guaranteed addresses */
  static constexpr std::size_t ALL=std::size_t(-1);

  World(const Config& k):cfg(k)
  {
    for(u32 i=0;i<N_ARENA;++i){
      g_arena[i]=Arena{};
      g_arena[i].id=i;
      g_arena[i].max_count=cfg.maxcount;
      g_arena[i].soccc=cfg.soccc&&i<4?i+4:i;
    }
    int first=-1;
    cfg.types&=(1u<<NM)-1;
    for(int t=0;t<NM;++t)if(cfg.types&(1u<<t)){first=t;break;}
    if(first<0)cfg.types=1;
  }

  u32 fresh(){return next_id++;}
  int pick_type(u32 r)const
  {
    int n=0,l[NM];
    for(int t=0;t<NM;++t)if(cfg.types&(1u<<t))l[n++]=t;
    return l[r%n];
  }
  A alloc(u32 r)const{return A{&g_arena[r%(cfg.arenas?cfg.arenas:1)]};}
  const std::type_info& info(int t)const
  {
    if(cfg.dup&(1u<<t)){++g_stats.dup_lookups;return dup_info(t);}
    return info_of(t);
  }

  /* ------------------------------------------------------------ running */

  template<typename F>
  Outcome call(const Step& s,F f)
  {
    Outcome o;
    g_heap.op_arenas=0;
    g_faults.arm(s.fmask,(int)s.fcount,s.fpers!=0);
    ElemStats b=g_es;
    try{
      InOp in;
      f();
    }
    catch(const InjectedAlloc&){o.k=O_INJ;}
    catch(const Injected&){o.k=O_INJ;}
    catch(const boost::poly_collection::unregistered_type& e)
      {o.k=O_UNREG;o.pinfo=e.pinfo;}
    catch(const boost::poly_collection::not_copy_constructible& e)
      {o.k=O_NOCOPY;o.pinfo=e.pinfo;}
    catch(const boost::poly_collection::not_equality_comparable& e)
      {o.k=O_NOEQ;o.pinfo=e.pinfo;}
    catch(const std::length_error&){o.k=O_LENGTH;}
    catch(const std::bad_alloc&){o.k=O_BADALLOC;}
    catch(...){o.k=O_OTHER;}
    last_work=g_es.copy-b.copy+g_es.move-b.move+g_es.massign-b.massign+
      g_es.cassign-b.cassign+g_es.ctor-b.ctor;
    last_eq=g_es.eq-b.eq;
    last_copies=g_es.copy-b.copy+g_es.cassign-b.cassign;
    g_faults.mask=0;
    if(o.k!=O_OK)g_new.in_op=0; /* exception objects may own strings */
    logv(0x0C000+o.k);
    if(o.k==O_INJ)++g_stats.ops_failed;
    else if(o.k==O_OK)++g_stats.ops_ok;
    else ++g_stats.ops_intrinsic;
    if(o.k!=O_OK&&s.op<OP_N)++g_stats.op_failed[s.op];
    return o;
  }

  /* ---------------------------------------------------------- observation */

  void observe(int i)
  {
    ++g_stats.observations;
    Obs& o=obs[i];
    o=Obs{};
    if(!c[i])return;
    o.alive=true;
    C& x=*c[i];
    const C& cx=x;
    o.arena=cx.get_allocator().ar->id;
    std::string at="collection "+std::to_string(i)+": ";

    /* segment traversal */
    std::size_t total=0;
    std::vector<View> flat;
    {
      auto st=cx.segment_traversal();
      int guard=0;
      for(auto s=st.begin();s!=st.end();++s){
        if(++guard>NT){fail("view",at+"more segments than types");return;}
        int t=tag_of_info((*s).type_info());
        if(t<0){fail("view",at+"segment of unknown type");return;}
        if(o.seg[t].reg){fail("reg",at+"two segments for type T"+
          std::to_string(t));return;}
        o.seg[t].reg=true;
        o.order.push_back(t);
        auto b=(*s).begin();auto e=(*s).end();
        auto n=e-b;
        if(n<0||n>100000){fail("view",at+"segment range is not valid (T"+
          std::to_string(t)+")");return;}
        std::size_t k=0;
        for(;b!=e;++b,++k){
          if(k>=(std::size_t)n){fail("view",at+"segment traversal overruns");
            return;}
          View v=view_of(*b);
          if(!v.ok||v.tag!=t){fail("bind",at+"T"+std::to_string(t)+"["+
            std::to_string(k)+"]: interface reference does not denote a live "
            "element of the segment's type");return;}
          o.seg[t].ids.push_back(v.id);
          o.seg[t].addr.push_back(v.addr);
          flat.push_back(v);
        }
        total+=k;
      }
    }
    /* per-type views */
    for(int t=0;t<NT;++t){
      if(t>=NM&&!(cfg.grow&G_WIDE))break;
      OSeg& g=o.seg[t];
      bool r1=cx.is_registered(info(t));
      with_any_type(t,[&](auto tt_){
        using T=typename decltype(tt_)::type;
        std::string w=at+"T"+std::to_string(t)+": ";
        bool r2=cx.template is_registered<T>();
        if(r1!=g.reg||r2!=g.reg){
          fail_n("reg",w,"is_registered disagrees with the segments",
            " (by info ",r1,", by type ",r2,g.reg?", segment 1)":
            ", segment 0)");
          return;
        }
        if(!g.reg)return;
        std::size_t n=g.ids.size();
        const std::type_info& ti=info(t);
        if(cx.size(ti)!=n||cx.template size<T>()!=n||
           cx.empty(ti)!=(n==0)||cx.template empty<T>()!=(n==0))
          {fail_at("view",w,"size/empty disagree with traversal",NOIDX,"");
            return;}
        g.cap=cx.template capacity<T>();
        g.maxs=cx.template max_size<T>();
        if(g.cap<n||cx.capacity(ti)!=g.cap||cx.max_size(ti)!=g.maxs||
           g.maxs<n)
          {fail_at("cap",w,"capacity/max_size inconsistent",NOIDX,"");return;}
        auto chk=[&](auto b,auto e,const char* what){
          if((std::size_t)(e-b)!=n)
            {fail_n("view",w,what,": wrong length ",(long long)(e-b),
              " instead of ",(long long)n);return;}
          for(std::size_t k=0;k<n;++k){
            View v=view_of(b[(std::ptrdiff_t)k]);
            if(!v.ok)
              {fail_at("bind",w,what,k,": not a live element");return;}
            if(v.addr!=g.addr[k]||v.id!=g.ids[k])
              {fail_at("bind",w,what,k,
                ": denotes another element than segment traversal");return;}
          }
        };
        chk(cx.template begin<T>(),cx.template end<T>(),"const local_iterator");
        chk(x.template begin<T>(),x.template end<T>(),"local_iterator");
        chk(cx.begin(ti),cx.end(ti),"const local_base_iterator");
        chk(x.begin(ti),x.end(ti),"local_base_iterator");
        {auto sg=x.template segment<T>();chk(sg.begin(),sg.end(),"segment<T>");}
        {auto sg=cx.segment(ti);chk(sg.begin(),sg.end(),"segment(info)");
         chk(sg.template begin<T>(),sg.template end<T>(),
           "segment(info).begin<T>");
         if(!(sg.type_info()==info_of(t)))
           fail_at("view",w,"segment(info).type_info() wrong",NOIDX,"");}
        {auto sg=x.segment(ti);chk(sg.begin(),sg.end(),"segment(info)");
         chk(sg.template begin<T>(),sg.template end<T>(),
           "segment(info).begin<T>");}
        /* elements live in the collection's own allocator */
        for(std::size_t k=0;k<n;++k){
          auto it=g_acc.by_alloc.find(g.addr[k]);
          if(it==g_acc.by_alloc.end())
            {fail_at("construct",w,"element not constructed through the "
              "allocator",NOIDX,"");return;}
          if(it->second!=o.arena)
            {fail_n("construct",w,"element constructed by allocator","",
              it->second," in a collection with allocator ",o.arena);return;}
        }
      });
      if(g_violation.set)return;
    }
    /* global traversal */
    auto walk=[&](auto b,auto e,const char* what){
      std::size_t k=0;
      for(;b!=e;++b,++k){
        if(k>=total){fail_n("view",at,what," runs past the last element of ",
          (long long)total);return;}
        View v=view_of(*b);
        if(!v.ok){fail_at("bind",at,what,k,": not a live element");return;}
        if(v.addr!=flat[k].addr||v.tag!=flat[k].tag)
          {fail_at("view",at,what,k,
            ": not the element segment traversal yields");return;}
      }
      if(k!=total)fail("view",at+what+" visits "+std::to_string(k)+" of "+
        std::to_string(total)+" elements");
    };
    walk(cx.begin(),cx.end(),"const global traversal");
    if(g_violation.set)return;
    walk(x.begin(),x.end(),"global traversal");
    if(g_violation.set)return;
    if(o.order.size()>13)++g_stats.wide;
    if(total>100)++g_stats.big;
    if(cx.size()!=total||cx.empty()!=(total==0))
      fail("view",at+"size()/empty() disagree with traversal");
  }

  void check_global()
  {
    if(g_violation.set)return;
    std::size_t total=0;
    for(int i=0;i<NS;++i)for(int t=0;t<NT;++t)total+=obs[i].seg[t].ids.size();
    if(g_live_elems.size()!=total+ext_live)
      {fail("leak","live elements: "+std::to_string(g_live_elems.size())+
        ", held by collections: "+std::to_string(total));return;}
    if(g_acc.by_alloc.size()!=total)
      {fail("leak","elements constructed through allocators and not "
        "destroyed: "+std::to_string(g_acc.by_alloc.size())+
        ", held by collections: "+std::to_string(total));return;}
    if(g_new.in_op)
      {fail("globalheap","memory obtained from the global heap during a "
        "collection operation");return;}
  }
  std::size_t ext_live=0;   /* harness-owned elements alive at check time */

  /* abstract state, for coverage */
  void note_state(const Step& s,const Outcome& o)
  {
    u64 h=mix64(s.op*31+o.k);
    if(g_faults.fired)h=mix64(h^(0x77+g_faults.fired_kind));
    for(int i=0;i<NS;++i){
      h=mix64(h^(obs[i].alive?0x100+obs[i].arena:0x55));
      for(int t=0;t<NT;++t){
        const OSeg& g=obs[i].seg[t];
        u64 n=g.ids.size();if(n>6)n=7;
        h=mix64(h^(u64(t)<<8)^(g.reg?1+n*2+(g.ids.size()==g.cap?64:0):0));
      }
    }
    logv(h);
    if(g_states.size()<g_states_cap)g_states.insert(h);
    for(int i=0;i<NS;++i)for(int t=0;t<NT;++t)
      for(auto id:obs[i].seg[t].ids)logv(id);
  }

  /* ------------------------------------------------------------ settlement */

  /* How the world may look when the operation failed. */
  struct FailRule
  {
    u32 target=0;                 /* slots the operation is about (mask) */
    /* candidate contents by slot; if empty, pre-state */
    std::vector<MColl> cand[NS];
    /* basic: segments of slots adopted as observed */
    u32 basic[NS]={};             /* type masks */
    std::vector<u32> extra;       /* ids that may appear in basic segments */
    u32 mayreg[NS]={};
    bool anyreg[NS]={};           /* registration unspecified */
  };

  struct Exp
  {
    MColl post[NS];
    u32   allow=1u<<O_OK; /* outcomes allowed besides injected faults */
    int   must_tag=-1;
    u32   must_mask=0;    /* or: any of these types may be named */
    u32   adoptm=0;       /* slots left valid but unspecified on success */
    u64   work=u64(-1);   /* bound on element constructions/assignments */
    u64   eqwork=u64(-1); /* bound on element comparisons */
    u64   copies=u64(-1); /* bound on element copies */
    bool  nofail=false;   /* needs no memory and no user code: cannot fail */
    bool  keep=false;     /* a failure leaves addresses and capacity alone */
    FailRule fr;
    const char* strongcls="strong";
  };

  Exp expect_same()
  {
    Exp e;
    for(int i=0;i<NS;++i)e.post[i]=m[i];
    return e;
  }

  void all_stable()
  {
    for(auto& r:stable)for(auto& x:r)x=ALL;
  }

  static bool reg_ok(u32 pre,u32 may,u32 now)
  {return (pre&~now)==0&&(now&~(pre|may))==0;}

  void adopt(int i)
  {
    for(int t=0;t<NT;++t){
      m[i].seg[t].v=obs[i].seg[t].ids;
      m[i].seg[t].reg=obs[i].seg[t].reg;
      if(!m[i].seg[t].reg)m[i].seg[t].warm=false;
    }
    m[i].arena=obs[i].arena;
    m[i].alive=obs[i].alive;
  }

  void settle(const Step& s,const Outcome& o,Exp& e)
  {
    if(g_violation.set)return;
    Obs pre[NS];
    for(int i=0;i<NS;++i)pre[i]=obs[i];
    for(int i=0;i<NS;++i){observe(i);if(g_violation.set)return;}
    std::string w=std::string(op_name(s.op))+": ";

    if(o.k==O_INJ&&!g_faults.fired){fail("exc",w+"stray fault");return;}
    if(o.k==O_OTHER||o.k==O_BADALLOC)
      {fail("exc",w+"ended with "+out_name(o.k));return;}
    bool failed=o.k!=O_OK;
    if(failed&&o.k!=O_INJ){
      if(!(e.allow&(1u<<o.k)))
        {fail(o.k==O_LENGTH?"cap":o.k==O_UNREG?"reg":"exc",
          w+"threw "+out_name(o.k)+", expected "+allow_text(e.allow));return;}
      if(o.pinfo&&e.must_tag>=0&&!(*o.pinfo==info_of(e.must_tag)))
        {fail("exc",w+std::string(out_name(o.k))+" names the wrong type");
          return;}
      if(o.pinfo&&e.must_mask){
        int nt=tag_of_info(*o.pinfo);
        if(nt<0||!(e.must_mask&(1u<<nt)))
          {fail("exc",w+std::string(out_name(o.k))+" names the wrong type");
            return;}
      }
    }
    if(!failed&&!(e.allow&(1u<<O_OK))){
      fail(e.allow&(1u<<O_LENGTH)?"cap":e.allow&(1u<<O_UNREG)?"reg":"exc",
        w+"succeeded, expected "+allow_text(e.allow));
      return;
    }
    if(o.k==O_INJ&&e.nofail)
      {fail("nomem",w+"failed ("+fault_text(o)+") although it needs neither "
        "memory nor user operations that can fail");return;}
    if(!failed&&last_copies>e.copies){
      fail("xfer",w+std::to_string(last_copies)+" elements copied, expected "
        "at most "+std::to_string(e.copies));
      return;
    }
    if(!failed&&(last_work>e.work||last_eq>e.eqwork)){
      bool q=last_work>e.work;
      fail("work",w+std::to_string(q?last_work:last_eq)+(q?" element "
        "constructions and assignments":" element comparisons")+
        ", expected at most "+std::to_string(q?e.work:e.eqwork));
      return;
    }
    if(!failed){
      for(int i=0;i<NS;++i){
        if(e.post[i].alive!=obs[i].alive){fail("seq",w+"alive mismatch");
          return;}
        if(!e.post[i].alive||(e.adoptm&(1u<<i)))continue;
        if(!same_ids(e.post[i],obs[i]))
          {fail("seq",w+"collection "+std::to_string(i)+" holds "+
            show(obs[i])+" instead of "+show(e.post[i]));return;}
        u32 r=e.post[i].regmask(),n=obs_reg(obs[i]);
        if(e.fr.anyreg[i]?(r&~n)!=0:r!=n)
          {fail("reg",w+"collection "+std::to_string(i)+
            ": registered types "+std::to_string(n)+" instead of "+
            std::to_string(r));return;}
        if(e.post[i].arena!=obs[i].arena)
          {fail("prop",w+"collection "+std::to_string(i)+" has allocator "+
            std::to_string(obs[i].arena)+" instead of "+
            std::to_string(e.post[i].arena));return;}
      }
    }
    else{
      for(int i=0;i<NS;++i){
        if(obs[i].alive!=m[i].alive&&!(e.fr.anyreg[i]))
          {fail("basic",w+"alive mismatch after failure");return;}
        if(!obs[i].alive)continue;
        u32 preg=m[i].regmask(),now=obs_reg(obs[i]);
        if(!e.fr.anyreg[i]&&!reg_ok(preg,e.fr.mayreg[i],now))
          {fail("reg",w+"after failure, collection "+std::to_string(i)+
            ": registered types "+std::to_string(now)+", before "+
            std::to_string(preg));return;}
        if(m[i].arena!=obs[i].arena&&!e.fr.anyreg[i])
          {fail("prop",w+"allocator changed by a failed operation");return;}
        u32 bm=e.fr.basic[i];
        if(!e.fr.cand[i].empty()){
          bool hit=false;
          for(auto& k:e.fr.cand[i])if(same_ids(k,obs[i],~bm)){hit=true;break;}
          if(!hit){
            fail(e.strongcls,w+"after failure ("+
              fault_text(o)+"), collection "+
              std::to_string(i)+" holds "+show(obs[i])+", before "+
              show(m[i]));
            return;
          }
        }
        else if(!same_ids(m[i],obs[i],~bm)){
          bool tgt=bm!=0;
          fail(tgt||(e.fr.target&(1u<<i))?e.strongcls:"other",
            w+"after failure ("+fault_text(o)+"), collection "+
            std::to_string(i)+" holds "+show(obs[i])+", before "+show(m[i]));
          return;
        }
        if(bm){
          std::map<u32,int> avail;
          for(int j=0;j<NS;++j)for(int t=0;t<NT;++t)
            for(auto id:m[j].seg[t].v)++avail[id];
          for(auto id:e.fr.extra)++avail[id];
          for(int t=0;t<NT;++t)if(bm&(1u<<t))for(auto id:obs[i].seg[t].ids){
            if(id==MOVED)continue;
            if(!avail.count(id))
              {fail("basic",w+"after failure, element with a value from "
                "nowhere: "+std::to_string(id));return;}
          }
        }
      }
    }
    /* segment order is stable while no segment is created (content moves
     * between collections excepted) */
    bool wholesale=s.op<=OP_SWAP||s.op==OP_SELFASSIGN;
    for(int i=0;i<NS;++i)if(obs[i].alive&&pre[i].alive&&!wholesale){
      if(obs_reg(pre[i])==obs_reg(obs[i])&&pre[i].order!=obs[i].order)
        {fail("view",w+"segment order changed without segment creation");
          return;}
      if(obs_reg(pre[i])!=obs_reg(obs[i]))++g_stats.seg_created;
    }
    if(failed&&e.keep){
      all_stable();
      for(int i=0;i<NS;++i)if(obs[i].alive&&pre[i].alive)
        for(int t=0;t<NT;++t)if(pre[i].seg[t].reg&&(
          pre[i].seg[t].cap!=obs[i].seg[t].cap||
          pre[i].seg[t].addr!=obs[i].seg[t].addr))
          {fail("strong",w+"after failure ("+fault_text(o)+"), T"+
            std::to_string(t)+" of collection "+std::to_string(i)+
            " has been given other storage");return;}
    }
    /* address stability */
    if(!wholesale)for(int i=0;i<NS;++i)if(obs[i].alive&&pre[i].alive){
      for(int t=0;t<NT;++t){
        auto& pa=pre[i].seg[t].addr;auto& na=obs[i].seg[t].addr;
        std::size_t k=std::min(stable[i][t],pa.size());
        if(na.size()<k)
          {fail("addr",w+"elements before the point of change vanished");
            return;}
        for(std::size_t j=0;j<k;++j)if(pa[j]!=na[j])
          {fail("addr",w+"T"+std::to_string(t)+"["+std::to_string(j)+
            "] of collection "+std::to_string(i)+" moved, though it precedes "
            "the point of change and no growth was needed");return;}
        if(pre[i].seg[t].cap!=obs[i].seg[t].cap){
          ++g_stats.growths;
          if(!failed&&pre[i].seg[t].cap>obs[i].seg[t].cap&&
             s.op!=OP_SHRINK&&s.op!=OP_SHRINK_T)
            {fail("cap",w+"capacity of T"+std::to_string(t)+" dropped");
              return;}
        }
      }
    }
    /* cursors */
    if(!wholesale)for(auto& q:cur)if(q.valid&&!q.global_end){
      std::size_t st=stable[q.slot][q.tag];
      if(q.local_end?st!=ALL:q.idx>=st)q.valid=false;
    }
    if(!failed)for(int i=0;i<NS;++i){
      m[i]=e.post[i];
      if(e.fr.anyreg[i]||(e.adoptm&(1u<<i)))adopt(i);
      else for(int t=0;t<NT;++t)m[i].seg[t].reg=obs[i].seg[t].reg;
    }
    else for(int i=0;i<NS;++i)adopt(i);
    for(int i=0;i<NS;++i)m[i].order=obs[i].order;
    /* memory comes from the collection's own allocator, all of it */
    {
      u32 ok=0,has=0;
      for(int i=0;i<NS;++i){
        bool in=wholesale||!e.fr.target||(e.fr.target&(1u<<i));
        if(in&&pre[i].alive)ok|=1u<<pre[i].arena;
        if(in&&e.post[i].alive)ok|=1u<<e.post[i].arena;
        if(in&&obs[i].alive)ok|=1u<<obs[i].arena;
        if(obs[i].alive)has|=1u<<obs[i].arena;
      }
      if(g_heap.op_arenas&~ok)
        {fail("prop",w+"memory obtained from an allocator that is not the "
          "collection's");return;}
      for(u32 a=0;a<N_ARENA;++a)if(g_arena[a].blocks&&!(has&(1u<<a)))
        {fail("prop",w+"memory of allocator "+std::to_string(a)+
          " still held though no collection uses that allocator");return;}
    }
    check_global();
    if(g_violation.set)return;
    check_cursors();
    note_state(s,o);
  }

  static std::string allow_text(u32 a)
  {
    std::string r;
    for(int k=0;k<=O_OTHER;++k)if(a&(1u<<k))
      r+=(r.empty()?"":" or ")+std::string(out_name(k));
    return r;
  }
  std::string fault_text(const Outcome& o)const
  {
    return o.k==O_INJ?std::string(fk_name(g_faults.fired_kind))+" fault":
      std::string(out_name(o.k));
  }

  /* --------------------------------------------------------------- cursors */

  iterator gpos(C& x,std::size_t k)
  {
    auto it=x.begin();
    for(;k--;)++it;
    return it;
  }
  /* (tag,index) of global index k in slot i, by the observed order */
  bool gloc(int i,std::size_t k,int& t,std::size_t& idx)const
  {
    for(int tt_:obs[i].order){
      auto n=obs[i].seg[tt_].ids.size();
      if(k<n){t=tt_;idx=k;return true;}
      k-=n;
    }
    return false;
  }
  std::size_t gindex(int i,int t,std::size_t idx)const
  {
    std::size_t k=0;
    for(int u:obs[i].order){
      if(u==t)return k+idx;
      k+=obs[i].seg[u].ids.size();
    }
    return k;
  }

  void check_cursors()
  {
    for(auto& q:cur)if(q.valid){
      ++g_stats.cursor_checks;
      if(!c[q.slot]){q.valid=false;continue;}
      C& x=*c[q.slot];const C& cx=x;
      std::string w="held position in collection "+std::to_string(q.slot);
      if(q.global_end){
        if(!(q.git==x.end())||!(q.cgit==cx.end()))
          fail("iter",w+": end() no longer compares equal");
        continue;
      }
      const OSeg& g=obs[q.slot].seg[q.tag];
      w+=" T"+std::to_string(q.tag)+"["+std::to_string(q.idx)+"]";
      if(!g.reg||q.idx>g.ids.size()){fail("iter",w+": segment vanished");
        return;}
      if(q.lb-x.begin(info(q.tag))!=(std::ptrdiff_t)q.idx||
         q.clb-cx.begin(info(q.tag))!=(std::ptrdiff_t)q.idx)
        {fail("iter",w+": local iterator denotes another position");return;}
      if(q.local_end){
        if(!(q.lb==x.end(info(q.tag))))
          {fail("iter",w+": local end is no longer the end");return;}
        continue;
      }
      if(q.idx>=g.ids.size()){fail("iter",w+": element vanished");return;}
      View v=view_of(*q.git),v2=view_of(*q.cgit),v3=view_of(*q.lb);
      if(!v.ok||!v2.ok||!v3.ok||v.addr!=g.addr[q.idx]||
         v2.addr!=v.addr||v3.addr!=v.addr||v.id!=g.ids[q.idx])
        {fail("iter",w+": iterator does not denote its element");return;}
      if(q.addr!=g.addr[q.idx])
        {fail("iter",w+": reference no longer denotes the element");return;}
      with_type(q.tag,[&](auto tt_){
        using T=typename decltype(tt_)::type;
        l_iterator<T> li{q.lb};
        if((const void*)std::addressof(*li)!=q.addr)
          fail("iter",w+": typed local iterator denotes another element");
      });
      if(g_violation.set)return;
      /* the rest of the collection is still reachable from it */
      std::size_t k=gindex(q.slot,q.tag,q.idx),total=m[q.slot].total();
      if(!(q.git==gpos(x,k)))
        {fail("iter",w+": iterator differs from a fresh one");return;}
      auto it=q.git;std::size_t n=k;
      for(;it!=x.end();++it,++n){
        if(n>=total){fail("iter",w+": traversal from it runs past the end");
          return;}
      }
      if(n!=total){fail("iter",w+": traversal from it misses elements");
        return;}
    }
  }

  void drop_cursors(int i){for(auto& q:cur)if(q.slot==i&&q.valid)
    q.valid=false;}

  #include "ops.inc"
};

} /* namespace sim */

#endif
