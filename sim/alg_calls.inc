// Included by alg_p*.cpp with ALG_PART set: the algorithm calls themselves.
#include "alg.hpp"
#include <cmath>

namespace sim{
namespace pc=boost::poly_collection;

template<u32 AL,typename TS,bool Const> struct Call;

#define ALG(NAME) \
template<typename... Ts,bool Const> \
struct Call<NAME,TL<Ts...>,Const>{ \
  using It=typename std::conditional<Const,citer_t,iter_t>::type; \
  static void run(Ctx& x) \
  { \
    It f=x.at<It>(x.a),l=x.at<It>(x.b); \
    auto& R=x.r; \
    const std::size_t N=R.size();(void)N;(void)f;(void)l; \
    auto rp=[&](const Ref& e){return x.cond(e.key,e.id);};(void)rp; \
    auto rk=[&](const Ref& e,const KeyV& k){return rel(x.m2,e.key,k.k);};(void)rk; \
    auto re=[&](const Ref& e,const Ref& g){return rel(x.m2,e.key,g.key);};(void)re; \
    auto k0=[&](const Ref& e,const KeyV& k){return e.key==k.k;};(void)k0; \
    auto e0=[&](const Ref& e,const Ref& g){return e.key==g.key;};(void)e0; \
    P1 p1{&x.cond};P2 p2{x.m2};(void)p1;(void)p2; \
    FwK f2{x.k2.data(),x.k2.data()+x.k2.size()}; \
    FwK l2{x.k2.data()+x.k2.size(),x.k2.data()+x.k2.size()};(void)f2;(void)l2; \
    const std::size_t M=x.k2.size();(void)M; \
    Sink sink,sink2;Out out{&sink,0},out2{&sink2,0};(void)out;(void)out2; \
    using W=Ctx::W;std::vector<W> want,want2;

#define END }};

#define EXPECT_POS(ref) x.pos(res,x.a+(std::size_t)((ref)-R.begin()))
#define DO(...) if(x.guard([&]{__VA_ARGS__;}))

#if ALG_PART==1
ALG(AL_ALL_OF) bool r=false;DO(r=pc::all_of<Ts...>(f,l,p1))
  x.eq(r,std::all_of(R.begin(),R.end(),rp));x.bound(N);END
ALG(AL_ANY_OF) bool r=false;DO(r=pc::any_of<Ts...>(f,l,p1))
  x.eq(r,std::any_of(R.begin(),R.end(),rp));x.bound(N);END
ALG(AL_NONE_OF) bool r=false;DO(r=pc::none_of<Ts...>(f,l,p1))
  x.eq(r,std::none_of(R.begin(),R.end(),rp));x.bound(N);END

struct Visit /* state travels in the object itself */
{
  u32 count=0;u64 h=0;
  template<typename X> void operator()(X& e)
  {
    ++g_alog.calls;fault_point(FK_CALL);
    note(e);++count;h=mix64(h^g_alog.el.back().i.id);
  }
};
ALG(AL_FOR_EACH)
  Visit v;v.h=x.key;
  DO(v=pc::for_each<Ts...>(f,l,v)){
    Visit q;q.h=x.key;for(auto& e:R){++q.count;q.h=mix64(q.h^e.id);}
    x.exactly(N);
    x.eqn(v.count,q.count);x.eq(v.h==q.h,true);
  }
  /* applied in order, also when it fails part-way */
  for(std::size_t k=0;k<g_alog.el.size()&&!g_violation.set;++k)
    if(k>=N||g_alog.el[k].i.id!=R[k].id)
      fail("alg",x.w()+"not applied in order");
END
ALG(AL_FOR_EACH_N)
  std::size_t n=std::min(x.n,x.all.size()-x.a);
  x.r.assign(x.all.begin()+x.a,x.all.begin()+x.a+n);
  Visit v;It res=f;
  DO(if(x.key&1)res=pc::for_each_n<Ts...>(f,(int)n,v);
     else res=pc::for_each_n<Ts...>(f,(std::ptrdiff_t)n,v)){
    x.exactly(n);x.pos(res,x.a+n);}
  for(std::size_t k=0;k<g_alog.el.size()&&!g_violation.set;++k)
    if(k>=n||g_alog.el[k].i.id!=R[k].id)
      fail("alg",x.w()+"not applied in order");
END
ALG(AL_FIND) KeyV v{x.key};It res=f;DO(res=pc::find<Ts...>(f,l,v)){
  auto w=std::find_if(R.begin(),R.end(),[&](const Ref& e){return k0(e,v);});
  EXPECT_POS(w);x.bound(N);}END
ALG(AL_FIND_IF) It res=f;DO(res=pc::find_if<Ts...>(f,l,p1)){
  EXPECT_POS(std::find_if(R.begin(),R.end(),rp));x.bound(N);}END
ALG(AL_FIND_IF_NOT) It res=f;DO(res=pc::find_if_not<Ts...>(f,l,p1)){
  EXPECT_POS(std::find_if_not(R.begin(),R.end(),rp));x.bound(N);}END
ALG(AL_FIND_END) It res=f;DO(res=pc::find_end<Ts...>(f,l,f2,l2)){
  EXPECT_POS(std::find_end(R.begin(),R.end(),x.k2.begin(),x.k2.end(),k0));
  x.bound((N+1)*(M+1));}END
ALG(AL_FIND_END_P) It res=f;DO(res=pc::find_end<Ts...>(f,l,f2,l2,p2)){
  EXPECT_POS(std::find_end(R.begin(),R.end(),x.k2.begin(),x.k2.end(),rk));
  x.bound((N+1)*(M+1));}END
ALG(AL_FIND_FIRST_OF) It res=f;DO(res=pc::find_first_of<Ts...>(f,l,f2,l2)){
  EXPECT_POS(std::find_first_of(R.begin(),R.end(),x.k2.begin(),x.k2.end(),k0));
  x.bound(N*M);}END
ALG(AL_FIND_FIRST_OF_P) It res=f;
  DO(res=pc::find_first_of<Ts...>(f,l,f2,l2,p2)){
  EXPECT_POS(std::find_first_of(R.begin(),R.end(),x.k2.begin(),x.k2.end(),rk));
  x.bound(N*M);}END
ALG(AL_ADJACENT_FIND) It res=f;DO(res=pc::adjacent_find<Ts...>(f,l)){
  EXPECT_POS(std::adjacent_find(R.begin(),R.end(),e0));
  x.bound(N?N-1:0);}END
ALG(AL_ADJACENT_FIND_P) It res=f;DO(res=pc::adjacent_find<Ts...>(f,l,p2)){
  EXPECT_POS(std::adjacent_find(R.begin(),R.end(),re));
  x.bound(N?N-1:0);}END
ALG(AL_COUNT) KeyV v{x.key};std::ptrdiff_t r=0;
  DO(r=pc::count<Ts...>(f,l,v)){x.eqn(r,std::count_if(R.begin(),R.end(),
    [&](const Ref& e){return k0(e,v);}));x.exactly(N);}END
ALG(AL_COUNT_IF) std::ptrdiff_t r=0;
  DO(r=pc::count_if<Ts...>(f,l,p1)){x.eqn(r,std::count_if(R.begin(),R.end(),
    rp));x.exactly(N);}END
#endif

#if ALG_PART==2
/* three-argument forms need a second range as long as the first */
#define PAD2 while(x.k2.size()<N)x.k2.push_back(KeyV{x.key+(u32)x.k2.size()%3});\
  f2=FwK{x.k2.data(),x.k2.data()+x.k2.size()};
#define MM(CALL,REFARGS,B) std::pair<It,FwK> r{f,f2};DO(r=CALL){\
  auto w=std::mismatch REFARGS;\
  x.pos(r.first,x.a+(std::size_t)(w.first-R.begin()));\
  x.eqn(r.second.p-x.k2.data(),w.second-x.k2.begin());\
  x.bound(B);}
ALG(AL_MISMATCH) PAD2 MM(pc::mismatch<Ts...>(f,l,f2),
  (R.begin(),R.end(),x.k2.begin(),k0),N)END
ALG(AL_MISMATCH_P) PAD2 MM(pc::mismatch<Ts...>(f,l,f2,p2),
  (R.begin(),R.end(),x.k2.begin(),rk),N)END
ALG(AL_MISMATCH4) MM(pc::mismatch<Ts...>(f,l,f2,l2),
  (R.begin(),R.end(),x.k2.begin(),x.k2.end(),k0),std::min(N,M))END
ALG(AL_MISMATCH4_P) MM(pc::mismatch<Ts...>(f,l,f2,l2,p2),
  (R.begin(),R.end(),x.k2.begin(),x.k2.end(),rk),std::min(N,M))END
#define EQ_(CALL,REFARGS,B) bool r=false;DO(r=CALL){\
  x.eq(r,std::equal REFARGS);x.bound(B);}
ALG(AL_EQUAL) PAD2 EQ_(pc::equal<Ts...>(f,l,f2),
  (R.begin(),R.end(),x.k2.begin(),k0),N)END
ALG(AL_EQUAL_P) PAD2 EQ_(pc::equal<Ts...>(f,l,f2,p2),
  (R.begin(),R.end(),x.k2.begin(),rk),N)END
ALG(AL_EQUAL4) EQ_(pc::equal<Ts...>(f,l,f2,l2),
  (R.begin(),R.end(),x.k2.begin(),x.k2.end(),k0),std::min(N,M))END
ALG(AL_EQUAL4_P) EQ_(pc::equal<Ts...>(f,l,f2,l2,p2),
  (R.begin(),R.end(),x.k2.begin(),x.k2.end(),rk),std::min(N,M))END
/* is_permutation: elements against elements of a second range; the reference
 * counts classes of equal keys */
#define PERM(CALL,MOD) if(!g_violation.set){bool r=false;x.self2=true;\
  It f3=x.at<It>(x.mid);\
  std::size_t n3=std::min(x.n,x.all.size()-x.mid);\
  It l3=x.at<It>(x.mid+n3);(void)l3;\
  std::vector<u32> ka,kb;for(auto& e:R)ka.push_back(e.key MOD);\
  for(std::size_t q=0;q<n3;++q)kb.push_back(x.all[x.mid+q].key MOD);\
  std::sort(ka.begin(),ka.end());std::sort(kb.begin(),kb.end());\
  PermLog pl;DO(r=CALL){x.eq(r,ka==kb);x.bound(4*N*N+8*N+8);}}
/* the argument positions of is_permutation's predicate vary (element of
 * either range in either position), so only membership is checked */
struct PermLog{};
struct P2P
{
  u32 m;
  template<typename X,typename Y> bool operator()(X& x,Y& y)const
  {
    ++g_alog.calls;fault_point(FK_CALL);
    using U=typename std::remove_const<X>::type;
    using V=typename std::remove_const<Y>::type;
    Info a=probe_of(static_cast<const U&>(x),false,false).i;
    Info b=probe_of(static_cast<const V&>(y),false,false).i;
    if(!a.ok||!b.ok){Quiet q;fail("restit",
      "is_permutation: not handed live elements");}
    return rel(m,a.key,b.key);
  }
};
#define PERMK(CALL,MOD) bool r=false;\
  std::vector<u32> ka,kb;for(auto& e:R)ka.push_back(e.key MOD);\
  for(auto& k:x.k2)kb.push_back(k.k MOD);\
  std::sort(ka.begin(),ka.end());std::sort(kb.begin(),kb.end());\
  DO(r=CALL){x.eq(r,ka==kb);x.bound(4*N*N+8*N+8);}
/* exactly N values for the three-argument form */
#define EXACT2 PAD2 x.k2.resize(N,KeyV{0});\
  f2=FwK{x.k2.data(),x.k2.data()+x.k2.size()};
/* keys as elements of a second, element-typed range */
template<typename It>
struct KeyEq /* (element,element), (element,key), (key,element) */
{
  u32 m;
  static u32 v(const KeyV& k){return k.k;}
  template<typename X,typename std::enable_if<
    probeable<typename std::remove_const<X>::type>::value>::type* =nullptr>
  static u32 v(X& x){return note(x);}
  template<typename X,typename Y> bool operator()(X& x,Y& y)const
  {++g_alog.calls;fault_point(FK_CALL);u32 a=v(x),b=v(y);return rel(m,a,b);}
};
ALG(AL_IS_PERM) EXACT2 PERMK(pc::is_permutation<Ts...>(f,l,f2),)END
ALG(AL_IS_PERM_P) x.m2&=1;EXACT2 if(x.m2){PERMK(
  pc::is_permutation<Ts...>(f,l,f2,KeyEq<It>{1}),&1)}else{PERMK(
  pc::is_permutation<Ts...>(f,l,f2,KeyEq<It>{0}),)}END
ALG(AL_IS_PERM4) PERMK(pc::is_permutation<Ts...>(f,l,f2,l2),)END
ALG(AL_IS_PERM4_P) x.m2&=1;if(x.m2){PERMK(
  pc::is_permutation<Ts...>(f,l,f2,l2,KeyEq<It>{1}),&1)}else{PERMK(
  pc::is_permutation<Ts...>(f,l,f2,l2,KeyEq<It>{0}),)}END
ALG(AL_SEARCH) It res=f;DO(res=pc::search<Ts...>(f,l,f2,l2)){
  EXPECT_POS(std::search(R.begin(),R.end(),x.k2.begin(),x.k2.end(),k0));
  x.bound(N*M);}END
ALG(AL_SEARCH_P) It res=f;DO(res=pc::search<Ts...>(f,l,f2,l2,p2)){
  EXPECT_POS(std::search(R.begin(),R.end(),x.k2.begin(),x.k2.end(),rk));
  x.bound(N*M);}END
#define SN(CALL1,CALL2,PR) KeyV v{x.key};It res=f;int n=(int)x.n-1;\
  DO(if(x.key2&1)res=CALL1;else res=CALL2){\
  EXPECT_POS(std::search_n(R.begin(),R.end(),n,v,PR));x.bound(N);}
ALG(AL_SEARCH_N) SN(pc::search_n<Ts...>(f,l,n,v),
  pc::search_n<Ts...>(f,l,(std::ptrdiff_t)n,v),k0)END
ALG(AL_SEARCH_N_P) SN(pc::search_n<Ts...>(f,l,n,v,p2),
  pc::search_n<Ts...>(f,l,(std::ptrdiff_t)n,v,p2),rk)END

/* second range = elements of the same collection */
ALG(AL_SELF_EQUAL) x.self2=true;
  std::size_t n=std::min(x.n,x.all.size()-x.mid);
  It g=x.at<It>(x.mid),h=x.at<It>(x.mid+n);bool r=false;
  DO(r=pc::equal<Ts...>(f,l,g,h,p2))x.eq(r,std::equal(R.begin(),R.end(),
    x.all.begin()+x.mid,x.all.begin()+x.mid+n,re));END
ALG(AL_SELF_MISMATCH) x.self2=true;
  std::size_t n=std::min(x.n,x.all.size()-x.mid);
  It g=x.at<It>(x.mid),h=x.at<It>(x.mid+n);std::pair<It,It> r{f,f};
  DO(r=pc::mismatch<Ts...>(f,l,g,h,p2)){auto w=std::mismatch(
    R.begin(),R.end(),x.all.begin()+x.mid,x.all.begin()+x.mid+n,re);
    x.pos(r.first,x.a+(std::size_t)(w.first-R.begin()));
    x.pos(r.second,(std::size_t)(w.second-x.all.begin()));}END
ALG(AL_SELF_SEARCH) x.self2=true;
  std::size_t n=std::min(x.n,x.all.size()-x.mid);
  It g=x.at<It>(x.mid),h=x.at<It>(x.mid+n);It res=f;
  DO(res=pc::search<Ts...>(f,l,g,h)){EXPECT_POS(std::search(R.begin(),R.end(),
    x.all.begin()+x.mid,x.all.begin()+x.mid+n,e0));}END
ALG(AL_SELF_PERM) x.m2&=1;if(x.m2){
  PERM(pc::is_permutation<Ts...>(f,l,f3,l3,P2P{1}),&1)}else{
  PERM(pc::is_permutation<Ts...>(f,l,f3,l3,P2P{0}),)}END
#endif

#if ALG_PART==3
#define WR(...) bool ok_=x.guard([&]{__VA_ARGS__;});
ALG(AL_COPY) for(auto& e:R)want.push_back({true,e.id});
  WR(out=pc::copy<Ts...>(f,l,out))x.writes(sink,out,want,false,ok_);END
ALG(AL_COPY_N) std::size_t n=std::min(x.n,x.all.size()-x.a);
  x.r.assign(x.all.begin()+x.a,x.all.begin()+x.a+n);
  for(auto& e:R)want.push_back({true,e.id});
  WR(out=pc::copy_n<Ts...>(f,(std::ptrdiff_t)n,out))
  x.writes(sink,out,want,false,ok_);END
ALG(AL_COPY_IF) for(auto& e:R)if(rp(e))want.push_back({true,e.id});
  WR(out=pc::copy_if<Ts...>(f,l,out,p1))x.writes(sink,out,want,false,ok_);
  if(ok_)x.exactly(N);END
ALG(AL_MOVE) for(auto& e:R)want.push_back({true,e.id});
  WR(out=pc::move<Ts...>(f,l,out))x.writes(sink,out,want,true,ok_);END
struct TOp1{template<typename X> TR operator()(X& e)const{++g_alog.calls;
  fault_point(FK_CALL);u32 k=note(e);return TR{k*7+1};}};
struct TOp2{template<typename X> TR operator()(X& e,const KeyV& v)const{
  ++g_alog.calls;fault_point(FK_CALL);u32 k=note(e);return TR{k*11+v.k};}};
ALG(AL_TRANSFORM) for(auto& e:R)want.push_back({false,e.key*7+1});
  WR(out=pc::transform<Ts...>(f,l,out,TOp1{}))x.writes(sink,out,want,false,ok_);
  if(ok_)x.exactly(N);END
ALG(AL_TRANSFORM2) while(x.k2.size()<N)x.k2.push_back(KeyV{(u32)x.k2.size()});
  f2=FwK{x.k2.data(),x.k2.data()+x.k2.size()};
  for(std::size_t q=0;q<N;++q)want.push_back({false,R[q].key*11+x.k2[q].k});
  WR(out=pc::transform<Ts...>(f,l,f2,out,TOp2{}))
  x.writes(sink,out,want,false,ok_);if(ok_)x.exactly(N);END
ALG(AL_REPLACE_COPY) KeyV o{x.key},n{x.key2};
  for(auto& e:R)want.push_back(k0(e,o)?W{false,n.k}:W{true,e.id});
  WR(out=pc::replace_copy<Ts...>(f,l,out,o,n))
  x.writes(sink,out,want,false,ok_);if(ok_)x.exactly(N);END
ALG(AL_REPLACE_COPY_IF) KeyV n{x.key2};
  for(auto& e:R)want.push_back(rp(e)?W{false,n.k}:W{true,e.id});
  WR(out=pc::replace_copy_if<Ts...>(f,l,out,p1,n))
  x.writes(sink,out,want,false,ok_);if(ok_)x.exactly(N);END
ALG(AL_REMOVE_COPY) KeyV o{x.key};
  for(auto& e:R)if(!k0(e,o))want.push_back({true,e.id});
  WR(out=pc::remove_copy<Ts...>(f,l,out,o))
  x.writes(sink,out,want,false,ok_);if(ok_)x.exactly(N);END
ALG(AL_REMOVE_COPY_IF) for(auto& e:R)if(!rp(e))want.push_back({true,e.id});
  WR(out=pc::remove_copy_if<Ts...>(f,l,out,p1))
  x.writes(sink,out,want,false,ok_);if(ok_)x.exactly(N);END
#define UC(CALL,PR) {std::vector<Ref> u;\
  std::unique_copy(R.begin(),R.end(),std::back_inserter(u),PR);\
  for(auto& e:u)want.push_back({true,e.id});\
  WR(out=CALL)x.writes(sink,out,want,false,ok_);if(ok_)x.bound(N?N-1:0);}
ALG(AL_UNIQUE_COPY) UC(pc::unique_copy<Ts...>(f,l,out),e0)END
ALG(AL_UNIQUE_COPY_P) x.m2&=1;p2.m=x.m2;
  UC(pc::unique_copy<Ts...>(f,l,out,p2),re)END
ALG(AL_ROTATE_COPY)
  std::size_t mi=x.a+(N?x.mid%(N+1):0);It mid=x.at<It>(mi);
  for(std::size_t q=mi;q<x.b;++q)want.push_back({true,x.all[q].id});
  for(std::size_t q=x.a;q<mi;++q)want.push_back({true,x.all[q].id});
  WR(out=pc::rotate_copy<Ts...>(f,mid,l,out))
  x.writes(sink,out,want,false,ok_);END
ALG(AL_SAMPLE) Rng g{x.run_seed};u64 calls=0;Urbg u{&g,&calls};
  std::size_t n=x.n;
  WR(if(x.key&1)out=pc::sample<Ts...>(f,l,out,(int)n,u);
     else out=pc::sample<Ts...>(f,l,out,(std::ptrdiff_t)n,u))
  /* a subsequence of the range, of size min(n,N) */
  std::size_t q=0,cnt=0;
  for(auto& wr:sink.w){
    if(g_violation.set)break;
    if(wr.pos!=cnt){fail("alg",x.w()+"write to a wrong output position");break;}
    ++cnt;
    while(q<N&&R[q].id!=wr.p.i.id)++q;
    if(q==N){fail("alg",x.w()+"sample is not a subsequence of the range");
      break;}
    ++q;
    x.check_probe(wr.p,"the output iterator");
  }
  if(ok_&&!g_violation.set){
    if(cnt!=std::min(n,N)||out.n!=cnt)
      fail("alg",x.w()+"sampled "+std::to_string(cnt)+" of "+
        std::to_string(N)+", asked for "+std::to_string(n));
  }
END
ALG(AL_SAMPLE_U) /* every element equally likely (8 sigma over 600 draws) */
  if(N>=2&&N<=12){
    Rng g{x.run_seed};u64 calls=0;Urbg u{&g,&calls};
    std::size_t n=1+x.n%(N-1);std::vector<u32> hit(N,0);
    const int D=600;
    for(int d=0;d<D&&!g_violation.set;++d){
      sink.w.clear();Out o{&sink,0};
      bool ok_=x.guard([&]{pc::sample<Ts...>(f,l,o,(std::ptrdiff_t)n,u);});
      if(!ok_)break;
      for(auto& wr:sink.w)for(std::size_t q=0;q<N;++q)
        if(R[q].id==wr.p.i.id)++hit[q];
    }
    if(!x.threw&&!g_violation.set){
      double p=double(n)/N,s=std::sqrt(D*p*(1-p));
      for(std::size_t q=0;q<N;++q)if(std::fabs(hit[q]-D*p)>8*s+2)
        {fail("alg",x.w()+"element "+std::to_string(q)+" of "+
          std::to_string(N)+" drawn "+std::to_string(hit[q])+" times in "+
          std::to_string(D)+" samples of "+std::to_string(n));break;}
    }
  }
END
ALG(AL_IS_PARTITIONED) bool r=false;DO(r=pc::is_partitioned<Ts...>(f,l,p1)){
  x.eq(r,std::is_partitioned(R.begin(),R.end(),rp));x.bound(N);}END
ALG(AL_PARTITION_COPY)
  for(auto& e:R)(rp(e)?want:want2).push_back({true,e.id});
  std::pair<Out,Out> r{out,out2};
  WR(r=pc::partition_copy<Ts...>(f,l,out,out2,p1))
  x.writes(sink,r.first,want,false,ok_);
  x.writes(sink2,r.second,want2,false,ok_);if(ok_)x.exactly(N);END
ALG(AL_PARTITION_POINT)
  /* the range is made partitioned: the condition holds for a prefix */
  x.cond.mode=3;x.cond.first_ids.clear();
  std::size_t k=N?x.n%(N+1):0;
  for(std::size_t q=0;q<k;++q)x.cond.first_ids.push_back(R[q].id);
  It res=f;DO(res=pc::partition_point<Ts...>(f,l,p1)){
    x.pos(res,x.a+k);
    u64 lg=0;while((std::size_t(1)<<lg)<N+1)++lg;
    x.bound(lg+2);
  }
END
#endif

#define REG(NAME) \
  reg<NAME,0,TL<>>();reg<NAME,1,TL<A1>>();reg<NAME,2,TL<A3,A0>>();\
  reg<NAME,3,TL<A4,A2,A1,A0,A3>>();

template<u32 AL,int I,typename TS> void reg()
{
  g_alg_table[AL][I][0]=&Call<AL,TS,false>::run;
  g_alg_table[AL][I][1]=&Call<AL,TS,true>::run;
}

} /* namespace sim */
