// Runtime of the race simulator. Plain C style on purpose: no templates or
// inline functions that instrumented code could also emit.
#include "race_rt.h"
#include <malloc.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <ucontext.h>
#include <pthread.h>
#include <errno.h>

typedef uint8_t u8;typedef uint16_t u16;typedef uint32_t u32;
typedef uint64_t u64;typedef unsigned __int128 u128;

namespace{

enum{F=RT_MAXF};
const size_t STK=512*1024;
unsigned char* stk_lo;unsigned char* stk_hi;

struct EhGlobals{void* caught;unsigned int uncaught;};
struct Fiber
{
  ucontext_t ctx;
  EhGlobals eh;
  int done,op;
  u32 vc[F];                 /* vector clock */
  u32 fmask;int fcount,fpers,ffired;
};
Fiber fb[F];
ucontext_t main_ctx;
int active=0,cur=-1,nf=0;
void(*body)(int);
const rt_switch* sch;size_t nsch,isch;
u32 left;
u64 accesses,switches,shash;
rt_race race;
u64 ftotal[32];
EhGlobals main_eh;

extern "C" EhGlobals* __cxa_get_globals() noexcept;

/* ---------------------------------------------------------------- shadow */

struct Cell
{
  u64 key;              /* granule */
  u32 gen;
  u16 r[F][8],w[F][8];  /* clk<<1|atomic; 0: none */
  u16 rop[F],wop[F];
  void *rpc[F],*wpc[F];
};
const size_t NC=1u<<15;
Cell* cells;
u32 gen=1;
size_t used=0;

u64 mixu(u64 z)
{
  z+=0x9e3779b97f4a7c15ull;z=(z^(z>>30))*0xbf58476d1ce4e5b9ull;
  z=(z^(z>>27))*0x94d049bb133111ebull;return z^(z>>31);
}

Cell* cell(u64 key,int create)
{
  size_t i=(size_t)mixu(key)&(NC-1);
  for(;;i=(i+1)&(NC-1)){
    Cell& c=cells[i];
    if(c.gen!=gen){
      if(!create)return 0;
      if(++used>NC*3/4){fprintf(stderr,"race_rt: shadow full\n");_Exit(3);}
      memset(&c,0,sizeof c);
      c.gen=gen;c.key=key;
      return &c;
    }
    if(c.key==key)return &c;
  }
}

const unsigned char* heap_base;size_t heap_size;

const char* where_is(uintptr_t a)
{
  if((const unsigned char*)a>=heap_base&&
     (const unsigned char*)a<heap_base+heap_size)
    return "memory a collection obtained";
  if(a<0x10000000ull)return "a collection object or static memory";
  return "other memory";
}

void report(int f2,int op2,int w2,int at2,void* pc2,int w1,int at1,void* pc1,
  uintptr_t a)
{
  if(race.found)return;
  race.found=1;
  race.f1=cur;race.op1=fb[cur].op;race.w1=w1;race.atomic1=at1;race.pc1=pc1;
  race.f2=f2;race.op2=op2;race.w2=w2;race.atomic2=at2;race.pc2=pc2;
  race.addr=a;race.where=where_is(a);
}

void switch_to(int t)
{
  if(t==cur)return;
  int o=cur;
  EhGlobals* g=__cxa_get_globals();
  if(o>=0)fb[o].eh=*g;else main_eh=*g;
  *g=t>=0?fb[t].eh:main_eh;
  cur=t;
  swapcontext(o>=0?&fb[o].ctx:&main_ctx,t>=0?&fb[t].ctx:&main_ctx);
}

int pick(u32 target)
{
  int t=(int)(target%(u32)nf);
  for(int k=0;k<nf;++k){
    int q=(t+k)%nf;
    if(!fb[q].done)return q;
  }
  return -1;
}

void sched_point()
{
  ++accesses;
  if(isch>=nsch)return;
  if(left>0){--left;return;}
  int t=pick(sch[isch].target);
  ++isch;
  left=isch<nsch?sch[isch].gap:0;
  if(t>=0&&t!=cur){
    ++switches;
    shash=mixu(shash^((u64)accesses<<16)^((u64)fb[cur].op<<8)^(u64)(t*16+cur));
    switch_to(t);
  }
}

/* some other fiber gets to run: used by blocking primitives */
void yield_any()
{
  for(int k=1;k<nf;++k){
    int q=(cur+k)%nf;
    if(!fb[q].done){++switches;switch_to(q);return;}
  }
}

int on_stack(uintptr_t a)
{
  return a>=(uintptr_t)stk_lo&&a<(uintptr_t)stk_hi;
}

void touch(uintptr_t a,size_t n,int write,int atomic,void* pc)
{
  if(!active||cur<0||on_stack(a)||!n)return;
  sched_point();
  if(race.found)return;
  Fiber& me=fb[cur];
  u16 mine=(u16)(me.vc[cur]<<1|(atomic?1:0));
  uintptr_t e=a+n;
  while(a<e){
    Cell* c=cell((u64)(a>>3),1);
    for(;;){
      unsigned b=(unsigned)(a&7);
      for(int f=0;f<nf;++f){
        if(f==cur)continue;
        u16 w=c->w[f][b];
        if(w&&(u32)(w>>1)>me.vc[f]&&!((w&1)&&atomic))
          report(f,c->wop[f],1,w&1,c->wpc[f],write,atomic,pc,a);
        if(write){
          u16 r=c->r[f][b];
          if(r&&(u32)(r>>1)>me.vc[f]&&!((r&1)&&atomic))
            report(f,c->rop[f],0,r&1,c->rpc[f],write,atomic,pc,a);
        }
      }
      u16& s=write?c->w[cur][b]:c->r[cur][b];
      /* a plain access outweighs an atomic one of the same epoch */
      if(!(s&&(s>>1)==(mine>>1)&&!(s&1)))s=mine;
      ++a;
      if(a>=e||!(a&7))break;
    }
    if(write){c->wop[cur]=(u16)me.op;c->wpc[cur]=pc;}
    else{c->rop[cur]=(u16)me.op;c->rpc[cur]=pc;}
  }
}

/* fresh memory: earlier accesses belong to another object's life */
void fresh(uintptr_t a,size_t n)
{
  if(!active||cur<0||!n)return;
  uintptr_t e=a+n;
  while(a<e){
    Cell* c=cell((u64)(a>>3),0);
    unsigned b=(unsigned)(a&7),k=8-b;
    if(c){
      for(;b<8&&a<e;++b,++a)
        for(int f=0;f<F;++f)c->r[f][b]=c->w[f][b]=0;
    }
    else{a+=k;}
  }
}

/* ------------------------------------------------- synchronisation objects */

struct Sync{u64 key;u32 gen;u32 vc[F];};
const size_t NSY=4096;
Sync syncs[NSY];
Sync* sync_of(u64 key)
{
  size_t i=(size_t)mixu(key)&(NSY-1);
  for(size_t k=0;k<NSY;++k,i=(i+1)&(NSY-1)){
    Sync& s=syncs[i];
    if(s.gen!=gen){memset(&s,0,sizeof s);s.gen=gen;s.key=key;return &s;}
    if(s.key==key)return &s;
  }
  fprintf(stderr,"race_rt: too many sync objects\n");_Exit(3);
}
void acquire(const void* p)
{
  if(!active||cur<0)return;
  Sync* s=sync_of((u64)(uintptr_t)p);
  for(int f=0;f<nf;++f)if(s->vc[f]>fb[cur].vc[f])fb[cur].vc[f]=s->vc[f];
}
void release(const void* p)
{
  if(!active||cur<0)return;
  Sync* s=sync_of((u64)(uintptr_t)p);
  for(int f=0;f<nf;++f)if(fb[cur].vc[f]>s->vc[f])s->vc[f]=fb[cur].vc[f];
  if(fb[cur].vc[cur]<32000)++fb[cur].vc[cur];
}

/* ----------------------------------------------------------------- fibers */

void fiber_main()
{
  int me=cur;
  body(me);
  fb[me].done=1;
  int t=pick((u32)me+1);
  switch_to(t);
  abort();
}

/* ------------------------------------------------------------------- heap */

struct Hdr{u32 live,arena;u64 bytes;};  /* kept out of line */
const size_t HSZ=(size_t)16<<20;
unsigned char* hb;size_t hlo;u32 hpol;u64 hseed;size_t hlive;
const size_t HB=1u<<14;
struct Blk{unsigned char* p;size_t bytes;u32 arena;int live;};
Blk* blk;size_t nblk;

} /* namespace */

extern "C"{

void rt_run(int n,void(*fn)(int),const rt_switch* s,size_t ns)
{
  if(!cells){
    cells=(Cell*)mmap(0,NC*sizeof(Cell),PROT_READ|PROT_WRITE,
      MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
    stk_lo=(unsigned char*)mmap(0,F*STK,PROT_READ|PROT_WRITE,
      MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
    stk_hi=stk_lo+F*STK;
  }
  ++gen;used=0;
  memset(&race,0,sizeof race);
  nf=n;body=fn;sch=s;nsch=ns;isch=0;
  left=ns?s[0].gap:0;
  accesses=switches=0;shash=1;
  for(int f=0;f<n;++f){
    Fiber& x=fb[f];
    memset(&x.eh,0,sizeof x.eh);
    x.done=0;x.op=0;x.fmask=0;x.ffired=0;
    for(int k=0;k<F;++k)x.vc[k]=0;
    x.vc[f]=1;
    getcontext(&x.ctx);
    x.ctx.uc_stack.ss_sp=stk_lo+f*STK;
    x.ctx.uc_stack.ss_size=STK;
    x.ctx.uc_link=0;
    makecontext(&x.ctx,(void(*)())fiber_main,0);
  }
  active=1;
  switch_to(0);
  active=0;
}
const rt_race* rt_get_race(void){return &race;}
uint64_t rt_accesses(void){return accesses;}
uint64_t rt_switches(void){return switches;}
uint64_t rt_sched_hash(void){return shash;}
int rt_self(void){return cur;}
void rt_set_op(int op){if(cur>=0)fb[cur].op=op;}

void rt_arm(uint32_t m,int c,int p)
{
  if(cur<0)return;
  fb[cur].fmask=m;fb[cur].fcount=c;fb[cur].fpers=p;fb[cur].ffired=0;
}
void rt_disarm(void){if(cur>=0)fb[cur].fmask=0;}
int rt_fired(void){return cur>=0?fb[cur].ffired:0;}
int rt_fault(uint32_t k)
{
  if(cur<0)return 0;
  Fiber& x=fb[cur];
  if(!(x.fmask&(1u<<k)))return 0;
  if(x.fcount>0){--x.fcount;return 0;}
  if(x.ffired&&!x.fpers)return 0;
  x.ffired=1;++ftotal[k];
  return 1;
}
uint64_t rt_fault_total(uint32_t k){return ftotal[k];}

/* ------------------------------------------------------------------- heap */

void rt_heap_reset(uint32_t policy,uint64_t seed)
{
  if(!hb){
    hb=(unsigned char*)mmap((void*)0x300000000000ull,HSZ,PROT_READ|PROT_WRITE,
      MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE,-1,0);
    if(hb==MAP_FAILED){fprintf(stderr,"race_rt: no heap\n");_Exit(3);}
    blk=(Blk*)calloc(HB,sizeof(Blk));
    heap_base=hb;heap_size=HSZ;
  }
  memset(hb,0xDB,hlo);
  hlo=64;hpol=policy;hseed=seed;nblk=0;hlive=0;
}
void* rt_alloc(size_t bytes,size_t align,uint32_t arena)
{
  if(!bytes)bytes=1;
  unsigned char* p=0;
  if(hpol&1){ /* reuse the most recently freed block of the size, whatever
                 collection it belonged to */
    for(size_t k=nblk;k-->0;)
      if(!blk[k].live&&blk[k].bytes==bytes&&!((uintptr_t)blk[k].p%align)){
        p=blk[k].p;blk[k].live=1;blk[k].arena=arena;break;}
  }
  if(!p){
    size_t a=(uintptr_t)(hb+hlo)%align;
    size_t off=hlo+(a?align-a:0);
    if(hpol&2)off+=64*((mixu(hseed^nblk)>>7)%3),off+=(align-(uintptr_t)(hb+off)%align)%align;
    if(off+bytes>HSZ||nblk>=HB)return 0;
    p=hb+off;
    hlo=(off+bytes+7)&~(size_t)7;
    blk[nblk].p=p;blk[nblk].bytes=bytes;blk[nblk].arena=arena;
    blk[nblk].live=1;++nblk;
  }
  ++hlive;
  memset(p,0xAB,bytes);
  fresh((uintptr_t)p,bytes);
  return p;
}
int rt_free(void* p,size_t bytes,uint32_t arena)
{
  if(!bytes)bytes=1;
  for(size_t k=nblk;k-->0;)if(blk[k].p==p&&blk[k].live){
    if(blk[k].bytes!=bytes||blk[k].arena!=arena)return 0;
    /* freeing is a write to the whole block */
    touch((uintptr_t)p,bytes,1,0,__builtin_return_address(0));
    blk[k].live=0;--hlive;
    return 1;
  }
  return 0;
}
size_t rt_heap_live(void){return hlive;}

/* ------------------------------------------------- instrumentation entries */

#define PC __builtin_return_address(0)
void __tsan_init(void){}
void __tsan_func_entry(void*){}
void __tsan_func_exit(void){}
#define ACC(n) \
void __tsan_read##n(void* p){touch((uintptr_t)p,n,0,0,PC);} \
void __tsan_write##n(void* p){touch((uintptr_t)p,n,1,0,PC);} \
void __tsan_unaligned_read##n(void* p){touch((uintptr_t)p,n,0,0,PC);} \
void __tsan_unaligned_write##n(void* p){touch((uintptr_t)p,n,1,0,PC);} \
void __tsan_volatile_read##n(void* p){touch((uintptr_t)p,n,0,0,PC);} \
void __tsan_volatile_write##n(void* p){touch((uintptr_t)p,n,1,0,PC);} \
void __tsan_unaligned_volatile_read##n(void* p){touch((uintptr_t)p,n,0,0,PC);} \
void __tsan_unaligned_volatile_write##n(void* p){touch((uintptr_t)p,n,1,0,PC);} \
void __tsan_read_write##n(void* p){touch((uintptr_t)p,n,0,0,PC);\
  touch((uintptr_t)p,n,1,0,PC);} \
void __tsan_unaligned_read_write##n(void* p){touch((uintptr_t)p,n,0,0,PC);\
  touch((uintptr_t)p,n,1,0,PC);}
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_vptr_update(void** p,void* v)
{
  if(*p!=v)touch((uintptr_t)p,8,1,0,PC);
}
void __tsan_vptr_read(void** p){touch((uintptr_t)p,8,0,0,PC);}
void __tsan_read_range(void* p,size_t n){touch((uintptr_t)p,n,0,0,PC);}
void __tsan_write_range(void* p,size_t n){touch((uintptr_t)p,n,1,0,PC);}
void* __tsan_memcpy(void* d,const void* s,size_t n)
{
  touch((uintptr_t)s,n,0,0,PC);touch((uintptr_t)d,n,1,0,PC);
  return memcpy(d,s,n);
}
void* __tsan_memmove(void* d,const void* s,size_t n)
{
  touch((uintptr_t)s,n,0,0,PC);touch((uintptr_t)d,n,1,0,PC);
  return memmove(d,s,n);
}
void* __tsan_memset(void* d,int c,size_t n)
{
  touch((uintptr_t)d,n,1,0,PC);
  return memset(d,c,n);
}

/* atomics: executed in one piece; ordering feeds the vector clocks */
static void at_read(const volatile void* p,size_t n,int mo,void* pc)
{
  touch((uintptr_t)p,n,0,1,pc);
  if(mo==__ATOMIC_ACQUIRE||mo==__ATOMIC_CONSUME||mo==__ATOMIC_SEQ_CST||
     mo==__ATOMIC_ACQ_REL)acquire((const void*)p);
}
static void at_write(const volatile void* p,size_t n,int mo,void* pc)
{
  touch((uintptr_t)p,n,1,1,pc);
  if(mo==__ATOMIC_RELEASE||mo==__ATOMIC_SEQ_CST||mo==__ATOMIC_ACQ_REL)
    release((const void*)p);
}
static void at_rmw(const volatile void* p,size_t n,int mo,void* pc)
{
  touch((uintptr_t)p,n,1,1,pc);
  if(mo==__ATOMIC_ACQUIRE||mo==__ATOMIC_CONSUME||mo==__ATOMIC_SEQ_CST||
     mo==__ATOMIC_ACQ_REL)acquire((const void*)p);
  if(mo==__ATOMIC_RELEASE||mo==__ATOMIC_SEQ_CST||mo==__ATOMIC_ACQ_REL)
    release((const void*)p);
}
#define ATOM(B,T) \
T __tsan_atomic##B##_load(const volatile T* p,int mo)\
  {at_read(p,sizeof(T),mo,PC);return *p;} \
void __tsan_atomic##B##_store(volatile T* p,T v,int mo)\
  {at_write(p,sizeof(T),mo,PC);*p=v;} \
T __tsan_atomic##B##_exchange(volatile T* p,T v,int mo)\
  {at_rmw(p,sizeof(T),mo,PC);T o=*p;*p=v;return o;} \
T __tsan_atomic##B##_fetch_add(volatile T* p,T v,int mo)\
  {at_rmw(p,sizeof(T),mo,PC);T o=*p;*p=(T)(o+v);return o;} \
T __tsan_atomic##B##_fetch_sub(volatile T* p,T v,int mo)\
  {at_rmw(p,sizeof(T),mo,PC);T o=*p;*p=(T)(o-v);return o;} \
T __tsan_atomic##B##_fetch_and(volatile T* p,T v,int mo)\
  {at_rmw(p,sizeof(T),mo,PC);T o=*p;*p=(T)(o&v);return o;} \
T __tsan_atomic##B##_fetch_or(volatile T* p,T v,int mo)\
  {at_rmw(p,sizeof(T),mo,PC);T o=*p;*p=(T)(o|v);return o;} \
T __tsan_atomic##B##_fetch_xor(volatile T* p,T v,int mo)\
  {at_rmw(p,sizeof(T),mo,PC);T o=*p;*p=(T)(o^v);return o;} \
T __tsan_atomic##B##_fetch_nand(volatile T* p,T v,int mo)\
  {at_rmw(p,sizeof(T),mo,PC);T o=*p;*p=(T)~(o&v);return o;} \
int __tsan_atomic##B##_compare_exchange_strong(volatile T* p,T* c,T v,int mo,\
  int fm)\
  {if(*p==*c){at_rmw(p,sizeof(T),mo,PC);*p=v;return 1;}\
   at_read(p,sizeof(T),fm,PC);*c=*p;return 0;} \
int __tsan_atomic##B##_compare_exchange_weak(volatile T* p,T* c,T v,int mo,\
  int fm)\
  {return __tsan_atomic##B##_compare_exchange_strong(p,c,v,mo,fm);} \
T __tsan_atomic##B##_compare_exchange_val(volatile T* p,T c,T v,int mo,int fm)\
  {__tsan_atomic##B##_compare_exchange_strong(p,&c,v,mo,fm);return c;}
ATOM(8,u8) ATOM(16,u16) ATOM(32,u32) ATOM(64,u64)
void __tsan_atomic_thread_fence(int){}
void __tsan_atomic_signal_fence(int){}

/* --------------------------------------------------------- guarded statics */

int __cxa_guard_acquire(u64* g)
{
  u8* b=(u8*)g;
  for(;;){
    if(b[0]){acquire(g);return 0;}
    if(!b[1]){b[1]=1;return 1;}
    if(!active||cur<0)abort();
    yield_any();
  }
}
void __cxa_guard_release(u64* g)
{
  u8* b=(u8*)g;
  release(g);
  b[0]=1;b[1]=0;
}
void __cxa_guard_abort(u64* g){((u8*)g)[1]=0;}

/* --------------------------------------------------------------- mutexes */

struct Mtx{pthread_mutex_t* m;int owner,depth;};
static Mtx mtx[64];
static int mtx_take(pthread_mutex_t* m,int wait)
{
  for(;;){
    Mtx* fr=0;Mtx* me=0;
    for(int k=0;k<64;++k){
      if(mtx[k].m==m)me=&mtx[k];
      else if(!mtx[k].m&&!fr)fr=&mtx[k];
    }
    if(!me){
      if(!fr)abort();
      fr->m=m;fr->owner=cur;fr->depth=1;acquire(m);return 0;
    }
    if(me->owner==cur){++me->depth;return 0;}
    if(!wait)return EBUSY;
    yield_any();
  }
}
int pthread_mutex_lock(pthread_mutex_t* m)
{
  if(!active||cur<0)return 0;
  return mtx_take(m,1);
}
int pthread_mutex_trylock(pthread_mutex_t* m)
{
  if(!active||cur<0)return 0;
  return mtx_take(m,0);
}
int pthread_mutex_unlock(pthread_mutex_t* m)
{
  if(!active||cur<0)return 0;
  for(int k=0;k<64;++k)if(mtx[k].m==m){
    release(m);
    if(--mtx[k].depth==0)mtx[k].m=0;
    break;
  }
  return 0;
}

/* ------------------------------------------------- memory of the language */

void* __real___cxa_allocate_exception(size_t);
void* __wrap___cxa_allocate_exception(size_t n)
{
  void* p=__real___cxa_allocate_exception(n);
  fresh((uintptr_t)p,n);
  return p;
}

} /* extern "C" */

#include <new>
static void* take(size_t n)
{
  void* p=malloc(n?n:1);
  if(p)fresh((uintptr_t)p,malloc_usable_size(p));
  return p;
}
static void give(void* p)
{
  if(!p)return;
  touch((uintptr_t)p,malloc_usable_size(p),1,0,PC);
  free(p);
}
void* operator new(size_t n){void* p=take(n);if(!p)abort();return p;}
void* operator new[](size_t n){void* p=take(n);if(!p)abort();return p;}
void* operator new(size_t n,const std::nothrow_t&)noexcept{return take(n);}
void* operator new[](size_t n,const std::nothrow_t&)noexcept{return take(n);}
void operator delete(void* p)noexcept{give(p);}
void operator delete[](void* p)noexcept{give(p);}
void operator delete(void* p,size_t)noexcept{give(p);}
void operator delete[](void* p,size_t)noexcept{give(p);}
