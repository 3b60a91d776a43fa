// Interface of the race simulator's runtime: simulated threads (fibers on one
// OS thread), the scheduler, and the happens-before race detector fed by the
// compiler's memory-access instrumentation. The runtime is never instrumented
// and shares no inline code with what is.
#ifndef SIM_RACE_RT_H
#define SIM_RACE_RT_H
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C"{
#endif

#define RT_MAXF 4

/* schedule: at the gap-th access after the previous entry, run fiber target */
typedef struct{uint32_t gap,target;}rt_switch;

typedef struct
{
  int found;
  int f1,f2;            /* fibers */
  int op1,op2;          /* their operations */
  int w1,w2;            /* is write */
  int atomic1,atomic2;
  uintptr_t addr;
  void *pc1,*pc2;
  const char* where;    /* what kind of memory */
}rt_race;

/* run n fibers to completion under the schedule */
void rt_run(int n,void(*fn)(int),const rt_switch* s,size_t ns);
const rt_race* rt_get_race(void);
uint64_t rt_accesses(void);   /* instrumented accesses of the last rt_run */
uint64_t rt_switches(void);   /* switches that took place in the last rt_run */
uint64_t rt_sched_hash(void); /* (fiber, op, access number) at switches */

int rt_self(void);            /* running fiber, -1 in the main context */
void rt_set_op(int op);

/* per-fiber fault injection */
void rt_arm(uint32_t mask,int count,int persistent);
void rt_disarm(void);
int rt_fault(uint32_t kind);  /* 1 if the fault fires here */
int rt_fired(void);
uint64_t rt_fault_total(uint32_t kind);

/* simulated heap; arenas keep separate free lists when `split` */
void rt_heap_reset(uint32_t policy,uint64_t seed);
void* rt_alloc(size_t bytes,size_t align,uint32_t arena);
int rt_free(void* p,size_t bytes,uint32_t arena); /* 0 if bad */
size_t rt_heap_live(void);

#ifdef __cplusplus
}
#endif
#endif
