/* A schedule controller: real threads, one running at a time.  The library is compiled with the compiler's thread
   instrumentation, whose callbacks are answered in sched.c: every access to shared memory is a point at which the controller
   may hand over to another thread.  Schedules are a function of the seed. */
#ifndef SCHED_H
#define SCHED_H
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
enum { S_RANDOM, S_PCT, S_PLAN };
typedef struct {
  int kind;
  uint64_t seed;
  int inv;                    /* S_RANDOM: one point in inv hands over */
  int depth, est;             /* S_PCT: priority changes, steps they are spread over */
  int nplan; struct { long step; int to; } plan[4];   /* S_PLAN: run without preemption but at these steps */
  long limit;                 /* steps after which the run counts as stuck */
} sched_t;
/* Runs fn(0..n-1); 0: all returned, 1: nobody can run, 2: out of steps.  After 1 or 2 the threads are lost: leave the process. */
int sched_run(int n, void (*fn)(int, void*), void *arg, const sched_t *how);
void sched_wait(int (*pred)(void*), void *arg);   /* the calling thread stays blocked until pred holds */
void sched_point(void);
int sched_self(void);
long sched_steps(void);
void sched_random(sched_t *s, uint64_t seed);     /* some random or priority schedule */
extern int sched_blocked_mask;                    /* after a run that got stuck: who had not returned */
#ifdef __cplusplus
}
#endif
#endif
