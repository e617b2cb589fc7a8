#define _GNU_SOURCE
#include <pthread.h>
#include <semaphore.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <errno.h>
#include <unistd.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include "vsched.h"
#define MAXT 32
enum { IDLE, READY, BLOCKED, WAITING, DONE };
static struct { int state; const void *on; int (*pred)(void*); void *arg; int go; long prio, runs; pthread_t th; } T[MAXT];
static int N, cur = -1, result, mainGo;
static volatile int active;
static long steps, low;
static sched_t how;
static uint64_t rs;
static long change[16]; static int nchange;
static void (*body)(int, void*); static void *bodyArg;
static __thread int self = -1;
int sched_blocked_mask;
static uint64_t r64(void) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; }
static unsigned r(unsigned n) { return (unsigned)((r64() >> 20) % n); }
static void fwait(int *w) { while (!__atomic_load_n(w, __ATOMIC_ACQUIRE)) syscall(SYS_futex, w, FUTEX_WAIT_PRIVATE, 0, NULL, NULL, 0); __atomic_store_n(w, 0, __ATOMIC_RELAXED); }
static void fgo(int *w) { __atomic_store_n(w, 1, __ATOMIC_RELEASE); syscall(SYS_futex, w, FUTEX_WAKE_PRIVATE, 1, NULL, NULL, 0); }
static int ready(int t)
{
  if (T[t].state == READY) return 1;
  if (T[t].state == WAITING && T[t].pred(T[t].arg)) return 1;
  return 0;
}
static int pick(int not_this)
{ /* the thread to run next */
  int best = -1, c = 0;
  if (how.kind == S_PCT) {
    for (int t = 0; t < N; t++) if (ready(t) && (best < 0 || T[t].prio > T[best].prio)) best = t;
    return best;
  }
  if (how.kind == S_PLAN) {
    for (int i = 1; i <= N; i++) { int t = ((cur < 0 ? N - 1 : cur) + i) % N; if (t != not_this && ready(t)) return t; }
    return not_this >= 0 && ready(not_this) ? not_this : -1;
  }
  for (int t = 0; t < N; t++) if (t != not_this && ready(t) && r(++c) == 0) best = t;
  if (best < 0 && not_this >= 0 && ready(not_this)) best = not_this;
  return best;
}
static void finish(int rc)
{
  result = rc; sched_blocked_mask = 0;
  for (int t = 0; t < N; t++) if (T[t].state != DONE) sched_blocked_mask |= 1 << t;
  active = 0; fgo(&mainGo);
}
static void handover(int to)
{ /* the running thread gives way to another and comes back when picked */
  int me = self;
  if (to == me) return;
  cur = to; T[to].runs = 0;
  if (T[to].state == WAITING) T[to].state = READY;
  fgo(&T[to].go);
  if (me >= 0 && T[me].state != DONE) fwait(&T[me].go);
}
static void park(void) { for (;;) { int w = 0; fwait(&w); } }
static void reschedule(int not_this)
{
  int to = pick(not_this);
  if (to < 0) {
    int left = 0; for (int t = 0; t < N; t++) left |= T[t].state != DONE;
    finish(left ? 1 : 0);
    if (left && T[self].state != DONE) park();
    return;
  }
  if (T[to].state == WAITING) T[to].state = READY;
  handover(to);
}
static void tick(int yielding)
{
  if (!active || self < 0 || self != cur) return;
  steps++; T[self].runs++;
  if (steps > how.limit) { finish(2); park(); }
  switch (how.kind) {
  case S_RANDOM: if (yielding || r(how.inv) == 0) reschedule(yielding ? self : -1); break;
  case S_PCT:
    for (int i = 0; i < nchange; i++) if (change[i] == steps) T[self].prio = --low;
    if (yielding || T[self].runs > 1500) T[self].prio = --low, T[self].runs = 0;
    reschedule(-1); break;
  default:
    for (int i = 0; i < how.nplan; i++) if (how.plan[i].step == steps && how.plan[i].to < N && ready(how.plan[i].to)) { handover(how.plan[i].to); return; }
    if (yielding || T[self].runs > 1500) { T[self].runs = 0; reschedule(self); }
  }
}
void sched_point(void) { tick(0); }
void sphde_verif_point(void) { tick(0); }
int sched_self(void) { return self; }
long sched_steps(void) { return steps; }
static void block_on(const void *a) { T[self].state = BLOCKED; T[self].on = a; reschedule(self); }
static void wake_on(const void *a) { for (int t = 0; t < N; t++) if (T[t].state == BLOCKED && T[t].on == a) T[t].state = READY; }
void sched_wait(int (*pred)(void*), void *arg)
{
  if (!active || self < 0) return;
  while (!pred(arg)) { T[self].pred = pred; T[self].arg = arg; T[self].state = WAITING; reschedule(self); T[self].state = READY; }
}
static void *thread_main(void *v)
{
  self = (int)(long)v;
  fwait(&T[self].go);
  body(self, bodyArg);
  T[self].state = DONE;
  reschedule(self);
  return NULL;
}
int sched_run(int n, void (*fn)(int, void*), void *arg, const sched_t *h)
{
  how = *h; rs = h->seed * 0x9E3779B97F4A7C15ULL + 0x1234567; for (int i = 0; i < 4; i++) r64();
  if (!rs) rs = 1;
  if (how.inv < 1) how.inv = 1;
  if (!how.limit) how.limit = 400000;
  N = n; body = fn; bodyArg = arg; steps = 0; low = 0; mainGo = 0; cur = -1;
  nchange = how.depth < 16 ? how.depth : 16;
  for (int i = 0; i < nchange; i++) change[i] = 1 + r(how.est > 1 ? how.est : 1000);
  memset(T, 0, sizeof(T));
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 1 << 20);
  for (int t = 0; t < n; t++) {
    T[t].state = READY; T[t].prio = 1;
    for (;;) { long p = 1 + r(1 << 20); int dup = 0; for (int u = 0; u < t; u++) dup |= T[u].prio == p; if (!dup) { T[t].prio = p; break; } }
    if (pthread_create(&T[t].th, &at, thread_main, (void*)(long)t)) { fprintf(stderr, "sched: no thread\n"); _exit(98); }
  }
  pthread_attr_destroy(&at);
  active = 1;
  int to = how.kind == S_PLAN ? 0 : pick(-1);
  cur = to; fgo(&T[to].go);
  fwait(&mainGo);
  if (result == 0) for (int t = 0; t < n; t++) pthread_join(T[t].th, NULL);
  self = -1;
  return result;
}
void sched_random(sched_t *s, uint64_t seed)
{
  static const int inv[] = { 2, 4, 8, 20, 60, 200 };
  memset(s, 0, sizeof(*s)); s->seed = seed;
  uint64_t x = seed * 0x2545F4914F6CDD1DULL ^ (seed >> 7); x ^= x >> 31;
  if (x % 5 < 3) { s->kind = S_RANDOM; s->inv = inv[(x >> 8) % 6]; }
  else { s->kind = S_PCT; s->depth = (x >> 8) % 5; s->est = 50 << ((x >> 16) % 7); }
}
/* ---- what the library calls to block ---- */
#define SV(s) ((int*)(s))
int sem_init(sem_t *s, int shared, unsigned v) { (void)shared; *SV(s) = (int)v; return 0; }
int sem_destroy(sem_t *s) { (void)s; return 0; }
int sem_getvalue(sem_t *s, int *v) { *v = *SV(s); return 0; }
int sem_post(sem_t *s) { tick(0); ++*SV(s); if (active) wake_on(s); return 0; }
int sem_wait(sem_t *s)
{
  tick(0);
  if (!active || self < 0) { if (*SV(s) > 0) { --*SV(s); return 0; } fprintf(stderr, "sched: sem_wait outside a run would block\n"); _exit(96); }
  while (*SV(s) <= 0) block_on(s);
  --*SV(s);
  return 0;
}
int sem_trywait(sem_t *s) { tick(0); if (*SV(s) > 0) { --*SV(s); return 0; } errno = EAGAIN; return -1; }
int sched_yield(void) { tick(1); return 0; }
/* ---- instrumentation callbacks ---- */
void __tsan_init(void) {}
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) {}
#define ACC(nm) void nm(void *p) { (void)p; tick(0); }
#define ACC5(pre) ACC(pre##1) ACC(pre##2) ACC(pre##4) ACC(pre##8) ACC(pre##16)
ACC5(__tsan_read) ACC5(__tsan_write) ACC5(__tsan_volatile_read) ACC5(__tsan_volatile_write)
ACC5(__tsan_unaligned_read) ACC5(__tsan_unaligned_write) ACC5(__tsan_unaligned_volatile_read) ACC5(__tsan_unaligned_volatile_write)
ACC(__tsan_vptr_read)
void __tsan_vptr_update(void **p, void *v) { (void)p; (void)v; }
void __tsan_read_range(void *p, long n) { (void)p; (void)n; tick(0); }
void __tsan_write_range(void *p, long n) { (void)p; (void)n; tick(0); }
void __tsan_atomic_thread_fence(int o) { (void)o; tick(0); }
void __tsan_atomic_signal_fence(int o) { (void)o; }
#define SC __ATOMIC_SEQ_CST
#define ATOM(n, ty) \
ty __tsan_atomic##n##_load(const volatile ty *p, int o) { (void)o; tick(0); return __atomic_load_n(p, SC); } \
void __tsan_atomic##n##_store(volatile ty *p, ty v, int o) { (void)o; tick(0); __atomic_store_n(p, v, SC); } \
ty __tsan_atomic##n##_exchange(volatile ty *p, ty v, int o) { (void)o; tick(0); return __atomic_exchange_n(p, v, SC); } \
ty __tsan_atomic##n##_fetch_add(volatile ty *p, ty v, int o) { (void)o; tick(0); return __atomic_fetch_add(p, v, SC); } \
ty __tsan_atomic##n##_fetch_sub(volatile ty *p, ty v, int o) { (void)o; tick(0); return __atomic_fetch_sub(p, v, SC); } \
ty __tsan_atomic##n##_fetch_and(volatile ty *p, ty v, int o) { (void)o; tick(0); return __atomic_fetch_and(p, v, SC); } \
ty __tsan_atomic##n##_fetch_or(volatile ty *p, ty v, int o) { (void)o; tick(0); return __atomic_fetch_or(p, v, SC); } \
ty __tsan_atomic##n##_fetch_xor(volatile ty *p, ty v, int o) { (void)o; tick(0); return __atomic_fetch_xor(p, v, SC); } \
ty __tsan_atomic##n##_fetch_nand(volatile ty *p, ty v, int o) { (void)o; tick(0); return __atomic_fetch_nand(p, v, SC); } \
int __tsan_atomic##n##_compare_exchange_strong(volatile ty *p, ty *e, ty v, int o, int f) { (void)o; (void)f; tick(0); return __atomic_compare_exchange_n(p, e, v, 0, SC, SC); } \
int __tsan_atomic##n##_compare_exchange_weak(volatile ty *p, ty *e, ty v, int o, int f) { (void)o; (void)f; tick(0); return __atomic_compare_exchange_n(p, e, v, 0, SC, SC); } \
ty __tsan_atomic##n##_compare_exchange_val(volatile ty *p, ty e, ty v, int o, int f) { (void)o; (void)f; tick(0); __atomic_compare_exchange_n(p, &e, v, 0, SC, SC); return e; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
