/* Conformance driver for identities and time stamps: threads and forks at every turn. */
#define _GNU_SOURCE
#include <pthread.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include "common.h"
#include "sasalloc.h"
#include "sassim.h"
#include "saslock.h"
#include "sphthread.h"
#include "sphtimer.h"
#include "sphgtod.h"
#include "sphgettime.h"
#include "sphlflogger.h"
#include "sphlflogentry.h"
#include "sphsinglepcqueue.h"
#include "sphlfentry.h"
#include "sphlogportal.h"
#define NS 1000000000LL
static char *argv0;
static struct shared { int next; int flag; } *sh;
static SPHLFLogger_t LG;
static const char *tm2(long long v)
{
  static __thread char b[8][48]; static __thread int i; char *s = b[i++ & 7];
  long long q = v / NS, r = v % NS; if (r < 0) { q--; r += NS; }
  sprintf(s, "[%lld,%lld]", q, r); return s;
}
static long long mono(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * NS + t.tv_nsec; }
typedef struct { uint64_t s; } rg_t;
static uint64_t rg64(rg_t *g) { uint64_t z = (g->s += 0x9E3779B97F4A7C15ULL); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
static unsigned rg(rg_t *g, unsigned n) { return (unsigned)(rg64(g) >> 11) % n; }
static long long conv_in(rg_t *g) { long long s; switch (rg(g, 4)) { case 0: s = rg(g, 3); break; case 1: s = 2000000000LL - rg(g, 3); break; default: s = rg(g, 2000000000); }
  static const long long e[] = { 0, 1, 499, 500, 501, 999, 1000, 999499, 999500, 999999, 999999000, 999999499, 999999500, 999999999 };
  return s * NS + (rg(g, 2) ? e[rg(g, 14)] : rg(g, 1000000000)); }
static void ask(int h, int f)
{
  switch (f) {
  case 0: ev("{\"e\":\"ask\",\"h\":%d,\"f\":\"pid\",\"v\":%d}", h, (int)sphdeGetPID()); break;
  case 1: ev("{\"e\":\"ask\",\"h\":%d,\"f\":\"tid\",\"v\":%d}", h, (int)sphdeGetTID()); break;
  case 2: ev("{\"e\":\"ask\",\"h\":%d,\"f\":\"fpid\",\"v\":%d}", h, sphFastGetPID()); break;
  default: ev("{\"e\":\"ask\",\"h\":%d,\"f\":\"ftid\",\"v\":%d}", h, sphFastGetTID());
  }
}
static void stamp(int h, rg_t *g)
{
  SPHLFLoggerHandle_t hs, *r = NULL; memset(&hs, 0, sizeof hs);
  long long b, a, v = -1; int pid = -1, tid = -1, k = rg(g, 6);
  if (k < 4) {
    b = mono();
    switch (k) {
    case 0: r = SPHLFLoggerAllocTimeStamped(LG, 1, 2, 16, &hs); break;
    case 1: r = SPHLFLoggerAllocStrideTimeStamped(LG, 1, 2, &hs); break;
    default: {     /* one of its own */
      char *m = (char*)aligned_alloc(4096, 4096); SPHLFLogger_t l;
      memset(m, 0, 4096);
      l = k == 2 ? SPHLFLoggerInit(m, 4096) : SPHLFLoggerInitWithStride(m, 4096, 64, 0); b = mono();
      r = k == 2 ? SPHLFLoggerAllocTimeStampedNoLock(l, 3, 4, 32, &hs) : SPHLFLoggerAllocStrideTimeStampedNoLock(l, 3, 4, &hs); }
    }
    a = mono();
    if (r) { SPHLFLogEntryComplete(r); v = SPHLFLogEntryTimeStamp(r); pid = SPHLFLogEntryPID(r); tid = SPHLFLogEntryTID(r); }
  } else {
    SPHLFEntryHandle_t es, *q; memset(&es, 0, sizeof es);
    char *m = (char*)aligned_alloc(4096, 4096); memset(m, 0, 4096);
    SPHSinglePCQueue_t p = SPHSinglePCQueueInitWithStride(m, 4096, 128, 0);
    b = mono();
    q = SPHSinglePCQueueAllocStrideTimeStamped(p, 5, 6, &es);
    a = mono();
    if (q) { SPHSinglePCQueueEntryComplete(q); v = SPHLFEntryTimeStamp(q); pid = SPHLFEntryPID(q); tid = SPHLFEntryTID(q); }
    free(m);
  }
  ev("{\"e\":\"stamp\",\"h\":%d,\"k\":%d,\"pid\":%d,\"tid\":%d,\"b\":%s,\"v\":%s,\"a\":%s}", h, k, pid & 65535, tid & 65535, tm2(b), tm2(v), tm2(a));
}
typedef struct { rg_t g; int depth, len; } who_t;
static void body(who_t *w);
static void *thr(void *v) { who_t w = *(who_t*)v; free(v); body(&w); return NULL; }
static void body(who_t *w)
{
  rg_t *g = &w->g;
  int h = __atomic_add_fetch(&sh->next, 1, __ATOMIC_SEQ_CST);
  ev("{\"e\":\"start\",\"h\":%d,\"pid\":%d,\"tid\":%d}", h, (int)syscall(SYS_getpid), (int)syscall(SYS_gettid));
  pthread_t th[4]; int nt = 0; pid_t kid[4]; int nk = 0;
  for (int i = 0; i < w->len; i++)
    switch (rg(g, 16)) {
    case 0: case 1: case 2: ask(h, rg(g, 4)); break;
    case 3: case 4: case 5: stamp(h, g); break;
    case 6: { long long b = mono(), v = (long long)sphgettimer(), a = mono(); ev("{\"e\":\"timer\",\"h\":%d,\"b\":%s,\"v\":%s,\"a\":%s}", h, tm2(b), tm2(v), tm2(a)); break; }
    case 7: { struct timespec t; long long b = mono(); sphgettime(&t); long long a = mono(); ev("{\"e\":\"gettime\",\"b\":%s,\"v\":[%ld,%ld],\"a\":%s}", tm2(b), (long)t.tv_sec, (long)t.tv_nsec, tm2(a)); break; }
    case 8: { struct timeval t; long long b = mono(); sphgtod(&t, NULL); long long a = mono(); ev("{\"e\":\"gtod\",\"b\":%s,\"v\":[%ld,%ld],\"a\":%s}", tm2(b), (long)t.tv_sec, (long)t.tv_usec, tm2(a)); break; }
    case 9: { long long x = conv_in(g), f = (rg(g, 2) ? -1 : 1) * (conv_in(g) / (rg(g, 2) ? 10 : 1000000000)); if (x + f < 0 || x + f >= 2147483646LL * NS) f = 0;
        struct timespec t; struct timeval u; memset(&t, 255, sizeof t); memset(&u, 255, sizeof u);
        sphtb2gettime_withfactor(&t, x, f); ev("{\"e\":\"conv\",\"x\":%s,\"f\":%s,\"r\":[%ld,%ld]}", tm2(x), tm2(f), (long)t.tv_sec, (long)t.tv_nsec);
        sphtb2gtod_withfactor(&u, x, f); ev("{\"e\":\"convmicro\",\"x\":%s,\"f\":%s,\"r\":[%ld,%ld]}", tm2(x), tm2(f), (long)u.tv_sec, (long)u.tv_usec); break; }
    case 10: { const char *c = sphdeGetCmdLine(); ev("{\"e\":\"cmd\",\"h\":%d,\"ok\":%d}", h, c && !strncmp(c, argv0, 250)); break; }
    case 11: case 12: if (nt < 4 && w->depth < 4 && sh->next < 60) {
        who_t *n = malloc(sizeof *n); n->g.s = rg64(g); n->depth = w->depth + 1; n->len = rg(g, w->len + 1);
        if (!pthread_create(&th[nt], NULL, thr, n)) nt++; } break;
    case 13: if (nk < 4 && w->depth < 4 && sh->next < 60) {
        who_t n; n.g.s = rg64(g); n.depth = w->depth + 1; n.len = rg(g, w->len + 1);
        if (rg(g, 2)) ask(h, rg(g, 4));
        pid_t p = fork();
        if (p == 0) { body(&n); _exit(0); }
        if (p > 0) kid[nk++] = p; } break;
    case 14: if (nt) pthread_join(th[--nt], NULL); break;
    default: if (nk) waitpid(kid[--nk], NULL, 0);
    }
  while (nt) pthread_join(th[--nt], NULL);
  while (nk) { int st; if (waitpid(kid[--nk], &st, 0) > 0 && st) ev("{\"e\":\"died\",\"st\":%d}", st); }
  ev("{\"e\":\"end\",\"h\":%d}", h);
}
typedef struct { uint64_t seed; int len; } hist_t;
static void tree(void *v)
{
  hist_t *x = v; sh->next = 0; ev("{\"e\":\"reset\"}");
  char *m = (char*)mmap(NULL, 1 << 20, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  LG = SPHLFLoggerInitWithStride(m, 1 << 20, 64, 0);
  who_t w = { { x->seed * 77777 + 5 }, 0, x->len };
  body(&w);
}
/* a thread takes a lock and makes a process, which asks for it too */
static void *forker(void *v)
{
  hist_t *x = v; char *a = (char*)SASBlockAlloc(4096); rg_t g = { x->seed };
  int h = __atomic_add_fetch(&sh->next, 1, __ATOMIC_SEQ_CST);
  sh->flag = 0;
  ev("{\"e\":\"start\",\"h\":%d,\"pid\":%d,\"tid\":%d}", h, (int)syscall(SYS_getpid), (int)syscall(SYS_gettid));
  if (rg(&g, 2)) ask(h, rg(&g, 4));
  SASLock(a, SasUserLock__WRITE); ev("{\"e\":\"got\",\"h\":%d}", h);
  pid_t p = fork();
  if (p == 0) {
    int k = __atomic_add_fetch(&sh->next, 1, __ATOMIC_SEQ_CST);
    ev("{\"e\":\"start\",\"h\":%d,\"pid\":%d,\"tid\":%d}", k, (int)syscall(SYS_getpid), (int)syscall(SYS_gettid));
    if (rg(&g, 2)) ask(k, rg(&g, 4));
    SASLock(a, SasUserLock__WRITE); ev("{\"e\":\"got\",\"h\":%d}", k);
    usleep(500);
    ev("{\"e\":\"rel\",\"h\":%d}", k); SASUnlock(a);
    if (rg(&g, 2)) { SASLock(a, SasUserLock__READ); ev("{\"e\":\"got\",\"h\":%d}", k); ev("{\"e\":\"rel\",\"h\":%d}", k); SASUnlock(a); }
    ev("{\"e\":\"end\",\"h\":%d}", k);
    _exit(0);
  }
  usleep(5000 + rg(&g, 5000));
  ev("{\"e\":\"rel\",\"h\":%d}", h); SASUnlock(a);
  int st; waitpid(p, &st, 0);
  if (st) ev("{\"e\":\"died\",\"st\":%d}", st);
  ev("{\"e\":\"end\",\"h\":%d}", h);
  return NULL;
}
static void lockfork(void *v)
{
  hist_t *x = v; sh->next = 0; ev("{\"e\":\"reset\"}");
  if (SASJoinRegion()) { ev("{\"e\":\"nojoin\"}"); return; }
  if (x->seed & 1) { pthread_t t; pthread_create(&t, NULL, forker, x); pthread_join(t, NULL); } else forker(x);
  SASRemove();
}
int main(int argc, char **argv)
{
  if (argc < 6) return 2;
  long long in = mono();
  char *was = getenv("IDENT_EXEC");
  if (!was) {      /* once more, with the time at which the library was initialized bracketed */
    char s[40]; sprintf(s, "%lld", mono()); setenv("IDENT_EXEC", s, 1);
    execv("/proc/self/exe", argv); return 97;
  }
  const char *mode = argv[1]; uint64_t seed = strtoull(argv[2], 0, 10); int cnt = atoi(argv[3]), len = atoi(argv[4]);
  argv0 = argv[0];
  ev_init();
  sh = (struct shared*)mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  struct timespec rt; clock_gettime(CLOCK_REALTIME, &rt); long long real = rt.tv_sec * NS + rt.tv_nsec - mono();
  ev("{\"e\":\"reset\"}");
  ev("{\"e\":\"scales\",\"freq\":%lld,\"fast\":%lld,\"off\":%s,\"goff\":%s,\"real\":%s,\"win\":%s}", (long long)sphgetcpufreq() & 0x7fffffff, (long long)sphfastcpufreq() & 0x7fffffff,
     tm2((long long)sphget_gettime_conv_factor()), tm2((long long)sphget_gtod_conv_factor()), tm2(real), tm2(in - atoll(was) + 10));
  for (int i = 0; i < cnt; i++) {
    hist_t h = { seed * 100003 + i, len };
    if (!strcmp(mode, "tree")) in_child(tree, &h, 60);
    else { store_make("ident"); in_child(lockfork, &h, 30); store_drop(); }
  }
  ev_write(argv[argc - 1]);
  return 0;
}
