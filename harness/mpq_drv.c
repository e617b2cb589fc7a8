/* Conformance driver for the multi-producer multi-consumer queue. */
#define _GNU_SOURCE
#include "common.h"
#ifndef REAL
#include "vsched.h"
#else                                     /* threads of their own, scheduled by the system */
typedef struct { int kind; } sched_t;
static int sched_run(int n, void (*f)(int, void*), void *a, sched_t *s) { return 1; }
static void sched_wait(int (*p)(void*), void *a) {}
static void sched_random(sched_t *s, uint64_t seed) {}
static int sched_blocked_mask;
#endif
#include "sassim.h"
#include "sasalloc.h"
#define SPH_INTERNAL
#include "sphmultipcqueue.h"
#include "sphsinglepcqueue.h"
int ops_dcomplete(char *p, sphLFEntryID_t tmpl, int cat, int sub);
void ops_dfill(char *p, int n, int v);
int ops_dread(char *p, int n);
int ops_dcat(char *p), ops_dsub(char *p), ops_dts(char *p), ops_dcomp(char *p);
static SPHMPMCQ_t Q;
static char *buf; static int stride, cap, total, np, nc, real; static uint64_t seed0;
static volatile int made, allocated, completed, handed, freed, finished_p;
#define INC(x) __atomic_add_fetch(&(x), 1, __ATOMIC_SEQ_CST)
#define C(t, f, ...) ev("{\"e\":\"c\",\"t\":%d,\"o\":" f "}", t, ##__VA_ARGS__)
#define R(t, f, ...) ev("{\"e\":\"r\",\"t\":%d," f "}", t, ##__VA_ARGS__)
typedef struct { char *p; int i; } ent_t;
static uint64_t rs[16];
static unsigned rn(int t, unsigned n)
{ uint64_t z = (rs[t] += 0x9E3779B97F4A7C15ULL); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return (unsigned)((z ^ (z >> 31)) >> 11) % n; }
static long at(char *p) { return p ? (long)(p - buf) & 0x7fffffff : -1L; }
static char *do_alloc(int t, int i, int sync)
{
  C(t, "\"alloc\",\"i\":%d", i);
  char *p = (char*)(sync ? SPHMPMCQAllocStrideDirectSync(Q) : SPHSPMCQAllocStrideDirect(Q));
  R(t, "\"at\":%ld", at(p));
  return p;
}
static void do_complete(int t, ent_t e)
{
  int cat = rn(t, 4096), sub = rn(t, 256);
  ops_dfill(e.p, stride, e.i);
  C(t, "\"complete\",\"i\":%d,\"cat\":%d,\"sub\":%d", e.i, cat, sub);
  R(t, "\"r\":%d", ops_dcomplete(e.p, SPHMPMCQGetEntryTemplate(Q), cat, sub));
}
static ent_t do_get(int t, int sync)
{
  C(t, "\"get\",\"i\":0");
  char *p = (char*)(sync ? SPHMPMCQGetNextCompleteDirectSync(Q) : SPHMPSCQGetNextCompleteDirect(Q));
  ent_t e = { p, p ? ops_dread(p, stride) : 0 };
  R(t, "\"at\":%ld,\"val\":%d,\"cat\":%d,\"sub\":%d,\"ts\":%d", at(p), e.i, p ? ops_dcat(p) : 0, p ? ops_dsub(p) : 0, p ? ops_dts(p) : 0);
  return e;
}
static void do_free(int t, ent_t e)
{
  C(t, "\"free\",\"i\":%d", e.i);
  R(t, "\"r\":%d", SPHMPMCQFreeEntryDirect(Q, (SPHLFEntryDirect_t)e.p));
}
static void obs(void)
{
  ev("{\"e\":\"obs\",\"full\":%d,\"empty\":%d,\"space\":%ld,\"n\":%d,\"stride\":%d}", !!SPHMPMCQIsFull(Q), !!SPHMPMCQIsEmpty(Q),
     (long)(SPHMPMCQFreeSpace(Q) & 0x7fffffff), SPHMPMCQGetEntries(Q), SPHMPMCQGetStride(Q));
}
/* what a thread may wait for without keeping the others from going on */
static int room(void *v) { (void)v; return allocated - freed < cap; }
static int work(void *v) { (void)v; return completed > handed || handed >= total; }
static void await(int t, int (*p)(void*)) { if (real) { for (int k = 0; k < 100 && !p(NULL); k++) usleep(20); } else if (rn(t, 4)) sched_wait(p, NULL); }
static void producer(int t)
{
  ent_t h[3]; int n = 0, fails = 0, max = 1 + rn(t, 3), k = 0;
  for (;;) {
    int more = made < total;
    if (!more && !n) break;
    if (more && n < max && (!n || rn(t, 3) == 0)) {
      int i = INC(made);          /* an identity, and a claim to one of the entries to make */
      if (i > total) { __atomic_sub_fetch(&made, 1, __ATOMIC_SEQ_CST); continue; }
      char *p;
      int id = i + 1000 * (t + 1) + 10000 * ++k;   /* identities are told from one another, whoever makes them */
      while (!(p = do_alloc(t, id, np > 1 || rn(t, 3) == 0))) {
        if (n) { int x = rn(t, n); do_complete(t, h[x]); INC(completed); h[x] = h[--n]; }
        else if (++fails > 2) { if (real) usleep(50); else await(t, room); }
      }
      INC(allocated);
      fails = 0;
      h[n].p = p; h[n++].i = id;
    } else if (n) { int x = rn(t, n); do_complete(t, h[x]); INC(completed); h[x] = h[--n]; }
  }
}
static void consumer(int t)
{
  ent_t h[4]; int n = 0, fails = 0, max = 1 + rn(t, 4);
  for (;;) {
    int more = handed < total;
    if (!more && !n) break;
    if (more && n < max && (!n || rn(t, 2))) {
      ent_t e = do_get(t, nc > 1 || rn(t, 3) == 0);
      if (e.p) { INC(handed); h[n++] = e; fails = 0; }
      else if (n) { int x = rn(t, n); do_free(t, h[x]); INC(freed); h[x] = h[--n]; }
      else if (++fails > 1) await(t, work);
    } else if (n) { int x = rn(t, n); do_free(t, h[x]); INC(freed); h[x] = h[--n]; }
  }
}
static void program(int t, void *a) { (void)a; if (t < np) producer(t); else consumer(t); }
static void *thread_main(void *a) { program((int)(long)a, NULL); return a; }
static void make(long size, int want, int store, int unclean)
{
  if (store) {
    buf = (char*)SASBlockAlloc(size);
    if (!buf) _exit(97);
    if (unclean) memset(buf + 64, 0xff, size - 64);
    Q = SPHMPMCQInitWithStride(buf, size, want, SPHMPMCQ_CIRCULAR);
  } else {
    buf = (char*)aligned_alloc(4096, (size + 4095) / 4096 * 4096 + 4096);
    memset(buf, unclean ? 0xff : 0, size);
    Q = SPHMPMCQInitWithStride(buf, size, want, SPHMPMCQ_CIRCULAR);
  }
  stride = SPHMPMCQGetStride(Q); cap = SPHMPMCQGetEntries(Q);
  ev("{\"e\":\"create\",\"n\":%d,\"stride\":%d,\"want\":%d,\"size\":%ld}", cap, stride, want, size);
}
static void threads(void *v)
{
  uint64_t seed = *(uint64_t*)v; sched_t s;
  quiet();
  if (SASJoinRegion()) _exit(97);
  rnd_seed(seed, 11);
  static const int st[] = { 16, 32, 48, 128 };
  int want = st[rnd(4)], c = 1 + rnd(rnd(3) ? 3 : 6);
  np = 1 + rnd(3); nc = 1 + rnd(3);
  for (int i = 0; i < 16; i++) rs[i] = seed * 77 + i * 1313;
  make(384 + c * want + rnd(want), want, 0, rnd(2));
  if (cap < 1 || cap > 500) return;
  total = real ? 30 + rnd(60) : 3 + rnd(3 * cap + 6); made = allocated = completed = handed = freed = 0;
  if (real) {
    pthread_t t[8];
    for (long i = 0; i < np + nc; i++) pthread_create(&t[i], NULL, thread_main, (void*)i);
    for (int i = 0; i < np + nc; i++) pthread_join(t[i], NULL);
  } else {
    sched_random(&s, seed);
    int rc = sched_run(np + nc, program, NULL, &s);
    if (rc) { ev("{\"e\":\"stuck\",\"why\":%d,\"who\":%d}", rc, sched_blocked_mask); _exit(0); }
  }
  ev("{\"e\":\"end\"}");
  obs();
  SASRemove();
}
typedef struct { uint64_t seed; char *script; int cap, len, store; } hist_t;
static void wrong(void)
{
  char *b = (char*)aligned_alloc(4096, 8192), save[4096];
  memset(b, 0, 8192);
  memset(b, rnd(2) ? 0x5a : 0, 4096);
  memcpy(save, b, 4096);
  ev("{\"e\":\"wrong\",\"stride\":%d,\"n\":%d,\"alloc\":%d,\"get\":%d,\"free\":%d,\"reset\":%d,\"tmpl\":%d,\"space\":%ld,\"prefetch\":%d,\"destroy\":%d,\"intact\":%d}",
     SPHMPMCQGetStride(b), SPHMPMCQGetEntries(b), SPHMPMCQAllocStrideDirectSync(b) || SPHSPMCQAllocStrideDirect(b),
     SPHMPMCQGetNextCompleteDirectSync(b) || SPHMPSCQGetNextCompleteDirect(b), SPHMPMCQFreeEntryDirect(b, b + 256), !!SPHMPMCQResetAsync(b),
     (int)SPHMPMCQGetEntryTemplate(b), (long)SPHMPMCQFreeSpace(b), !!SPHMPMCQPrefetch(b), !!SPHMPMCQDestroy(b), !memcmp(save, b, 4096));
  free(b);
}
static void nostride(void)
{
  char *b = (char*)aligned_alloc(4096, 4096);
  SPHMPMCQ_t m = SPHMPMCQInit(b, 4096);
  ev("{\"e\":\"nostride\",\"stride\":%d,\"n\":%d}", SPHMPMCQGetStride(m), SPHMPMCQGetEntries(m));
  free(b);
}
static void history(void *v)
{
  hist_t *x = (hist_t*)v;
  quiet();
  if (SASJoinRegion()) _exit(97);
  rnd_seed(x->seed, 13);
  for (int i = 0; i < 16; i++) rs[i] = x->seed * 79 + i;
  ent_t q[4000], held[4000]; int nq = 0, nh = 0, done[4000], id = 0;
  sop_t ops[64]; int nops = x->script ? parse_script(x->script, ops, 64) : x->len;
  if (x->script) { int w = 16 * (1 + rnd(8)); make(384 + x->cap * w, w, 0, rnd(2)); }
  else {
    int w = rnd(3) ? 1 + rnd(200) : rnd(2) ? 1 + rnd(4096) : 1 + rnd(60000);
    long sz = x->store ? 4096L << rnd(4) : 384 + (w + 15) / 16 * 16 * (1 + rnd(8)) + rnd(w);
    if (x->store) { if (sz < 384 + w + 16) sz = 131072; while (sz / w > 300) w *= 2; }
    make(sz, w, x->store, rnd(2));
  }
  if (cap < 1 || cap > 4000) return;
  obs();
  int fillp = 30;
  for (int k = 0; k < nops; k++) {
    char o; int a = 0;
    if (x->script) { o = ops[k].op[0]; a = ops[k].a[0]; }
    else {
      if (rnd(10) == 0) fillp = 10 + rnd(80);
      unsigned d = rnd(100);
      o = d < 4 ? "RPWN"[rnd(4)] : (int)rnd(100) < fillp ? "AC"[rnd(2)] : "GF"[rnd(2)];
      if (o == 'R' && rnd(3)) o = 'A';
      a = o == 'C' ? (rnd(2) ? 0 : nq ? rnd(nq) : 0) : nh ? rnd(nh) : 0;
    }
    switch (o) {
    case 'A': { char *p = do_alloc(0, ++id, rnd(2)); if (p) { if (nq + nh >= 4000 || p < buf || p >= buf + (1 << 22)) return; q[nq].p = p; q[nq].i = id; done[nq++] = 0; } break; }
    case 'C': {
      int kk = 0, f = -1;
      if (x->script) f = a; else { for (; kk < nq; kk++) { int j = (a + kk) % nq; if (!done[j]) { f = j; break; } } }
      if (f < 0 || f >= nq || done[f]) break;
      do_complete(0, q[f]); done[f] = 1;
      break; }
    case 'G': { ent_t e = do_get(0, rnd(2)); if (e.p) { if (!nq) return; held[nh++] = e; memmove(q, q + 1, --nq * sizeof q[0]); memmove(done, done + 1, nq * sizeof done[0]); } break; }
    case 'F': if (a < nh) { do_free(0, held[a]); memmove(held + a, held + a + 1, (--nh - a) * sizeof held[0]); } break;
    case 'R': ev("{\"e\":\"resetq\",\"r\":%d}", SPHMPMCQResetAsync(Q)); nq = nh = 0; break;
    case 'P': ev("{\"e\":\"prefetch\",\"r\":%d}", SPHMPMCQPrefetch(Q)); break;
    case 'W': wrong(); break;
    case 'N': nostride(); break;
    }
    if (nq && rnd(3) == 0) { int j = rnd(nq); ev("{\"e\":\"isc\",\"i\":%d,\"r\":%d}", q[j].i, rnd(2) ? SPHMPMCQEntryDirectIsComplete((SPHLFEntryDirect_t)q[j].p) : ops_dcomp(q[j].p)); }
    if (x->script || rnd(3) == 0) obs();
  }
  if (x->store) ev("{\"e\":\"destroy\",\"r\":%d}", SPHMPMCQDestroy(Q));
  SASRemove();
}
int main(int argc, char **argv)
{
  ev_init();
  if (argc < 5) return 3;
  if (!strcmp(argv[1], "script")) {
    FILE *f = fopen(argv[2], "r");
    static char line[65536];
    int part = atoi(argv[3]), parts = atoi(argv[4]);
    if (!f) return 3;
    for (uint64_t k = 0; fgets(line, sizeof(line), f); k++) {
      if ((int)(k % parts) != part) continue;
      hist_t h = { k + 1, line, atoi(argv[5]), 0, 0 };
      ev("{\"e\":\"reset\",\"k\":\"script\"}");
      store_make("mpq"); in_child(history, &h, 30); store_drop();
    }
  } else {
    uint64_t seed = atoll(argv[2]); int count = atoi(argv[3]);
    real = !strcmp(argv[1], "real");
    for (int i = 0; i < count; i++) {
      uint64_t s = seed * 1000003ULL + i;
      hist_t h = { s, NULL, 0, argc > 5 ? atoi(argv[4]) : 0, !strcmp(argv[1], "store") };
      ev("{\"e\":\"reset\",\"k\":\"%s\"}", argv[1]);
      store_make("mpq");
      if (real || !strcmp(argv[1], "sched")) in_child(threads, &s, 60); else in_child(history, &h, 30);
      store_drop();
    }
  }
  ev_write(argv[argc - 1]);
  return 0;
}
