/* Conformance driver for the atomic primitives: one thread, several under controlled schedules or free-running, and bursts. */
#define _GNU_SOURCE
#include <pthread.h>
#include <sched.h>
#include "common.h"
#ifndef REAL
#include "vsched.h"
#endif
#include "atom_ops.h"
static const char *NAME[A_N] = { "add", "addp", "inc", "dec", "incl", "decl", "and", "or", "andl", "orl", "swap", "cas", "spininit", "spin", "spiny", "spintry", "spinfree",
  "ptrinit", "ptr", "ptry", "ptrtry", "ptrset", "ptrsetlk", "ptrfree" };
#define NW 3
static uint64_t *W;          /* the words, one after the other */
static const char *lim(uint64_t v)
{
  static __thread char b[8][32]; static __thread int i; char *s = b[i++ & 7];
  sprintf(s, "[%5d,%5d,%5d,%5d]", (int)(v & 65535), (int)(v >> 16 & 65535), (int)(v >> 32 & 65535), (int)(v >> 48)); return s;
}
static const char *now(void) { static char b[200]; sprintf(b, "[%s,%s,%s]", lim(W[0]), lim(W[1]), lim(W[2])); return b; }
static uint64_t some(void)
{
  static const uint64_t edge[] = { 0, 1, 2, 3, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 0x100000001, 0x7fffffffffffffff, 0x8000000000000000, 0xffffffffffffffff,
    0xfffffffffffffffe, 0xffffffff00000000, 0xffff0000ffff0000 };
  switch (rnd(4)) { case 0: return rnd64(); case 1: return edge[rnd(sizeof edge / sizeof *edge)] + rnd(3) - 1; case 2: return rnd64() >> rnd(64); default: return edge[rnd(sizeof edge / sizeof *edge)]; }
}
static int ready(int o, uint64_t a)
{
  switch (o) { case A_SPIN: case A_SPINY: return !(uint32_t)a; case A_PTR: case A_PTRY: case A_PTRSET: return !(a & 1); case A_PTRSETLK: case A_PTRFREE: return a & 1; default: return 1; }
}
typedef struct { uint64_t seed; int n, len, kind; } hist_t;
static void seqhist(void *v)
{
  hist_t *x = v; rnd_seed(x->seed, 1);
  for (int i = 0; i < NW; i++) W[i] = some();
  ev("{\"e\":\"reset\",\"now\":%s}", now());
  for (int i = 0; i < x->len; i++) {
    int o = rnd(A_N), w = rnd(NW);
    if (rnd(40) == 0) { o = A_SWAP; }
    if (!ready(o, W[w])) { o = o == A_SPIN || o == A_SPINY ? (rnd(2) ? A_SPINFREE : A_SPINTRY) : rnd(2) ? A_PTRTRY : (W[w] & 1) ? A_PTRFREE : A_PTR; }
    uint64_t a = some(), b = some();
    if (o == A_CAS && rnd(2)) a = W[w];
    if (o == A_CAS && rnd(4) == 0) a = W[w] ^ (1ULL << rnd(64));
    uint64_t out = atom_do(o, &W[w], a, b);
    ev("{\"e\":\"do\",\"o\":\"%s\",\"w\":%d,\"x\":%s,\"y\":%s,\"out\":%s,\"now\":%s}", NAME[o], w, lim(a), lim(b), lim(out), now());
  }
}
/* ---- threads ---- */
static uint64_t rs[8];
static unsigned rn(int t, unsigned n)
{ uint64_t z = (rs[t] += 0x9E3779B97F4A7C15ULL); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return (unsigned)((z ^ (z >> 31)) >> 11) % n; }
static int prof, budget[8];
static volatile int gate;
static char *call(const char *s)
{
  size_t n = strlen(s), p = __atomic_fetch_add(&EVB->len, n + 1, __ATOMIC_SEQ_CST);
  if (p + n + 1 > EVB->cap) _exit(3);
  memcpy(EVB->data + p, s, n); EVB->data[p + n] = '\n';
  return EVB->data + p;
}
static uint64_t run(int t, int o, int w, uint64_t x, uint64_t y)
{
  char s[300]; snprintf(s, 300, "{\"e\":\"c\",\"t\":%d,\"o\":\"%s\",\"w\":%d,\"x\":%s,\"y\":%s,\"out\":%s}", t, NAME[o], w, lim(x), lim(y), lim(0));
  char *c = call(s);
  uint64_t r = atom_do(o, &W[w], x, y);
  memcpy(strstr(c, "\"out\":") + 6, lim(r), 25);
  ev("{\"e\":\"r\",\"t\":%d}", t);
  return r;
}
static uint64_t val(int t) { switch (rn(t, 3)) { case 0: return 1; case 1: return 0xffffffffffffffffULL; default: return ((uint64_t)rn(t, 70000) << 32) | rn(t, 3); } }
static void program(int t, void *arg)
{
  (void)arg;
  int k = budget[t];
  uint64_t last[NW] = { W[0], W[1], W[2] };
  for (int i = 0; i < k; i++) {
    int w = rn(t, 4) ? 0 : 1, o, r = rn(t, 10);
    if (prof == 0) { static const int m[] = { A_ADD, A_ADDP, A_INC, A_DEC, A_INCL, A_DECL, A_SWAP, A_CAS, A_CAS, A_ADD }; o = m[r]; }
    else if (prof == 1) { static const int m[] = { A_AND, A_OR, A_ANDL, A_ORL, A_OR, A_ORL, A_INC, A_CAS, A_ADD, A_SWAP }; o = m[r]; }
    else if (prof == 2) {       /* a spin lock, with another counter next to it */
      static const int m[] = { A_SPIN, A_SPINY, A_SPINTRY }; o = m[rn(t, 3)];
      if (!run(t, o, 0, 0, 0) || o != A_SPINTRY) { run(t, r % 2 ? A_INCL : A_INC, 1, 0, 0); run(t, A_SPINFREE, 0, 0, 0); }
      continue;
    } else {
      static const int m[] = { A_PTR, A_PTRY, A_PTRTRY, A_PTRSET }; o = m[rn(t, 4)];
      uint64_t p = 0x1000ULL * (1 + rn(t, 100000)) * 8;
      if (!(run(t, o, 0, o == A_PTRSET ? p : 0, 0) && o == A_PTRTRY)) {
        if (rn(t, 2)) run(t, A_PTRSETLK, 0, p + 8, 0);
        run(t, A_INC, 1, 0, 0); run(t, A_PTRFREE, 0, 0, 0);
      }
      continue;
    }
    uint64_t a = val(t), b = val(t);
    if (o == A_CAS) { a = last[w]; b = a + 1 + rn(t, 3); }
    uint64_t out = run(t, o, w, a, b);
    switch (o) { case A_ADD: case A_ADDP: last[w] = out + a; break; case A_INCL: last[w] = out + 1; break; case A_DECL: last[w] = out - 1; break; case A_SWAP: last[w] = a; break;
      case A_ANDL: last[w] = out & a; break; case A_ORL: last[w] = out | a; break; case A_CAS: if (out) last[w] = b; }
  }
}
#ifdef REAL
static void *thr(void *v) { while (!gate) ; program((int)(long)v, NULL); return NULL; }
#endif
static void conc(void *v)
{
  hist_t *x = v; rnd_seed(x->seed, 2);
  prof = rnd(4);
  for (int i = 0; i < NW; i++) W[i] = prof == 2 ? (i ? some() : some() & 0xffffffff00000000ULL) : prof == 3 && !i ? some() & ~1ULL : some();
  ev("{\"e\":\"reset\",\"now\":%s}", now());
  for (int t = 0; t < x->n; t++) { rs[t] = rnd64(); budget[t] = 1 + rnd(x->len); }
#ifdef REAL
  pthread_t th[8]; gate = 0;
  for (long t = 0; t < x->n; t++) pthread_create(&th[t], NULL, thr, (void*)t);
  usleep(200); gate = 1;
  for (int t = 0; t < x->n; t++) pthread_join(th[t], NULL);
#else
  sched_t h; sched_random(&h, x->seed * 31 + 7); h.limit = 200000;
  int r = sched_run(x->n, program, NULL, &h);
  if (r) { ev("{\"e\":\"stuck\",\"r\":%d}", r); return; }
#endif
  ev("{\"e\":\"end\",\"now\":%s}", now());
}
#ifdef REAL
/* ---- bursts ---- */
#define BK 1500
static int bo, bn, bk, inside, most; static long count; static uint64_t bd, out[8][BK + 1];
static void *bthr(void *v)
{
  int t = (int)(long)v;
  __atomic_add_fetch(&gate, 1, __ATOMIC_SEQ_CST); while (gate < bn) ;
  if (bo == A_SPIN || bo == A_SPINY || bo == A_SPINTRY || bo == A_PTR || bo == A_PTRY || bo == A_PTRTRY || bo == A_PTRSET) atom_section(bo, &W[1], bk, &count, &inside, &most);
  else atom_many(bo, &W[1], bo == A_OR || bo == A_ORL ? bd + 7 * t : bd, bk, out[t], 1 + t * bk);
  return NULL;
}
static uint64_t b0;
static int by(const void *p, const void *q) { uint64_t a = *(uint64_t*)p - b0, b = *(uint64_t*)q - b0; if (bo == A_DECL) a = -a, b = -b; return a < b ? -1 : a > b; }
static int bytag(const void *p, const void *q) { uint64_t a = *(uint64_t*)p & 0xffffffff, b = *(uint64_t*)q & 0xffffffff; return a < b ? -1 : a > b; }
static void burst(void *v)
{
  hist_t *x = v; rnd_seed(x->seed, 3);
  static const int kinds[] = { A_ADD, A_ADDP, A_INC, A_DEC, A_INCL, A_DECL, A_CAS, A_SWAP, A_OR, A_ORL, A_SPIN, A_SPINY, A_SPINTRY, A_PTR, A_PTRY, A_PTRTRY, A_PTRSET };
  ev("{\"e\":\"reset\",\"now\":[]}");
  for (int i = 0; i < (int)(sizeof kinds / sizeof *kinds); i++) {
    bo = kinds[i]; bn = 2 + rnd(3); bk = BK / 2 + rnd(BK / 2); gate = inside = most = 0; count = 0;
    int lock = bo >= A_SPIN, bits = bo == A_OR || bo == A_ORL;
    if (lock) bk = BK / 3;
    bd = bo == A_ADD || bo == A_ADDP ? (rnd(2) ? 1 : 0x100000001ULL * (1 + rnd(9))) : bo == A_DEC || bo == A_DECL ? -1ULL : 1;
    if (bits) { bd = rnd(bo == A_OR ? 8 : 40); bk &= ~1; }
    W[0] = W[2] = 0x5555555555555555ULL;
    W[1] = lock ? (bo >= A_PTR ? 0x123456789aULL : rnd64() << 32) : bo == A_SWAP ? 0 : rnd(2) ? some() : 0xfffffff0ULL + (bo == A_DEC || bo == A_DECL ? 0x100 : 0);
    if (bits) for (int t = 0; t < bn; t++) W[1] &= ~(1ULL << (bd + 7 * t));
    b0 = W[1];
    pthread_t th[8];
    for (long t = 0; t < bn; t++) pthread_create(&th[t], NULL, bthr, (void*)t);
    for (int t = 0; t < bn; t++) pthread_join(th[t], NULL);
    uint64_t fin = W[1]; char nb[64];
    snprintf(nb, 64, "%s", bo == A_OR ? "bits" : bo == A_ORL ? "bitsl" : NAME[bo]);
    if (W[0] != 0x5555555555555555ULL || W[2] != W[0]) ev("{\"e\":\"clobbered\"}");
    if (lock) { ev("{\"e\":\"burst\",\"o\":\"%s\",\"n\":%d,\"k\":%d,\"init\":%s,\"fin\":%s,\"count\":%ld,\"most\":%d}", nb, bn, bk, lim(b0), lim(fin), count, most); continue; }
    static char buf[1 << 18]; int p = 0; static uint64_t all[8 * BK + 1]; int m = 0;
    if (bits) for (int t = 0; t < bn; t++) { p += sprintf(buf + p, "%s[", t ? "," : ""); for (int j = 0; j < bk; j++) p += sprintf(buf + p, "%s%d", j ? "," : "", (int)out[t][j]); p += sprintf(buf + p, "]"); }
    else if (bo != A_INC && bo != A_DEC) {
      for (int t = 0; t < bn; t++) for (int j = 0; j < bk; j++) all[m++] = out[t][j];
      if (bo == A_SWAP) all[m++] = fin;
      qsort(all, m, 8, bo == A_SWAP ? bytag : by);
      for (int j = 0; j < m; j++) p += sprintf(buf + p, "%s[%d,%d,%d,%d]", j ? "," : "", (int)(all[j] & 65535), (int)(all[j] >> 16 & 65535), (int)(all[j] >> 32 & 65535), (int)(all[j] >> 48));
    }
    buf[p] = 0;
    ev("{\"e\":\"burst\",\"o\":\"%s\",\"n\":%d,\"k\":%d,\"init\":%s,\"fin\":%s,\"d\":%s,\"%s\":[%s]}", nb, bn, bk, lim(b0), lim(fin), lim(bd), bits ? "seen" : "rets", buf);
  }
}
#endif
int main(int argc, char **argv)
{
  if (argc < 6) return 2;
  const char *mode = argv[1]; uint64_t seed = strtoull(argv[2], 0, 10); int cnt = atoi(argv[3]), len = atoi(argv[4]);
  ev_init();
  W = (uint64_t*)mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0) + 64;
  for (int i = 0; i < cnt; i++) {
    hist_t h = { seed * 100003 + i, 2 + (int)((seed + i) % 3), len, 0 };
    if (!strcmp(mode, "seq")) in_child(seqhist, &h, 20);
#ifdef REAL
    else if (!strcmp(mode, "burst")) in_child(burst, &h, 60);
#endif
    else in_child(conc, &h, 30);
  }
  ev_write(argv[argc - 1]);
  return 0;
}
