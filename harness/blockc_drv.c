/* Conformance driver for the block allocator used by several threads, of one process or more, at once. */
#define _GNU_SOURCE
#include "common.h"
#ifndef REAL
#include "vsched.h"
#endif
#include "sasalloc.h"
#include "sassim.h"
#define PG 4096UL
#define LMAX 6000
#define POOL 12
typedef struct { int a, s; unsigned id; } blk_t;
static struct shared {
  unsigned id; int joined, turn, ready, go, done, left; uint64_t pool[POOL]; int n[5]; int v[5][LMAX][2];
} *sh;
static unsigned long low;
static uint64_t rs[16];
static unsigned rn(int t, unsigned n)
{ uint64_t z = (rs[t] += 0x9E3779B97F4A7C15ULL); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return (unsigned)((z ^ (z >> 31)) >> 11) % n; }
static char *call(const char *s)
{
  size_t n = strlen(s), p = __atomic_fetch_add(&EVB->len, n + 1, __ATOMIC_SEQ_CST);
  if (p + n + 1 > EVB->cap) _exit(3);
  memcpy(EVB->data + p, s, n); EVB->data[p + n] = '\n';
  return EVB->data + p;
}
static void outcome(char *c, long v)
{ char t[16]; snprintf(t, 16, "%10ld", v); memcpy(strstr(c, "\"out\":") + 6, t, 10); }
/* first and last bytes, and some in between */
static void marks(blk_t b, int wr, int *ok)
{
  unsigned long n = b.s * PG, off[5] = { 0, n - 64 }; char *base = (char*)(low + b.a * PG);
  uint64_t z = b.id * 0x9E3779B97F4A7C15ULL;
  for (int i = 2; i < 5; i++) { z ^= z >> 29; z *= 0xBF58476D1CE4E5B9ULL; z ^= z >> 32; off[i] = (z % (n / 64)) * 64; }
  for (int i = 0; i < 5; i++) { unsigned seed = b.id * 7919u + (unsigned)(off[i] / 64); if (wr) fill(base + off[i], 64, seed); else if (!intact(base + off[i], 64, seed)) *ok = 0; }
}
static int budget[16], prof, hold;
static int size_for(int t)
{
  switch (prof) {
  case 0: return rn(t, 4);
  case 1: return rn(t, 3) ? 16 : 13 + rn(t, 4);          /* segments */
  case 2: return rn(t, 17);
  default: return rn(t, 8) ? 12 + rn(t, 3) : rn(t, 17);
  }
}
static uint64_t pack(blk_t b) { int lg = __builtin_ctz(b.s); return ((uint64_t)b.id << 40) | ((uint64_t)lg << 32) | (uint32_t)b.a | (1ULL << 63); }
static blk_t unpack(uint64_t x) { blk_t b = { (int)(uint32_t)x, 1 << ((x >> 32) & 0xff), (unsigned)((x >> 40) & 0x7fffff) }; return b; }
static void program(int t, void *arg)
{
  (void)arg;
  blk_t own[16]; int n = 0, left = budget[t]; char s[200];
  while (left > 0 || n) {
    if (left > 0 && (n == 0 || (n < hold && rn(t, 2)))) {
      blk_t b = { 0, 1 << (rn(t, 40) ? size_for(t) : 17), __atomic_add_fetch(&sh->id, 1, __ATOMIC_SEQ_CST) };
      left--;
      snprintf(s, 200, "{\"e\":\"c\",\"t\":%d,\"o\":\"alloc\",\"s\":%d,\"out\":%10d}", t, b.s, -2);
      char *c = call(s), *p = (char*)SASBlockAlloc(b.s * PG);
      unsigned long d = p ? (unsigned long)p - low : 0;
      if (p && ((unsigned long)p < low || d % PG || d / PG >= 1UL << 31)) { ev("{\"e\":\"badalloc\"}"); _exit(0); }
      outcome(c, p ? (long)(d / PG) : -1);
      ev("{\"e\":\"r\",\"t\":%d,\"ok\":1}", t);
      if (p) { b.a = d / PG; marks(b, 1, NULL); own[n++] = b; }
    }
    if (n && rn(t, 2)) {         /* handed on to another thread */
      int k = rn(t, n), j = rn(t, POOL);
      uint64_t o = __atomic_exchange_n(&sh->pool[j], pack(own[k]), __ATOMIC_SEQ_CST);
      if (o) { own[k] = unpack(o); int ok = 1; marks(own[k], 0, &ok); if (!ok) ev("{\"e\":\"damaged\",\"a\":%d}", own[k].a); } else own[k] = own[--n];
    }
    if (n && (n == hold || left == 0 || rn(t, 2))) {
      int k = rn(t, n), ok = 1; blk_t b = own[k];
      marks(b, 0, &ok);
      ev("{\"e\":\"c\",\"t\":%d,\"o\":\"free\",\"a\":%d,\"s\":%d}", t, b.a, b.s);
      SASBlockDealloc((void*)(low + b.a * PG), b.s * PG);
      ev("{\"e\":\"r\",\"t\":%d,\"ok\":%d}", t, ok);
      own[k] = own[--n];
    }
  }
}
static void *la[LMAX * 4]; static unsigned long lz[LMAX * 4];
static void lists(void)
{
  static char b[1 << 18]; int k = sprintf(b, "{\"e\":\"lists\"");
  void (*f[5])(void**, unsigned long*, int*) = { SASListFreeMem, SASListUncommittedMem, SASListInUseMem, SASListFreeRegion, SASListAllocatedRegion };
  for (int w = 0; w < 5; w++) {
    int c = 0; unsigned long unit = w < 3 ? PG : 65536 * PG;
    f[w](la, lz, &c);
    k += sprintf(b + k, ",\"%c\":[", "FUXRS"[w]);
    for (int i = 0; i < c && k < (1 << 18) - 100; i++) k += sprintf(b + k, "%s[%ld,%ld]", i ? "," : "", (long)(((unsigned long)la[i] - low) / unit), (long)(lz[i] / unit));
    k += sprintf(b + k, "]");
  }
  ev("%s}", b);
}
typedef struct { int kind; uint64_t seed; int len; } hist_t;
static void join(int p)
{
  quiet();
  int r = SASJoinRegion(); low = getMemLow();
  ev("{\"e\":\"join\",\"p\":%d,\"ok\":%d}", p, r == 0 && getMemHigh() - low == 131072UL * 65536 * PG);
  if (r) _exit(0);
}
static void drain(int t)
{ /* what nobody took */
  for (int j = 0; j < POOL; j++) if (sh->pool[j]) {
    blk_t b = unpack(sh->pool[j]); int ok = 1; marks(b, 0, &ok);
    sh->pool[j] = 0;
    if (t % 2) { ev("{\"e\":\"c\",\"t\":%d,\"o\":\"free\",\"a\":%d,\"s\":%d}", t, b.a, b.s); SASBlockDealloc((void*)(low + b.a * PG), b.s * PG); ev("{\"e\":\"r\",\"t\":%d,\"ok\":%d}", t, ok); }
    else ev("{\"e\":\"chk\",\"ok\":%d}", ok);
  }
}
static void *real_main(void *a) { program((int)(long)a, NULL); return a; }
static void wait_for(volatile int *x, int v) { while (__atomic_load_n(x, __ATOMIC_SEQ_CST) < v) usleep(50); }
static void history(void *v)
{
  hist_t *x = (hist_t*)v;
  rnd_seed(x->seed, 227);
  memset(sh, 0, sizeof *sh);
  prof = rnd(4); hold = 2 + rnd(5);
  sasClearOnDealloc = prof == 0 && x->seed % 3 != 0;      /* small blocks are then cleared as they are freed */
  for (int t = 0; t < 16; t++) rs[t] = x->seed * 77 + t * 1001;
  int procs = x->kind == 2 ? 2 + rnd(2) : 1, per = x->kind == 2 ? 1 + rnd(2) : 2 + rnd(3), nth = procs * per;
  if (x->kind == 0 && per > 3) nth = per = 3;
  for (int t = 0; t < nth; t++) budget[t] = 1 + rnd(x->len);
  if (x->kind < 2) {
    join(0);
    if (x->kind == 0) {
#ifndef REAL
      sched_t s;
      sched_random(&s, x->seed);
      s.limit = 4000000;
      int rc = sched_run(nth, program, NULL, &s);
      if (rc) { ev("{\"e\":\"stuck\",\"why\":%d,\"who\":%d}", rc, sched_blocked_mask); _exit(0); }
#endif
    } else {
      pthread_t p[16];
      for (int t = 0; t < nth; t++) pthread_create(&p[t], NULL, real_main, (void*)(long)t);
      for (int t = 0; t < nth; t++) pthread_join(p[t], NULL);
    }
    lists();
    drain(rnd(2));
    lists();
    SASRemove();
    ev("{\"e\":\"remove\",\"p\":0,\"files\":%d}", store_files());
    return;
  }
  /* processes */
  pid_t pid[4];
  int dr = rnd(2);
  for (int q = 0; q < procs; q++) {
    fflush(NULL);
    if ((pid[q] = fork()) < 0) _exit(97);
    if (pid[q] == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      wait_for(&sh->turn, q);
      join(q);
      __atomic_add_fetch(&sh->turn, 1, __ATOMIC_SEQ_CST);
      wait_for(&sh->turn, procs);
      pthread_t p[16];
      for (int t = 0; t < per; t++) pthread_create(&p[t], NULL, real_main, (void*)(long)(q * per + t));
      for (int t = 0; t < per; t++) pthread_join(p[t], NULL);
      __atomic_add_fetch(&sh->done, 1, __ATOMIC_SEQ_CST);
      if (q) { wait_for(&sh->done, procs); wait_for(&sh->left, q - 1); SASCleanUp(); ev("{\"e\":\"leave\",\"p\":%d}", q); __atomic_add_fetch(&sh->left, 1, __ATOMIC_SEQ_CST); _exit(0); }
      wait_for(&sh->done, procs); wait_for(&sh->left, procs - 1);
      lists(); drain(dr); lists();
      SASRemove();
      ev("{\"e\":\"remove\",\"p\":0,\"files\":%d}", store_files());
      _exit(0);
    }
  }
  int bad = 0, left = procs;
  while (left) {
    int st; pid_t p = wait(&st);
    if (p < 0) break;
    left--;
    if (WIFSIGNALED(st) || WEXITSTATUS(st)) {
      bad = 1; ev("{\"e\":\"died\",\"st\":%d}", st);
      for (int q = 0; q < procs; q++) kill(pid[q], SIGKILL);
    }
  }
  (void)bad;
}
int main(int argc, char **argv)
{
  ev_init();
  sh = (struct shared*)mmap(NULL, sizeof(*sh), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
  if (argc < 5) return 3;
  uint64_t seed = atoll(argv[2]); int count = atoi(argv[3]), len = atoi(argv[4]);
  int kind = !strcmp(argv[1], "sched") ? 0 : !strcmp(argv[1], "real") ? 1 : 2;
  for (int i = 0; i < count; i++) {
    ev("{\"e\":\"reset\",\"k\":\"%s\"}", argv[1]);
    hist_t h = { kind, seed * 1000003ULL + i, len };
    store_make("blkc"); in_child(history, &h, 60); store_drop();
  }
  ev_write(argv[argc - 1]);
  return 0;
}
