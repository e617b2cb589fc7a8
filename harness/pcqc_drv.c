/* Conformance driver for the single-producer single-consumer queue: producer and consumer under the schedule controller. */
#define _GNU_SOURCE
#include "common.h"
#include "vsched.h"
#include "sphsinglepcqueue.h"
#include "sphdirectpcqueue.h"
int ops_complete(int how, SPHLFEntryHandle_t *h, sphLFEntryID_t tmpl);
void ops_fill(char *p, int n, int v);
int ops_read(char *p, int n);
int ops_timestamped(SPHLFEntryHandle_t *h);
static SPHSinglePCQueue_t Q;
static char *buf; static int stride, total; static uint64_t seed0;
static volatile int produced, consumed;
#define C(t, f, ...) ev("{\"e\":\"c\",\"t\":%d,\"o\":" f "}", t, ##__VA_ARGS__)
#define R(t, f, ...) ev("{\"e\":\"r\",\"t\":%d," f "}", t, ##__VA_ARGS__)
static uint64_t rs[2];
static unsigned rn(int t, unsigned n)
{ uint64_t z = (rs[t] += 0x9E3779B97F4A7C15ULL); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return (unsigned)((z ^ (z >> 31)) >> 11) % n; }
static void observe(int t)
{
  switch (rn(t, t == 1 ? 3 : 2)) {
  case 0: C(t, "\"space\""); R(t, "\"r\":%ld", (long)(SPHSinglePCQueueFreeSpace(Q) & 0x7fffffff)); break;
  case 1: C(t, "\"full\""); R(t, "\"r\":%d", !!SPHSinglePCQueueFull(Q)); break;
  default: C(t, "\"empty\""); R(t, "\"r\":%d", !!SPHSinglePCQueueEmpty(Q)); break;
  }
}
static void producer(void)
{
  SPHLFEntryHandle_t h[3]; int id[3], n = 0;
  int next = 1, tries = 0;
  while (produced < total || n) {
    if (rn(0, 6) == 0) observe(0);
    if (produced < total && n < 3 && (n == 0 || rn(0, 3) == 0)) {
      int how = tries > 6 && n == 0 ? 3 + rn(0, 2) : rn(0, 5);      /* the spinning ones wait for the consumer, who needs what we hold */
      if (how >= 3 && n) how = rn(0, 3);
      memset(&h[n], 0, sizeof h[n]);
      C(0, "\"alloc\",\"i\":%d,\"ts\":%d,\"spin\":%d", next, how == 1, how >= 3);
      char *p = NULL;
      if (how < 2) {
        SPHLFEntryHandle_t *r = how ? SPHSinglePCQueueAllocStrideTimeStamped(Q, 1, 2, &h[n]) : SPHSinglePCQueueAllocStrideEntry(Q, 1, 2, &h[n]);
        if (r) p = (char*)h[n].entry;
      } else {
        p = (char*)(how == 2 ? SPHSinglePCQueueAllocStrideDirect(Q) : how == 3 ? SPHSinglePCQueueAllocStrideDirectSpin(Q) : SPHSinglePCQueueAllocStrideDirectSpinPause(Q));
        if (p) { h[n].entry = (SPHLFEntryHeader_t*)p; h[n].next = p + 4; h[n].total_size = stride; h[n].remaining = stride - 4; }
      }
      R(0, "\"i\":%d,\"at\":%ld", next, p ? (long)(p - buf) : -1L);
      if (!p) { if (++tries < 6 || n) goto fin; continue; }
      tries = 0;
      id[n++] = next++; produced++;
    }
  fin:
    if (n && (n == 3 || produced == total || rn(0, 2) || tries)) {
      int k = rn(0, n);
      ops_fill(h[k].next, h[k].remaining, id[k]);
      int how = rn(0, 4), ts = h[k].next - (char*)h[k].entry > 4;
      if (ts && how == 3) how = 0;
      C(0, "\"complete\",\"i\":%d", id[k]);
      int rc = ops_complete(how, &h[k], SPHSinglePCQueueGetEntryTemplate(Q));
      R(0, "\"r\":%d", rc);
      n--;
      h[k] = h[n]; id[k] = id[n];
    }
  }
}
static void consumer(void)
{
  int tries = 0;
  while (consumed < total) {
    if (rn(1, 6) == 0) observe(1);
    if (rn(1, 8) == 0) { C(1, "\"getany\""); char *p = (char*)SPHSinglePCQueueGetNextEntryDirect(Q); R(1, "\"at\":%ld", p ? (long)(p - buf) : -1L); }
    int how = tries > 5 ? 2 + rn(1, 2) : rn(1, 4);
    SPHLFEntryHandle_t s; char *p = NULL;
    memset(&s, 0, sizeof s);
    C(1, "\"get\",\"spin\":%d", how >= 2);
    if (how == 0) { if (SPHSinglePCQueueGetNextComplete(Q, &s)) p = (char*)s.entry; }
    else {
      p = (char*)(how == 1 ? SPHSinglePCQueueGetNextCompleteDirect(Q) : how == 2 ? SPHSinglePCQueueGetNextCompleteDirectSpin(Q) : SPHSinglePCQueueGetNextCompleteDirectSpinPause(Q));
      if (p) { s.entry = (SPHLFEntryHeader_t*)p; s.next = p + (ops_timestamped(&s) ? sizeof(SPHLFEntryHeader_t) : 4); s.remaining = stride - (s.next - p); s.total_size = stride; }
    }
    int val = p ? ops_read(s.next, s.remaining) : 0;
    R(1, "\"at\":%ld,\"val\":%d,\"ts\":%d", p ? (long)(p - buf) : -1L, val, p ? ops_timestamped(&s) : 0);
    if (!p) { tries++; continue; }
    tries = 0;
    C(1, "\"free\"");
    int rc = rn(1, 2) ? SPHSinglePCQueueFreeNextEntry(Q) : SPHSinglePCQueueFreeNextEntryDirect(Q, (SPHLFEntryDirect_t)p);
    R(1, "\"r\":%d", rc);
    if (rc) consumed++;
  }
}
static int real;
static void *run0(void *a) { producer(); return a; }
static void *run1(void *a) { consumer(); return a; }
static void program(int t, void *a) { if (t == 0) producer(); else consumer(); }
static void history(void *v)
{
  uint64_t seed = *(uint64_t*)v; sched_t s;
  quiet();
  rnd_seed(seed, 7);
  int cap = 1 + rnd(rnd(3) ? 3 : 6);
  static const int st[] = { 32, 48, 64, 128 };
  stride = st[rnd(4)];
  long size = 256 + (cap + 1) * stride + rnd(stride);
  buf = (char*)aligned_alloc(4096, 8192);
  memset(buf, rnd(2) ? 0 : 0xff, 8192);
  Q = SPHSinglePCQueueInitWithStride(buf, size, stride, SPHSPCQUEUE_CIRCULAR);
  total = real ? 40 + rnd(60) : 4 + rnd(3 * cap + 6); produced = consumed = 0;
  rs[0] = seed * 77 + 1; rs[1] = seed * 91 + 5;
  ev("{\"e\":\"create\",\"cap\":%d,\"stride\":%d,\"size\":%ld}", cap, stride, size);
  if (real) {
    pthread_t a, b;
    pthread_create(&a, NULL, run0, NULL); pthread_create(&b, NULL, run1, NULL);
    pthread_join(a, NULL); pthread_join(b, NULL);
    ev("{\"e\":\"end\"}");
    return;
  }
  sched_random(&s, seed);
  int rc = sched_run(2, program, NULL, &s);
  if (rc) { ev("{\"e\":\"stuck\",\"why\":%d,\"who\":%d}", rc, sched_blocked_mask); _exit(0); }
  ev("{\"e\":\"end\"}");
}
int main(int argc, char **argv)
{
  ev_init();
  if (argc < 4) return 3;
  uint64_t seed = atoll(argv[1]); int count = atoi(argv[2]);
  real = argc > 4 && !strcmp(argv[3], "real");
  for (int i = 0; i < count; i++) {
    uint64_t s = seed * 1000003ULL + i;
    ev("{\"e\":\"reset\"}");
    in_child(history, &s, 30);
  }
  ev_write(argv[argc - 1]);
  return 0;
}
