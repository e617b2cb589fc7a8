/* Conformance driver for the single-producer single-consumer queue, one thread. */
#include "common.h"
#include "sasalloc.h"
#include "sassim.h"
#include "sphlfentry.h"
#include "sphsinglepcqueue.h"
#include "sphdirectpcqueue.h"
#include "sphthread.h"
#define MAXE 70000
typedef struct { int id, at, next, rem, done, ts; SPHLFEntryHandle_t h; } ent_t;
static SPHSinglePCQueue_t Q;
static char *buf; static long size; static int stride;
static ent_t e[MAXE]; static int n;       /* in the queue, oldest first */
static ent_t gone; static int hasgone;
static int nid;
static char *lo, *hi;
static int all_ok(void)
{
  for (int k = 0; k < n; k++) if (!intact(buf + e[k].at + e[k].next, e[k].rem, e[k].id)) return 0;
  return !lo || (intact(lo, 256, 777) && intact(hi, 256, 888));
}
static int ok_some(void) { return n < 40 || rnd(16) == 0 ? all_ok() : 1; }
static void op_state(void)
{
  ev("{\"e\":\"state\",\"empty\":%d,\"full\":%d,\"space\":%ld,\"stride\":%d,\"ok\":%d}", !!SPHSinglePCQueueEmpty(Q), !!SPHSinglePCQueueFull(Q),
     (long)(SPHSinglePCQueueFreeSpace(Q) & 0x7fffffff), SPHSinglePCQueueGetStride(Q), ok_some());
}
static int room(void) { return SPHSinglePCQueueFreeSpace(Q) > 0; }
static void op_alloc(int how)
{
  ent_t *x = &e[n];
  int cat = rnd(4096), sub = rnd(256), at = -1, next = 0, rem = 0, tot = stride;
  memset(&x->h, 0, sizeof(x->h));
  x->ts = 0;
  if (how >= 3 && !room()) how = 2;
  if (how < 2) {
    SPHLFEntryHandle_t *h = how ? SPHSinglePCQueueAllocStrideTimeStamped(Q, cat, sub, &x->h) : SPHSinglePCQueueAllocStrideEntry(Q, cat, sub, &x->h);
    if (h) { at = (char*)h->entry - buf; next = h->next - (char*)h->entry; rem = h->remaining; tot = h->total_size; x->ts = how; }
  } else {
    cat = sub = 0;
    char *p = (char*)(how == 2 ? SPHSinglePCQueueAllocStrideDirect(Q) : how == 3 ? SPHSinglePCQueueAllocStrideDirectSpin(Q) : SPHSinglePCQueueAllocStrideDirectSpinPause(Q));
    if (p) { at = p - buf; next = (char*)SPHLFEntryDirectGetFreePtr(p) - p; rem = stride - next; x->h.entry = (SPHLFEntryHeader_t*)p; x->h.next = p + next; x->h.total_size = stride; x->h.remaining = rem; }
  }
  if (at == -1) { ev("{\"e\":\"allocfail\",\"how\":%d,\"ok\":%d}", how, ok_some()); return; }
  int in = at >= 0 && next >= 0 && rem >= 0 && at + next + rem <= size && n < MAXE - 1;
  x->id = ++nid; x->at = at; x->next = next; x->rem = in ? rem : 0; x->done = 0;
  if (in) { fill(buf + at + next, rem, x->id); n++; }
  ev("{\"e\":\"alloc\",\"how\":%d,\"i\":%d,\"at\":%d,\"next\":%d,\"rem\":%d,\"tot\":%d,\"ts\":%d,\"cat\":%d,\"sub\":%d,\"ok\":%d}", how, x->id, at, next, rem, tot, x->ts, cat, sub,
     in && ok_some());
}
static void op_complete(int k, int how)
{
  ent_t *x = &e[k];
  if (x->ts && how == 1) how = 0;
  if (how == 1) {
    int cat = rnd(4096), sub = rnd(256);
    int rc = SPHLFEntryDirectComplete((SPHLFEntryDirect_t)x->h.entry, SPHSinglePCQueueGetEntryTemplate(Q), cat, sub);
    x->done = 1;
    ev("{\"e\":\"completeas\",\"i\":%d,\"rc\":%d,\"cat\":%d,\"sub\":%d,\"ok\":%d}", x->id, rc, cat, sub, ok_some());
    return;
  }
  /* the header's own completion functions return 0, the queue's returns 1: both mean done */
  int rc = how == 0 ? SPHSinglePCQueueEntryComplete(&x->h) : how == 2 ? SPHLFEntryComplete(&x->h) + 1 : how == 3 ? SPHLFEntryStrongComplete(&x->h) + 1 : SPHLFEntryWeakComplete(&x->h) + 1;
  x->done = 1;
  ev("{\"e\":\"complete\",\"how\":%d,\"i\":%d,\"rc\":%d,\"ok\":%d}", how, x->id, rc, ok_some());
}
static void op_get(int how)
{
  SPHLFEntryHandle_t s, *h = NULL;
  char *p = NULL;
  memset(&s, 0, sizeof s);
  if (how == 1) {
    p = (char*)SPHSinglePCQueueGetNextEntryDirect(Q);
    if (p) ev("{\"e\":\"getany\",\"at\":%ld,\"ok\":%d}", (long)(p - buf), ok_some()); else ev("{\"e\":\"anynone\",\"ok\":%d}", ok_some());
    return;
  }
  if (how >= 3 && SPHSinglePCQueueEmpty(Q)) how = 2;
  if (how == 0) {
    h = SPHSinglePCQueueGetNextComplete(Q, &s);
  } else {
    p = (char*)(how == 2 ? SPHSinglePCQueueGetNextCompleteDirect(Q) : how == 3 ? SPHSinglePCQueueGetNextCompleteDirectSpin(Q) : SPHSinglePCQueueGetNextCompleteDirectSpinPause(Q));
    if (p) { s.entry = (SPHLFEntryHeader_t*)p; int ts = SPHLFEntryDirectIsTimestamped(p); s.next = p + (ts ? sizeof(SPHLFEntryHeader_t) : 4); s.total_size = stride; s.remaining = stride - (s.next - p); h = &s; }
  }
  if (!h) { ev("{\"e\":\"getnone\",\"how\":%d,\"ok\":%d}", how, ok_some()); return; }
  long at = (char*)s.entry - buf, next = s.next - (char*)s.entry;
  int in = at >= 0 && next >= 0 && at + next + s.remaining <= size;
  int ts = SPHLFEntryIsTimestamped(&s), val = in && n && next == e[0].next && intact(s.next, s.remaining, e[0].id);
  if (ts && (SPHLFEntryPID(&s) != (sphpid16_t)getpid() || SPHLFEntryTID(&s) != (sphpid16_t)sphdeGetTID() || SPHLFEntryTimeStamp(&s) == 0)) val = 0;
  if (SPHLFEntryCategory(&s) != SPHLFEntryDirectCategory(s.entry) || SPHLFEntrySubcat(&s) != SPHLFEntryDirectSubcat(s.entry) || SPHLFEntryGetFreePtr(&s) != (void*)s.next) val = 0;
  ev("{\"e\":\"get\",\"how\":%d,\"at\":%ld,\"next\":%ld,\"rem\":%d,\"tot\":%d,\"ts\":%d,\"cat\":%d,\"sub\":%d,\"val\":%d,\"ok\":%d}", how, at, next, s.remaining, s.total_size, ts,
     SPHLFEntryCategory(&s), SPHLFEntrySubcat(&s), val, ok_some());
}
static void op_free(int how)
{
  int rc;
  if (how && n && e[0].done) rc = SPHSinglePCQueueFreeNextEntryDirect(Q, (SPHLFEntryDirect_t)(buf + e[0].at));
  else rc = SPHSinglePCQueueFreeNextEntry(Q);
  if (!rc) { ev("{\"e\":\"freenone\",\"rc\":%d,\"ok\":%d}", rc, ok_some()); return; }
  if (n) { gone = e[0]; hasgone = 1; memmove(e, e + 1, --n * sizeof(ent_t)); }
  ev("{\"e\":\"free\",\"rc\":%d,\"ok\":%d}", rc, ok_some());
}
static void op_stale(void)      /* completing an entry that is no longer in the queue: only when nothing new lies there */
{
  if (!hasgone) return;
  for (int k = 0; k < n; k++) if (e[k].at == gone.at) return;
  int rc = SPHSinglePCQueueEntryComplete(&gone.h);
  ev("{\"e\":\"stale\",\"rc\":%d,\"ok\":%d}", rc, ok_some());
}
static void op_iscomp(void)
{
  if (!n) return;
  ent_t *x = &e[rnd(n)];
  int a = SPHSinglePCQueueEntryIsComplete(&x->h), b = SPHLFEntryIsComplete(&x->h), c = SPHLFEntryDirectIsComplete(x->h.entry), d = SPHSinglePCQueueEntryIsCompleteDirect(x->h.entry);
  ev("{\"e\":\"iscomp\",\"i\":%d,\"r\":%d,\"ok\":%d}", x->id, a == b && b == c && c == d ? a : 9, ok_some());
}
static void op_reset(void)
{
  int rc = SPHSinglePCQueueResetAsync(Q);
  n = 0; hasgone = 0;
  ev("{\"e\":\"clear\",\"rc\":%d,\"ok\":%d}", rc, all_ok());
}
static void op_prefetch(void)
{
  int rc = rnd(2) ? SPHSinglePCQueueSetCachePrefetch(Q, rnd(5)) : SPHSinglePCQueuePrefetch(Q);
  ev("{\"e\":\"prefetch\",\"rc\":%d,\"ok\":%d}", rc, ok_some());
}
static void mk(int store, int asked, long sz, int dirty)
{
  if (store) {
    Q = SPHSinglePCQueueCreateWithStride(sz, asked);
    if (!Q) { ev("{\"e\":\"nocreate\"}"); _exit(0); }
    buf = (char*)Q;
  } else {
    char *m = (char*)aligned_alloc(4096, (sz + 3 * 4096) & ~4095L);
    lo = m + 4096 - 256; buf = m + 4096; hi = buf + sz;
    fill(lo, 256, 777); fill(hi, 256, 888);
    memset(buf, dirty == 1 ? 0xff : dirty == 2 ? 0xa5 : dirty == 3 ? 5 : 0, sz);
    Q = SPHSinglePCQueueInitWithStride(buf, sz, asked, rnd(2) ? SPHSPCQUEUE_CIRCULAR : 0);
  }
  size = sz; n = 0; hasgone = 0;
  stride = SPHSinglePCQueueGetStride(Q);
  ev("{\"e\":\"create\",\"asked\":%d,\"stride\":%d,\"size\":%ld,\"space\":%ld,\"ok\":%d}", asked, stride, sz, (long)(SPHSinglePCQueueFreeSpace(Q) & 0x7fffffff), (char*)Q == buf && all_ok());
  op_state();
}
typedef struct { int kind; uint64_t seed; char *script; int len, cap; } hist_t;
static const int strides[] = { 1, 16, 17, 24, 32, 40, 48, 64, 72, 100, 112, 128, 129, 240, 256, 1000, 4080, 4081, 4096, 4112, 8192, 20000, 65504, 65520 };
static void history(void *v)
{
  hist_t *x = (hist_t*)v;
  quiet();
  rnd_seed(x->seed, 91);
  if (x->kind == 0) {
    sop_t ops[64];
    int st = strides[rnd(24)]; if (st > 5000) st = 48;
    int r16 = (st + 15) / 16 * 16;
    mk(0, st, 256 + (x->cap + 1) * (long)r16 + rnd(r16), rnd(4));
    int k = parse_script(x->script, ops, 64);
    for (int i = 0; i < k; i++) {
      switch (ops[i].op[0]) {
      case 'A': op_alloc(rnd(5)); break;
      case 'C': if (ops[i].a[0] < n) op_complete(ops[i].a[0], rnd(5)); break;
      case 'G': op_get(0); op_get(2); if (rnd(2)) op_get(1); break;
      case 'F': op_free(rnd(2)); break;
      case 'R': op_reset(); break;
      }
      op_state();
    }
    return;
  }
  int store = x->kind == 2;
  if (store) { if (SASJoinRegion()) { ev("{\"e\":\"nojoin\"}"); return; } }
  for (int round = 0; round < (store ? 3 : 1); round++) {
    int st = strides[rnd(24)], r16 = (st + 15) / 16 * 16;
    if (store) { long sz = 4096L << rnd(5); while (sz < 3L * r16 + 512) sz *= 2; if (round == 2) { st = 16 * (1 + rnd(20)); sz = size; } mk(1, st, sz, 0); }
    else mk(0, st, 256 + (2 + rnd(rnd(4) ? 6 : 60)) * (long)r16 + rnd(r16), rnd(4));
    int bias = 3;
    for (int i = 0; i < x->len; i++) {
      if (rnd(40) == 0) bias = 1 + rnd(5);
      switch (rnd(14)) {
      case 0: case 1: case 2: if ((int)rnd(6) < bias) op_alloc(rnd(5)); break;
      case 3: case 4: case 5: case 6: if (n) { int k = rnd(3) ? rnd(n) : 0; for (int t = 0; t < n && e[k].done; t++) k = (k + 1) % n; if (!e[k].done) op_complete(k, rnd(5)); } break;
      case 7: op_get(rnd(5)); break;
      case 8: case 9: case 10: if ((int)rnd(6) >= bias - 1) op_free(rnd(2)); break;
      case 11: op_state(); break;
      case 12: op_iscomp(); break;
      default: switch (rnd(8)) { case 0: if (rnd(4) == 0) op_reset(); break; case 1: case 2: op_stale(); break; case 3: op_prefetch(); break; default: op_state(); } break;
      }
    }
    op_state();
    if (store) { int rc = SPHSinglePCQueueDestroy(Q); n = 0; ev("{\"e\":\"prefetch\",\"rc\":%d,\"ok\":%d}", rc, all_ok()); }
  }
  if (store) SASRemove();
}
int main(int argc, char **argv)
{
  ev_init();
  if (argc < 4) return 3;
  if (!strcmp(argv[1], "script")) {
    FILE *f = fopen(argv[2], "r");
    static char line[65536];
    int part = atoi(argv[3]), parts = atoi(argv[4]), cap = atoi(argv[5]);
    if (!f) return 3;
    for (uint64_t k = 0; fgets(line, sizeof(line), f); k++) {
      if ((int)(k % parts) != part) continue;
      ev("{\"e\":\"reset\",\"k\":\"script\"}");
      hist_t h = { 0, k + 1, line, 0, cap };
      in_child(history, &h, 20);
    }
  } else {
    uint64_t seed = atoll(argv[2]); int count = atoi(argv[3]); int len = atoi(argv[4]);
    int isst = !strcmp(argv[1], "store");
    for (int i = 0; i < count; i++) {
      ev("{\"e\":\"reset\",\"k\":\"%s\"}", argv[1]);
      hist_t h = { isst ? 2 : 1, seed * 1000003ULL + i, NULL, len, 0 };
      if (isst) store_make("pcq");
      in_child(history, &h, 30);
      if (isst) store_drop();
    }
  }
  ev_write(argv[argc - 1]);
  return 0;
}
