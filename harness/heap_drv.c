/* Conformance driver for simple heaps (sassimpleheap.cpp, freenode.c): plain memory and a real store. */
#include "common.h"
#include "sasalloc.h"
#include "sassim.h"
#include "sassimpleheap.h"
#include "saslock.h"
#include "sasconf.h"

#define MAXH 4
#define MAXL 4096
typedef struct { char *p; unsigned n; unsigned id; } obj_t;
typedef struct {
  int id; SASSimpleHeap_t h; char *base; long size; int cap;
  char hdr[64]; obj_t o[MAXL]; int n;
  char *lo, *hi;            /* guard areas around it, or NULL */
} hp_t;
static hp_t hp[MAXH];
static int nh;
static unsigned nextid = 1;
static int store;           /* histories in a real store: locked and near operations too */
static helper_t other;

static int heap_ok(hp_t *h)
{
  SASBlockHeader *b = (SASBlockHeader*)h->base;
  for (int i = 0; i < h->n; i++) if (!intact(h->o[i].p, h->o[i].n, h->o[i].id)) return 0;
  /* signature, type and size; the free list head (blockFreeSpace) is the heap's own business */
  if (!SOMSASCheckBlockSigAndTypeAndSubtype(b, SAS_RUNTIME_SIMPLEHEAP) || b->blockSize != (block_size_t)h->size) return 0;
  if (h->lo && !intact(h->lo, 256, 7777)) return 0;
  if (h->hi && !intact(h->hi, 256, 8888)) return 0;
  return 1;
}
static int all_ok(void) { for (int i = 0; i < nh; i++) if (!heap_ok(&hp[i])) return 0; return 1; }

typedef struct { hp_t *h; int how; unsigned n; char *p; void *near; long r; } call_t;
static void do_alloc(void *v)
{
  call_t *c = (call_t*)v;
  switch (c->how) {
  case 0: c->p = (char*)SASSimpleHeapAllocNoLock(c->h->h, c->n); break;
  case 1: c->p = (char*)SASSimpleHeapAlloc(c->h->h, c->n); break;
  case 2: c->p = (char*)SASNearAlloc(c->near, c->n); break;
  case 3: c->p = (char*)SASSimpleHeapNearAlloc(c->near, c->n); break;
  }
}
static void do_free(void *v)
{
  call_t *c = (call_t*)v;
  c->r = 0;
  switch (c->how) {
  case 0: c->r = SASSimpleHeapFreeNoLock(c->h->h, c->p, c->n); break;
  case 1: c->r = SASSimpleHeapFree(c->h->h, c->p, c->n); break;
  case 2: SASNearDealloc(c->p, c->n); break;
  case 3: SASSimpleHeapNearDealloc(c->p, c->n); break;
  }
}
static void do_space(void *v)
{
  call_t *c = (call_t*)v;
  if (c->how & 1) { c->r = SASSimpleHeapFreeSpace(c->h->h); c->n = SASSimpleHeapEmpty(c->h->h); }
  else { c->r = SASSimpleHeapFreeSpaceNoLock(c->h->h); c->n = SASSimpleHeapEmptyNoLock(c->h->h); }
}
/* in a store, operations run on two threads in turn */
static void run(void (*fn)(void*), call_t *c)
{ if (store && rnd(2)) helper_run(&other, fn, c); else fn(c); }

static void op_alloc(hp_t *h, unsigned n)
{
  call_t c = { h, store ? (int)rnd(4) : 0, n, NULL, NULL, 0 };
  c.near = h->base + rnd(h->size);
  run(do_alloc, &c);
  if (!c.p) { ev("{\"e\":\"allocfail\",\"h\":%d,\"n\":%u,\"ok\":%d}", h->id, n, all_ok()); return; }
  long off = c.p - (h->base + heap_offset);
  int in = off >= 0 && off + (long)n <= h->size - heap_offset;
  if (in && h->n < MAXL) {
    obj_t *o = &h->o[h->n++];
    o->p = c.p; o->n = n; o->id = nextid++;
    fill(o->p, o->n, o->id);
  }
  /* an address outside the heap is reported as unit -1, which no specification step allows */
  ev("{\"e\":\"alloc\",\"h\":%d,\"n\":%u,\"a\":%ld,\"al\":%d,\"how\":%d,\"ok\":%d}", h->id, n,
     in ? (off >> 4) : -1L, ((uintptr_t)c.p & 15) == 0, c.how, all_ok());
}
static void op_free(hp_t *h, int k)
{
  obj_t o = h->o[k];
  int ok = all_ok();
  h->o[k] = h->o[--h->n];
  call_t c = { h, store ? (int)rnd(4) : 0, o.n, o.p, NULL, 0 };
  run(do_free, &c);
  ev("{\"e\":\"free\",\"h\":%d,\"a\":%ld,\"rc\":%ld,\"how\":%d,\"ok\":%d}", h->id,
     (long)(o.p - (h->base + heap_offset)) >> 4, c.r, c.how, ok && all_ok());
}
static void op_space(hp_t *h)
{
  call_t c = { h, store ? (int)rnd(2) : 0, 0, NULL, NULL, 0 };
  run(do_space, &c);
  ev("{\"e\":\"space\",\"h\":%d,\"bytes\":%ld,\"empty\":%u,\"ok\":%d}", h->id, c.r, c.n, all_ok());
}
static void op_find(hp_t *h)
{
  SASSimpleHeap_t f = SASSimpleHeapNearFind(h->base + rnd(h->size));
  int got = -1;
  for (int i = 0; i < nh; i++) if (f == hp[i].h) got = hp[i].id;
  ev("{\"e\":\"find\",\"h\":%d,\"got\":%d,\"ok\":%d}", h->id, got, all_ok());
}
static int by_rank(hp_t *h, int r)   /* the live object with r live objects below it */
{
  for (int i = 0; i < h->n; i++) {
    int below = 0;
    for (int j = 0; j < h->n; j++) if (h->o[j].p < h->o[i].p) below++;
    if (below == r) return i;
  }
  return 0;
}
static hp_t *mk_plain(int cap)
{
  hp_t *h = &hp[nh];
  memset(h, 0, sizeof(*h));
  h->id = nh++;
  h->size = heap_offset + 16L * cap;
  char *m = (char*)aligned_alloc(4096, (h->size + 512 + 4096 + 4095) / 4096 * 4096);
  h->base = m + 4096 - 256 + 256;
  h->lo = h->base - 256; h->hi = h->base + h->size;
  fill(h->lo, 256, 7777); fill(h->hi, 256, 8888);
  h->cap = cap;
  h->h = SASSimpleHeapInit(h->base, SAS_RUNTIME_SIMPLEHEAP, h->size);
  ev("{\"e\":\"create\",\"h\":%d,\"cap\":%d,\"ok\":%d}", h->id, cap, h->h == (SASSimpleHeap_t)h->base && all_ok());
  return h;
}
static hp_t *mk_store(long size)
{
  hp_t *h = &hp[nh];
  memset(h, 0, sizeof(*h));
  h->id = nh++;
  h->size = size;
  h->h = SASSimpleHeapCreate(size);
  if (!h->h) { ev("{\"e\":\"create\",\"h\":%d,\"cap\":%d,\"ok\":0}", h->id, 0); _exit(0); }
  h->base = (char*)h->h;
  h->cap = (size - heap_offset) / 16;
  ev("{\"e\":\"create\",\"h\":%d,\"cap\":%d,\"ok\":%d}", h->id, h->cap, all_ok());
  return h;
}
typedef struct { int kind; uint64_t seed; char *script; int len; } hist_t;
static void history(void *v)
{
  hist_t *x = (hist_t*)v;
  quiet();
  rnd_seed(x->seed, 77);
  if (x->kind == 0) {
    sop_t ops[64];
    hp_t *h = mk_plain(5);
    int n = parse_script(x->script, ops, 64);
    for (int i = 0; i < n; i++) {
      if (ops[i].op[0] == 'A') op_alloc(h, 16 * ops[i].a[0] - rnd(16));
      else if (h->n) op_free(h, by_rank(h, ops[i].a[0] < h->n ? ops[i].a[0] : 0));
      op_space(h);
    }
    while (h->n) { op_free(h, rnd(h->n)); op_space(h); }
    op_alloc(h, 16 * 5 - 1 - rnd(15));       /* everything was given back: nearly all of it fits again (a request of the full capacity is refused) */
    return;
  }
  if (x->kind == 2) {
    store = 1;
    if (SASJoinRegion()) { ev("{\"e\":\"nojoin\"}"); return; }
    helper_start(&other);
    int k = 1 + rnd(3);
    for (int i = 0; i < k; i++) mk_store(4096L << rnd(6));
  } else {
    static const int caps[] = { 2, 3, 8, 17, 33, 64, 120, 250 };
    mk_plain(caps[rnd(8)]);
  }
  int maxlive = rnd_in(3, 24), bias = rnd_in(35, 70);
  for (int i = 0; i < x->len; i++) {
    hp_t *h = &hp[rnd(nh)];
    unsigned r = rnd(100);
    if (rnd(24) == 0) { op_space(h); continue; }
    if (store && rnd(16) == 0) { op_find(h); continue; }
    if (rnd(150) == 0) bias = rnd_in(10, 90);
    if (r < (unsigned)bias && h->n < maxlive) {
      unsigned big = h->cap * 16, n;
      switch (rnd(6)) {
      case 0: n = 1 + rnd(16); break;
      case 1: n = 16 * (1 + rnd(4)); break;
      case 2: n = 1 + rnd(big / 2 + 1); break;
      case 3: n = 1 + rnd(big); break;
      case 4: n = 1 + rnd(200); break;
      default: n = 1 + rnd(big / 8 + 20); break;
      }
      op_alloc(h, n);
    } else if (h->n)
      op_free(h, rnd(h->n));
  }
  for (int i = 0; i < nh; i++) {
    hp_t *h = &hp[i];
    op_space(h);
    while (h->n) op_free(h, rnd(h->n));
    op_space(h);
    op_alloc(h, h->cap * 16 - 16 + 1 + rnd(14));
    if (h->n) op_free(h, 0);
    op_space(h);
  }
  if (store) {
    for (int i = 0; i < nh; i++) {
      int rc = SASSimpleHeapDestroy(hp[i].h);
      ev("{\"e\":\"destroy\",\"h\":%d,\"rc\":%d,\"ok\":1}", hp[i].id, rc);
    }
    SASRemove();
  }
}
int main(int argc, char **argv)
{
  ev_init();
  if (argc < 4) return 3;
  const char *out = argv[argc - 1];
  if (!strcmp(argv[1], "script")) {
    FILE *f = fopen(argv[2], "r");
    static char line[65536];
    if (!f) return 3;
    uint64_t k = 0;
    while (fgets(line, sizeof(line), f)) {
      ev("{\"e\":\"reset\",\"k\":\"script\"}");
      hist_t h = { 0, ++k, line, 0 };
      in_child(history, &h, 60);
    }
  } else {
    uint64_t seed = atoll(argv[2]); int count = atoi(argv[3]); int len = atoi(argv[4]);
    int st = !strcmp(argv[1], "store");
    for (int i = 0; i < count; i++) {
      ev("{\"e\":\"reset\",\"k\":\"%s\"}", argv[1]);
      hist_t h = { st ? 2 : 1, seed * 1000003ULL + i, NULL, len };
      if (st) store_make("heap");
      in_child(history, &h, 120);
      if (st) store_drop();
    }
  }
  ev_write(out);
  return 0;
}
