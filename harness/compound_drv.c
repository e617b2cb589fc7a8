/* Conformance driver for compound heaps: simple-heap pages and queue pages, fixed and expanding. */
#include "common.h"
#include "sasalloc.h"
#include "sassim.h"
#include "sassimpleheap.h"
#include "sphsinglepcqueue.h"
#include "sphcompoundpcqheap.h"
#include "sascompoundheap.h"
#include "store.h"
#define MAXH 4
#define MAXP 2000
typedef struct { char *a; int kind; unsigned id; long fillat, filln; void *obj; long objn; } page_t;
typedef struct { int id; void *h; long bsz, psz; int fixed, lf; page_t p[MAXP]; int np; } heap_t;
static heap_t hp[MAXH]; static int nh, hid; static unsigned pid;
static helper_t other;
static unsigned long low;
static int pu(void *p) { return (int)(((unsigned long)p - low) / 512); }
typedef struct { int op; heap_t *h; void *near; void *r; int L; int kind; unsigned long n[3]; } call_t;
enum { ALLOC, NEAR, FREE, NFREE, SPACE, DESTROY, CREATE };
static void do_call(void *v)
{
  call_t *c = (call_t*)v; void *h = c->h ? c->h->h : NULL;
  switch (c->op) {
  case ALLOC: c->r = c->kind ? (c->L ? (void*)SPHCompoundPCQAlloc(h) : (void*)SPHCompoundPCQAllocNoLock(h))
                             : (c->L ? (void*)SASCompoundHeapAlloc(h) : (void*)SASCompoundHeapAllocNoLock(h)); break;
  case NEAR: c->r = c->kind ? (c->L ? (void*)SPHCompoundPCQNearAlloc(c->near) : (void*)SPHCompoundPCQNearAllocNoLock(c->near))
                            : (c->L ? (void*)SASCompoundHeapNearAlloc(c->near) : (void*)SASCompoundHeapNearAllocNoLock(c->near)); break;
  case FREE: if (c->kind) { if (c->L) SPHCompoundPCQFree(h, c->near); else SPHCompoundPCQFreeNoLock(h, c->near); }
             else { if (c->L) SASCompoundHeapFree(h, c->near); else SASCompoundHeapFreeNoLock(h, c->near); } break;
  case NFREE: if (c->L) SASCompoundHeapNearDealloc(c->near); else SASCompoundHeapNearDeallocNoLock(c->near); break;
  case SPACE: c->n[0] = c->L ? SASCompoundHeapFreeSpace(h) : SASCompoundHeapFreeSpaceNoLock(h);
              c->n[1] = SASCompoundHeapAllocSpace(h); c->n[2] = SASCompoundHeapAllocSize(h); break;
  case DESTROY: if (c->L) SASCompoundHeapDestroy(h); else SASCompoundHeapDestroyNoLock(h); break;
  }
}
static call_t go(call_t c)
{
  c.L = rnd(2);
  if (c.L && rnd(3)) helper_run(&other, do_call, &c); else do_call(&c);
  return c;
}
static int page_new(heap_t *h, char *a, int kind)
{
  page_t *p = &h->p[h->np];
  memset(p, 0, sizeof(*p));
  p->a = a; p->kind = kind; p->id = ++pid;
  if (kind) return SPHSinglePCQueueEmpty(a) && !SPHSinglePCQueueFull(a) && SPHSinglePCQueueFreeSpace(a) <= h->psz;
  /* a usable simple heap of the page size: nearly all of it can be had in one piece */
  long fr = SASSimpleHeapFreeSpaceNoLock(a);
  if (fr < h->psz - 256 || fr > h->psz || !SASSimpleHeapEmptyNoLock(a)) return 0;
  p->objn = rnd(2) ? fr - 128 : 16 * (1 + rnd(20));
  p->obj = SASSimpleHeapAllocNoLock(a, p->objn);
  if (!p->obj || (char*)p->obj < a || (char*)p->obj + p->objn > a + h->psz) return 0;
  fill(p->obj, p->objn, p->id);
  return 1;
}
static int page_ok(heap_t *h, page_t *p)
{
  if (p->kind) return SPHSinglePCQueueEmpty(p->a);
  return intact(p->obj, p->objn, p->id) && SASFindHeader((char*)p->obj) == (void*)p->a;
}
static int all_ok(heap_t *h)
{ for (int i = 0; i < h->np; i++) if (h->np < 40 || rnd(h->np / 20) == 0) if (!page_ok(h, &h->p[i])) return 0; return 1; }
static void op_alloc(heap_t *h, int near)
{
  int kind = rnd(6) == 0 && h->psz >= 4096;
  if (h->np >= MAXP) return;
  void *no = NULL;
  if (near >= 0 && near < h->np) { page_t *q = &h->p[near]; no = q->kind ? q->a : rnd(2) ? q->a : (char*)q->obj + rnd(q->objn); }
  else if (near == -2) no = h->h;
  call_t c = go((call_t){ no ? NEAR : ALLOC, h, no, NULL, 0, kind });
  if (!c.r) { ev("{\"e\":\"allocfail\",\"h\":%d}", h->id); return; }
  int ok = (unsigned long)c.r >= low && (unsigned long)c.r % h->psz == 0 && page_new(h, c.r, kind) && all_ok(h);
  ev("{\"e\":\"alloc\",\"h\":%d,\"a\":%d,\"ok\":%d,\"near\":%d,\"q\":%d,\"L\":%d}", h->id, pu(c.r), ok, no != NULL, kind, c.L);
  h->np++;
}
static void op_free(heap_t *h, int i, int near)
{
  if (i < 0 || i >= h->np) return;
  page_t p = h->p[i];
  int ok = page_ok(h, &p);
  /* what the page held is not given back first; the page goes with it */
  go((call_t){ near ? NFREE : FREE, h, near && !p.kind && rnd(2) ? (char*)p.obj + rnd(p.objn) : p.a, NULL, 0, p.kind });
  memmove(&h->p[i], &h->p[i + 1], (h->np - i - 1) * sizeof(page_t)); h->np--;
  ev("{\"e\":\"free\",\"h\":%d,\"a\":%d,\"ok\":%d,\"near\":%d}", h->id, pu(p.a), ok && all_ok(h), near);
}
static void op_space(heap_t *h)
{ call_t c = go((call_t){ SPACE, h }); ev("{\"e\":\"space\",\"h\":%d,\"free\":%lu,\"all\":%lu,\"page\":%lu}", h->id, c.n[0], c.n[1], c.n[2]); }
static heap_t *mk(long bsz, long psz, int fixed, int lf)
{
  heap_t *h = &hp[nh];
  memset(h, 0, sizeof(*h));
  if (rnd(3)) { void *d = SASBlockAlloc(bsz); if (d) { memset(d, 0xA5, bsz); SASBlockDealloc(d, bsz); } }
  h->bsz = bsz; h->psz = psz; h->fixed = fixed; h->id = hid++;
  h->h = fixed ? SASCompoundFixedHeapCreate(bsz) : psz == 4096 && rnd(2) ? SASCompoundHeapCreate(bsz) : SASCompoundHeapCreatePageSize(bsz, psz);
  ev("{\"e\":\"mk\",\"h\":%d,\"base\":%d,\"bsz\":%ld,\"psz\":%ld,\"fixed\":%d,\"ok\":%d}", h->id, h->h ? pu(h->h) : -1, bsz / 512, psz / 512, fixed, h->h != NULL);
  if (!h->h) _exit(0);
  if (lf) SASCompoundHeapSetLoadFactor((void*)h->h, lf);
  nh++;
  return h;
}
static void del(heap_t *h)
{
  go((call_t){ DESTROY, h });
  ev("{\"e\":\"del\",\"h\":%d}", h->id);
}
static void all_gone(unsigned long before)
{ unsigned long now = store_free_total(); ev("{\"e\":\"store\",\"same\":%d,\"lost\":%ld}", now == before, (long)(before - now)); }
typedef struct { int mode; uint64_t seed; char **scripts; int nscripts; int len; } hist_t;
static int start(hist_t *x)
{
  quiet();
  rnd_seed(x->seed, 11);
  if (SASJoinRegion()) { ev("{\"e\":\"nojoin\"}"); return 1; }
  low = getMemLow();
  helper_start(&other);
  return 0;
}
static void scripts_history(void *v)
{
  hist_t *x = (hist_t*)v;
  static sop_t ops[256]; static char line[65536];
  if (start(x)) return;
  unsigned long before = store_free_total();
  for (int s = 0; s < x->nscripts; s++) {
    snprintf(line, sizeof(line), "%s", x->scripts[s]);
    int n = parse_script(line, ops, 256);
    nh = 0;
    int fixed = rnd(3) == 0;
    heap_t *h = mk(fixed ? 32768 : 16384, 4096, fixed, fixed ? 0 : (int[]){ 0, 100, 50, 75 }[rnd(4)]);
    for (int i = 0; i < n; i++) {
      switch (ops[i].op[0]) {
      case 'A': op_alloc(h, -1); break;
      case 'N': op_alloc(h, ops[i].a[0]); break;
      case 'F': op_free(h, ops[i].a[0], 0); break;
      case 'D': op_free(h, ops[i].a[0], 1); break;
      }
    }
    op_space(h);
    del(h);
    all_gone(before);
  }
  SASRemove();
}
static void history(void *v)
{
  hist_t *x = (hist_t*)v;
  if (start(x)) return;
  unsigned long before = store_free_total();
  for (int round = 0; round < 2; round++) {
    nh = 0;
    if (x->mode == 2) {           /* expansions beyond the first list */
      heap_t *h = mk(16384, 4096, 0, 0);
      int target = 1000;
      while (h->np < target) { op_alloc(h, rnd(8) == 0 ? (int)rnd(h->np + 1) : -1); if (rnd(10) == 0) op_free(h, rnd(h->np), rnd(2)); if (rnd(100) == 0) op_space(h); }
      while (h->np) { op_free(h, rnd(h->np), rnd(2)); if (rnd(100) == 0) op_space(h); }
      for (int i = 0; i < 200; i++) op_alloc(h, -1);
    } else {
      int k = 1 + rnd(MAXH);
      for (int i = 0; i < k; i++) {
        int fixed = rnd(3) == 0;
        long psz = fixed ? 4096 : 4096L << rnd(3);
        mk(psz << rnd_in(2, 4), psz, fixed, rnd(2) ? 0 : 1 + (int)rnd(100));
      }
      int grow = 1;
      for (int i = 0; i < x->len; i++) {
        heap_t *h = &hp[rnd(nh)];
        if (rnd(60) == 0) grow = !grow;
        switch (rnd(12)) {
        case 0: op_space(h); break;
        case 1: op_alloc(h, -2); break;
        case 2: case 3: op_alloc(h, h->np ? (int)rnd(h->np) : -1); break;
        case 4: op_free(h, rnd(h->np + 1), 1); break;
        case 5: op_free(h, rnd(h->np + 1), 0); break;
        default: if (grow) op_alloc(h, -1); else op_free(h, rnd(h->np + 1), rnd(2));
        }
        if (h->np > 120) grow = 0;
      }
      for (int i = 0; i < nh; i++) op_space(&hp[i]);
    }
    /* what live pages hold survives the other heaps' end */
    while (nh) { int i = rnd(nh); del(&hp[i]); hp[i] = hp[nh - 1]; nh--; for (int j = 0; j < nh; j++) if (!all_ok(&hp[j])) ev("{\"e\":\"corrupt\"}"); }
    all_gone(before);
  }
  SASRemove();
}
int main(int argc, char **argv)
{
  ev_init();
  const char *out = argv[argc - 1];
  if (argc < 3) return 3;
  if (!strcmp(argv[1], "script")) {
    FILE *f = fopen(argv[2], "r"); int part = atoi(argv[3]), parts = atoi(argv[4]);
    static char line[65536]; static char *all[100000]; int n = 0, i = 0;
    if (!f) return 3;
    while (fgets(line, sizeof(line), f) && n < 100000) if (i++ % parts == part) all[n++] = strdup(line);
    for (i = 0; i < n; i += 100) {
      ev("{\"e\":\"reset\",\"k\":\"script\"}");
      hist_t h = { 0, i + 1000 * part + 1, all + i, n - i < 100 ? n - i : 100, 0 };
      store_make("cmp"); in_child(scripts_history, &h, 120); store_drop();
    }
  } else {                 /* rand|grow SEED COUNT LEN */
    uint64_t seed = atoll(argv[2]); int count = atoi(argv[3]), len = atoi(argv[4]);
    for (int i = 0; i < count; i++) {
      ev("{\"e\":\"reset\",\"k\":\"%s\"}", argv[1]);
      hist_t h = { !strcmp(argv[1], "grow") ? 2 : 1, seed * 1000003ULL + i, NULL, 0, len };
      store_make("cmp"); in_child(history, &h, 120); store_drop();
    }
  }
  ev_write(out);
  return 0;
}
