/* Conformance driver for simple stacks and simple spaces. */
#include "common.h"
#include "sasalloc.h"
#include "sassim.h"
#include "sassimplestack.h"
#include "sassimplespace.h"
#include "saslock.h"
#include "sasconf.h"
#define MAXH 4
#define MAXL 4096
typedef struct { char *p; unsigned n, id; } obj_t;
typedef struct { int id; SASSimpleStack_t h; char *base, *bot; long size; int cap; long top; obj_t o[MAXL]; int n; char *lo, *hi; } st_t;
typedef struct { int id; SASSimpleSpace_t h; char *a; unsigned n; } sp_t;
static st_t st[MAXH]; static int ns;
static sp_t sp[MAXH]; static int np;
static unsigned nextid = 1;
static int store;
static helper_t other;
static int all_ok(void)
{
  for (int i = 0; i < ns; i++) {
    st_t *h = &st[i];
    SASBlockHeader *b = (SASBlockHeader*)h->base;
    for (int k = 0; k < h->n; k++) if (!intact(h->o[k].p, h->o[k].n, h->o[k].id)) return 0;
    if (!SOMSASCheckBlockSigAndTypeAndSubtype(b, SAS_RUNTIME_SIMPLESTACK) || b->blockSize != (block_size_t)h->size) return 0;
    if (h->lo && (!intact(h->lo, 256, 7777) || !intact(h->hi, 256, 8888))) return 0;
  }
  for (int i = 0; i < np; i++) if (sp[i].h && !intact(sp[i].a, sp[i].n, 100000 + sp[i].id)) return 0;
  return 1;
}
typedef struct { st_t *h; int how; unsigned long n; char *p; void *near; long r; } call_t;
static void do_push(void *v)
{
  call_t *c = (call_t*)v;
  switch (c->how) {
  case 0: c->p = (char*)SASSimpleStackAllocNoLock(c->h->h, c->n); break;
  case 1: c->p = (char*)SASSimpleStackAlloc(c->h->h, c->n); break;
  case 2: c->p = (char*)SASSimpleStackNearAllocNoLock(c->near, c->n); break;
  case 3: c->p = (char*)SASSimpleStackNearAlloc(c->near, c->n); break;
  }
}
static void do_cut(void *v)
{ call_t *c = (call_t*)v; c->r = (c->how & 1) ? SASSimpleStackDealloc(c->h->h, c->p) : SASSimpleStackDeallocNoLock(c->h->h, c->p); }
static void do_space(void *v)
{ call_t *c = (call_t*)v; c->r = (c->how & 1) ? SASSimpleStackFreeSpace(c->h->h) : SASSimpleStackFreeSpaceNoLock(c->h->h); }
static void run(void (*fn)(void*), call_t *c) { if (store && rnd(2)) helper_run(&other, fn, c); else fn(c); }

static void op_push(st_t *h, unsigned long n)
{
  call_t c = { h, store ? (int)rnd(4) : 0, n, NULL, NULL, 0 };
  c.near = h->base + rnd(h->size);
  run(do_push, &c);
  if (!c.p) {
    if (n > 0x3fffffff) ev("{\"e\":\"hugefail\",\"h\":%d,\"ok\":%d}", h->id, all_ok());
    else ev("{\"e\":\"pushfail\",\"h\":%d,\"n\":%lu,\"ok\":%d}", h->id, n, all_ok());
    return;
  }
  long off = c.p - h->bot;
  int in = n <= 0x3fffffff && off >= 0 && off + (long)n <= 16L * h->cap;
  if (in && h->n < MAXL) { obj_t *o = &h->o[h->n++]; o->p = c.p; o->n = n; o->id = nextid++; fill(o->p, o->n, o->id); h->top = off + ((n + 15) & ~15L); }
  ev("{\"e\":\"push\",\"h\":%d,\"n\":%lu,\"a\":%ld,\"al\":%d,\"how\":%d,\"ok\":%d}", h->id, n & 0x3fffffff, in ? off >> 4 : -1L,
     ((uintptr_t)c.p & 15) == 0, c.how, all_ok());
}
static void op_cut(st_t *h, long unit)
{
  call_t c = { h, store ? (int)rnd(2) : 0, 0, h->bot + 16 * unit, NULL, 0 };
  int ok = all_ok();
  run(do_cut, &c);
  if (c.r == 0) { h->top = 16 * unit; while (h->n && h->o[h->n-1].p + h->o[h->n-1].n > c.p) h->n--; }
  ev("{\"e\":\"cut\",\"h\":%d,\"a\":%ld,\"rc\":%ld,\"how\":%d,\"ok\":%d}", h->id, unit, c.r, c.how, ok && all_ok());
}
static void op_badcut(st_t *h)
{
  call_t c = { h, store ? (int)rnd(2) : (int)rnd(1), 0, NULL, NULL, 0 };
  switch (rnd(5)) {
  case 0: c.p = h->bot - 16 * (1 + rnd(8)); break;
  case 1: c.p = h->base + rnd(h->bot - h->base); break;
  case 2: c.p = h->base + h->size + 16 * (1 + rnd(8)); break;
  case 3: c.p = NULL; break;
  default: if (h->top < 16) return; c.p = h->bot + 16 * rnd(h->top / 16) + 1 + rnd(15); break;
  }
  run(do_cut, &c);
  ev("{\"e\":\"badcut\",\"h\":%d,\"off\":%ld,\"rc\":%ld,\"how\":%d,\"ok\":%d}", h->id, c.p ? (long)(c.p - h->bot) : -999999L, c.r, c.how, all_ok());
}
static void op_space(st_t *h)
{
  call_t c = { h, store ? (int)rnd(2) : 0, 0, NULL, NULL, 0 };
  run(do_space, &c);
  ev("{\"e\":\"space\",\"h\":%d,\"bytes\":%ld,\"ok\":%d}", h->id, c.r, all_ok());
}
/* The control page in front of the stack is the library's; where it ends is told by the first allocation. */
static st_t *mk(int isstore, long size)
{
  st_t *h = &st[ns];
  memset(h, 0, sizeof(*h));
  h->id = ns; h->size = size;
  if (isstore) {
    h->h = SASSimpleStackCreate(size);
    if (!h->h) { ev("{\"e\":\"create\",\"h\":%d,\"cap\":0,\"ok\":0}", h->id); _exit(0); }
    h->base = (char*)h->h;
  } else {
    char *m = (char*)aligned_alloc(4096, (size + 2 * 4096 + 4095) / 4096 * 4096);
    h->base = m + 4096; h->lo = h->base - 256; h->hi = h->base + size;
    fill(h->lo, 256, 7777); fill(h->hi, 256, 8888);
    h->h = SASSimpleStackInit(h->base, size);
  }
  ns++;
  h->bot = h->base + 4096;
  h->cap = (size - 4096) / 16;
  ev("{\"e\":\"create\",\"h\":%d,\"cap\":%d,\"ok\":%d}", h->id, h->cap, h->h == (SASSimpleStack_t)h->base && all_ok());
  return h;
}
static void sp_check(sp_t *s)
{
  long f = (long)SASSimpleSpaceFreeSpace(s->h);
  ev("{\"e\":\"spmap\",\"h\":%d,\"back\":%d,\"free\":%ld,\"ok\":%d}", s->id,
     SASSimpleSpaceToAddr(s->h) == s->a && SASSimpleSpaceFromAddr(s->a) == s->h, f, all_ok());
}
static void sp_make(sp_t *s, int id, unsigned n)
{
  s->id = id; s->n = n;
  s->h = SASSimpleSpaceCreate(n);
  if (!s->h) { ev("{\"e\":\"spcreate\",\"h\":%d,\"n\":%u,\"al\":0,\"off\":0,\"free\":-1,\"blk\":0,\"ok\":0}", id, n); _exit(0); }
  s->a = (char*)SASSimpleSpaceToAddr(s->h);
  long blk = ((SASBlockHeader*)s->h)->blockSize;
  long off = s->a - (char*)s->h;
  int in = off > 0 && off + n <= blk;
  if (in) fill(s->a, n, 100000 + id); else s->n = 0;
  ev("{\"e\":\"spcreate\",\"h\":%d,\"n\":%u,\"al\":%d,\"off\":%ld,\"free\":%ld,\"blk\":%ld,\"ok\":%d}", id, n, ((uintptr_t)s->a & 15) == 0, off,
     (long)SASSimpleSpaceFreeSpace(s->h), blk, in && all_ok());
}
typedef struct { int kind; uint64_t seed; char *script; int len; } hist_t;
static void history(void *v)
{
  hist_t *x = (hist_t*)v;
  quiet();
  rnd_seed(x->seed, 78);
  if (x->kind == 0) {
    sop_t ops[64];
    st_t *h = mk(0, 4096 + 16 * 4);
    int n = parse_script(x->script, ops, 64);
    for (int i = 0; i < n; i++) {
      if (ops[i].op[0] == 'P') op_push(h, ops[i].a[0] ? 16 * ops[i].a[0] - rnd(16) : 0);
      else op_cut(h, ops[i].a[0]);
      op_space(h);
    }
    return;
  }
  if (x->kind == 2) {
    store = 1;
    if (SASJoinRegion()) { ev("{\"e\":\"nojoin\"}"); return; }
    helper_start(&other);
    int k = 1 + rnd(3);
    for (int i = 0; i < k; i++) mk(1, 8192L << rnd(5));
    np = 1 + rnd(3);
    static const unsigned sizes[] = { 1, 16, 100, 4095, 4096, 4097, 8191, 8192, 12288, 12289, 61440, 61441, 65536, 100000 };
    for (int i = 0; i < np; i++) sp_make(&sp[i], i, sizes[rnd(14)]);
  } else
    mk(0, 4096 + 16 * (1 + rnd(200)));
  for (int i = 0; i < x->len; i++) {
    st_t *h = &st[rnd(ns)];
    unsigned big = h->cap * 16;
    switch (rnd(12)) {
    case 0: case 1: case 2: op_push(h, rnd(64)); break;
    case 3: op_push(h, rnd(big + 32)); break;
    case 4: op_push(h, 16 * rnd(8)); break;
    case 5: { long left = big - h->top; op_push(h, left - 8 + rnd(12) > 0 ? left - 8 + rnd(12) : left); break; }
    case 6: op_push(h, rnd(big / 8 + 1)); break;
    case 7: if (rnd(8) == 0) op_push(h, rnd(2) ? ~0UL - rnd(100000) : (1UL << 62) + rnd(1000)); break;
    case 8: op_space(h); break;
    case 9: if (h->n) op_cut(h, (h->o[rnd(h->n)].p - h->bot) / 16); else op_cut(h, 0); break;
    case 10: op_badcut(h); break;
    default: if (rnd(3) == 0) op_cut(h, rnd(h->top / 16 + 1)); else if (np) sp_check(&sp[rnd(np)]); break;
    }
  }
  for (int i = 0; i < ns; i++) { op_space(&st[i]); op_cut(&st[i], 0); op_push(&st[i], 16 * st[i].cap); op_push(&st[i], 1); op_space(&st[i]); }
  if (store) {
    for (int i = 0; i < np; i++) {
      sp_check(&sp[i]);
      int rc = rnd(2) ? SASSimpleSpaceDestroy(sp[i].h) : SASSimpleSpaceDestroyNoLock(sp[i].h); sp[i].h = NULL;
      ev("{\"e\":\"spdestroy\",\"h\":%d,\"rc\":%d,\"ok\":%d}", i, rc, all_ok());
    }
    for (int i = ns - 1; i >= 0; i--) {
      int rc = rnd(2) ? SASSimpleStackDestroy(st[i].h) : SASSimpleStackDestroyNoLock(st[i].h); ns--;
      ev("{\"e\":\"destroy\",\"h\":%d,\"rc\":%d,\"ok\":%d}", i, rc, all_ok());
    }
    SASRemove();
  }
}
int main(int argc, char **argv)
{
  ev_init();
  if (argc < 4) return 3;
  const char *out = argv[argc - 1];
  if (!strcmp(argv[1], "script")) {
    FILE *f = fopen(argv[2], "r");
    static char line[65536];
    if (!f) return 3;
    uint64_t k = 0;
    while (fgets(line, sizeof(line), f)) {
      ev("{\"e\":\"reset\",\"k\":\"script\"}");
      hist_t h = { 0, ++k, line, 0 };
      in_child(history, &h, 60);
    }
  } else {
    uint64_t seed = atoll(argv[2]); int count = atoi(argv[3]); int len = atoi(argv[4]);
    int isst = !strcmp(argv[1], "store");
    for (int i = 0; i < count; i++) {
      ev("{\"e\":\"reset\",\"k\":\"%s\"}", argv[1]);
      hist_t h = { isst ? 2 : 1, seed * 1000003ULL + i, NULL, len };
      if (isst) store_make("stack");
      in_child(history, &h, 120);
      if (isst) store_drop();
    }
  }
  ev_write(out);
  return 0;
}
