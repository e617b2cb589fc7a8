/* Conformance driver for interior addresses: objects of every kind, found again from any address inside them. */
#define _GNU_SOURCE
#include "common.h"
#include "sasalloc.h"
#include "sassim.h"
#include "sassimpleheap.h"
#include "sascompoundheap.h"
#include "sassimplestack.h"
#include "sassimplespace.h"
#include "sphlockfreeheap.h"
#include "sphsinglepcqueue.h"
#include "sphmultipcqueue.h"
#include "sphlflogger.h"
#include "sphlogportal.h"
#include "sphcontext.h"
#include "sasindex.h"
#include "sasstringbtree.h"
#define U 512UL
static unsigned long low;
typedef struct { char k; unsigned long a, s; int f; int raw; void *h; } obj_t;
static obj_t o[400]; static int n, nfam;
typedef struct { unsigned long p, s; char k; } chunk_t;
static chunk_t ch[300]; static int nch;
static int unit(void *p) { unsigned long v = (unsigned long)p; return v >= low && v - low < (1UL << 40) ? (int)((v - low) / U) : p ? -3 : -1; }
static void reg(char k, void *p, unsigned long s, int f, int raw)
{
  o[n].k = k; o[n].a = (unsigned long)p; o[n].s = s; o[n].f = f; o[n].raw = raw; o[n].h = p; n++;
  ev("{\"e\":\"new\",\"k\":\"%c\",\"a\":%d,\"s\":%d,\"f\":%d}", k, unit(p), (int)(s / U), f);
}
static void gone(int i)
{
  obj_t d = o[i]; int j = 0;
  ev("{\"e\":\"gone\",\"a\":%d,\"s\":%d}", unit(d.h), (int)(d.s / U));
  for (int k = 0; k < n; k++) if (!(o[k].a >= d.a && o[k].a + o[k].s <= d.a + d.s)) o[j++] = o[k];
  n = j; j = 0;
  for (int k = 0; k < nch; k++) if (!(ch[k].p >= d.a && ch[k].p < d.a + d.s)) ch[j++] = ch[k];
  nch = j;
}
static unsigned long space(obj_t *x)
{
  switch (x->k) {
  case 'h': case 'p': return SASSimpleHeapFreeSpaceNoLock(x->h);
  case 'k': return SASSimpleStackFreeSpaceNoLock(x->h);
  case 'l': return SPHLockFreeHeapFreeSpace(x->h);
  case 'c': return SASCompoundHeapFreeSpaceNoLock(x->h);
  default: return 0;
  }
}
static unsigned long before[400];
static void snap(void) { for (int i = 0; i < n; i++) before[i] = space(&o[i]); }
static int changed(int pages)
{ /* the one object (family, for pages) whose free space is not what it was */
  int r = -1;
  for (int i = 0; i < n; i++) if ((o[i].k == 'c') == pages && before[i] != space(&o[i])) { int v = pages ? o[i].f : unit(o[i].h); if (r != -1 && r != v) return -2; r = v; }
  return r;
}
static unsigned long within(int i)
{ /* an address inside object i */
  unsigned long s = o[i].s, d;
  switch (rnd(5)) {
  case 0: d = rnd(64); break;
  case 1: d = s - 1 - rnd(64); break;
  case 2: { unsigned long q = U << rnd(20); if (q >= s) q = s / 2; d = q + (rnd(2) ? rnd(40) : -1 - (long)rnd(40)); break; }
  case 3: d = (unsigned long)rnd(1 << 30) * rnd(1 << 20) % s; d = d / U * U + (rnd(2) ? 0 : rnd(U)); break;
  default: d = (((unsigned long)rnd(1 << 30) << 20) ^ rnd(1 << 30)) % s;
  }
  return o[i].a + d % s;
}
static void op_find(int i)
{
  void *x = (void*)within(i);
  ev("{\"e\":\"find\",\"x\":%d,\"r\":%d}", unit(x), unit(SASFindHeader(x)));
}
static void op_near(int i)
{
  void *x = (void*)within(i);
  if (rnd(2)) ev("{\"e\":\"near\",\"f\":\"heap\",\"x\":%d,\"r\":%d}", unit(x), unit(SASSimpleHeapNearFind(x)));
  else ev("{\"e\":\"near\",\"f\":\"lock\",\"x\":%d,\"r\":%d}", unit(x), unit(SPHLockFreeHeapNearFind(x)));
}
static int inner(unsigned long x)
{ int r = -1; for (int i = 0; i < n; i++) if (x >= o[i].a && x < o[i].a + o[i].s && o[i].k != 'r' && (r < 0 || o[i].s < o[r].s)) r = i; return r; }
static void op_take(int i)
{
  unsigned long x = within(i); int w = inner(x); void *p; unsigned long z = 16 + 16 * rnd(20);
  if (w < 0 || o[w].k == 't' || nch >= 300) return;
  snap();
  switch (o[w].k) {
  case 'h': case 'p': p = rnd(2) ? SASSimpleHeapNearAlloc((void*)x, z) : SASNearAlloc((void*)x, z); break;
  case 'k': p = rnd(2) ? SASSimpleStackNearAlloc((void*)x, z) : SASSimpleStackNearAllocNoLock((void*)x, z); break;
  case 'l': p = SPHLockFreeHeapNearAlloc((void*)x, z); break;
  default: p = rnd(2) ? SPHLockFreeHeapNearAlloc((void*)x, z) : SASSimpleStackNearAlloc((void*)x, z);
  }
  ev("{\"e\":\"take\",\"x\":%d,\"r\":%d,\"own\":%d}", unit((void*)x), unit(p), changed(0));
  if (p) { ch[nch].p = (unsigned long)p; ch[nch].s = z; ch[nch++].k = o[w].k; }
}
static void op_give(void)
{
  if (!nch) return;
  int c = rnd(nch); chunk_t d = ch[c];
  if (d.k == 'k') return;
  ch[c] = ch[--nch];
  snap();
  if (d.k == 'l') { if (rnd(2)) SPHLockFreeHeapFreeNear((void*)d.p); else SPHLockFreeHeapFreeNearChk((void*)d.p, d.s); }
  else { if (rnd(2)) SASSimpleHeapNearDealloc((void*)d.p, d.s); else SASNearDealloc((void*)d.p, d.s); }
  ev("{\"e\":\"give\",\"x\":%d,\"own\":%d}", unit((void*)d.p), changed(0));
}
static obj_t *root_of(int f) { for (int i = 0; i < n; i++) if (o[i].k == 'c' && o[i].f == f && o[i].raw == 0) return &o[i]; return NULL; }
static void op_page(int i)
{
  unsigned long x = within(i); int w = inner(x); void *p;
  if (w < 0 || (o[w].k != 'c' && o[w].k != 'p') || n >= 390) return;
  obj_t *r = root_of(o[w].f);
  snap();
  p = rnd(2) ? SASCompoundHeapNearAlloc((void*)x) : SASCompoundHeapNearAllocNoLock((void*)x);
  if (!p) { ev("{\"e\":\"page\",\"x\":%d,\"fam\":%d}", unit((void*)x), changed(1) == -1 ? o[w].f : -2); return; }
  ev("{\"e\":\"page\",\"x\":%d,\"fam\":%d}", unit((void*)x), changed(1));
  unsigned long hs = r->s;
  int known = 0;
  for (int j = 0; j < n; j++) known |= o[j].k == 'c' && (unsigned long)p >= o[j].a && (unsigned long)p < o[j].a + o[j].s;
  if (!known) reg('c', (void*)((unsigned long)p & ~(hs - 1)), hs, r->f, 2);
  reg('p', p, ((SASBlockHeader*)p)->blockSize, r->f, 0);
}
static void op_unpage(void)
{
  int t = 20, i; do i = n ? rnd(n) : 0; while (n && o[i].k != 'p' && --t); if (!n || o[i].k != 'p') return;
  snap();
  unsigned long x = within(i); int f;
  if (rnd(2)) SASCompoundHeapNearDealloc((void*)x); else SASCompoundHeapNearDeallocNoLock((void*)x);
  f = changed(1);
  ev("{\"e\":\"page\",\"x\":%d,\"fam\":%d}", unit((void*)x), f);
  gone(i);
}
static void op_new(int prof)
{
  static const char kinds[] = "hhhccckkllqmgrtisPS";
  char k = kinds[rnd(sizeof(kinds) - 1)];
  int lg = prof == 0 ? 12 + rnd(5) : prof == 1 ? 12 + rnd(17) : prof == 2 ? 14 + rnd(6) : 9 + rnd(7);
  if (prof == 3) k = "hhhhkkSqlrc"[rnd(11)];
  unsigned long s = 1UL << lg; void *p = NULL; char kk = 'x';
  if (n >= 40 + 300 * (prof == 0) + 60 * (prof == 3)) return;
  if (strchr("istgPSqmcl", k) && lg > 24) s = 1UL << 24;
  switch (k) {
  case 'h': p = SASSimpleHeapCreate(s); kk = 'h'; break;
  case 'c': if (s < 32768) s = 32768; { unsigned long pg = 4096UL << rnd(3); p = rnd(2) ? SASCompoundHeapCreatePageSize(s, pg * 4 <= s ? pg : 4096) : rnd(2) ? SASCompoundHeapCreate(s) : SASCompoundFixedHeapCreate(s); } kk = 'c'; break;
  case 'k': p = SASSimpleStackCreate(s); kk = 'k'; break;
  case 'l': if (s < 65536) s = 65536; p = SPHLockFreeHeapCreate(s, 128UL << rnd(2)); kk = 'l'; break;
  case 'q': p = SPHSinglePCQueueCreateWithStride(s, 128); break;
  case 'm': p = SPHMPMCQCreateWithStride(s, 128); break;
  case 'g': p = rnd(2) ? SPHLFLoggerCreate(s) : SPHLFCircularLoggerCreate(s, 128); break;
  case 'P': p = SPHLogPortalCreate(s); break;
  case 'S': p = SASSimpleSpaceCreate(s); break;
  case 't': if (s < 65536) s = 65536; p = SPHContextCreate(s); kk = 't'; break;
  case 'i': if (s < 65536) s = 65536; p = SASIndexCreate(s); kk = 't';
            if (p) for (int i = 0; i < 400; i++) { SASIndexKey_t key; SASIndexKeyInitUInt64(&key, rnd(1000)); SASIndexPut(p, &key, p); } break;
  case 's': if (s < 65536) s = 65536; p = SASStringBTreeCreate(s); kk = 't';
            if (p) for (int i = 0; i < 200; i++) { char b[30]; sprintf(b, "name%d", rnd(1000)); SASStringBTreePut(p, b, p); } break;
  case 'r': p = SASBlockAlloc(s); kk = 'r'; break;
  }
  if (!p) return;
  int raw = k == 'r' ? 1 : k == 'q' ? 3 : k == 'm' ? 4 : k == 'g' ? 5 : k == 'P' ? 6 : k == 'S' ? 7 : k == 't' ? 8 : k == 'i' ? 9 : k == 's' ? 10 : 0;
  reg(kk, p, s, kk == 'c' ? ++nfam : -1, raw);
}
static void op_sub(void)
{ /* a heap the caller places in a raw block of its own, or inside another such heap's block */
  int t = 20, i; do i = n ? rnd(n) : 0; while (n && o[i].k != 'r' && --t); if (!n || o[i].k != 'r' || n > 390) return;
  unsigned long s = U << rnd(8); if (s >= o[i].s) return;
  unsigned long a = o[i].a + rnd(o[i].s / s > 64 ? 64 : o[i].s / s) * s;
  for (int j = 0; j < n; j++) if (j != i && a < o[j].a + o[j].s && o[j].a < a + s) return;
  if (a == o[i].a) return;
  SASSimpleHeapInit((void*)a, SAS_RUNTIME_SIMPLEHEAP, s);
  reg('h', (void*)a, s, -1, 11);
}
static void op_gone(void)
{
  if (!n) return;
  int i = rnd(n); void *p = o[i].h;
  if (o[i].k == 'p' || o[i].raw == 2) return;
  if (o[i].k == 'c') for (int j = 0; j < n; j++) if (o[j].k == 'c' && o[j].f == o[i].f && o[j].raw == 2) { int f = o[i].f; gone(j); for (i = 0; i < n; i++) if (o[i].f == f && o[i].k == 'c' && o[i].raw == 0) break; j = -1; }
  switch (o[i].raw) {
  case 0: switch (o[i].k) {
          case 'h': SASSimpleHeapDestroy(p); break;
          case 'c': if (rnd(2)) SASCompoundHeapDestroy(p); else SASCompoundHeapDestroyNoLock(p); break;
          case 'k': SASSimpleStackDestroy(p); break;
          case 'l': SPHLockFreeHeapDestroy(p); break; } break;
  case 1: /* the heaps in it are dead to their owner before the block goes */
          for (int j = 0; j < n; j++) if (o[j].raw == 11 && o[j].a >= o[i].a && o[j].a < o[i].a + o[i].s) memset(o[j].h, 0, 64);
          SASBlockDealloc(p, o[i].s); break;
  case 3: SPHSinglePCQueueDestroy(p); break;
  case 4: SPHMPMCQDestroy(p); break;
  case 5: SPHLFLoggerDestroy(p); break;
  case 6: SPHLogPortalDestroy(p); break;
  case 7: SASSimpleSpaceDestroy(p); break;
  case 8: SPHContextDestroy(p); break;
  case 9: SASIndexDestroy(p); break;
  case 10: SASStringBTreeDestroy(p); break;
  case 11: memset(p, 0, 64); break;
  }
  gone(i);
}
typedef struct { uint64_t seed; char **scripts; int nscripts; int len, prof; } hist_t;
static void begin(void) { quiet(); n = nch = 0; nfam = 0; if (SASJoinRegion()) _exit(97); low = getMemLow(); }
static void scripts_history(void *v)
{
  hist_t *x = (hist_t*)v; static sop_t ops[64]; static char line[4096];
  rnd_seed(x->seed, 1); begin();
  for (int s = 0; s < x->nscripts; s++) {
    unsigned long unitsz = U << rnd(12);     /* 8 units make a block of 4K to 8M */
    void *b = SASBlockAlloc(8 * unitsz); memset(b, 0, 64);
    reg('r', b, 8 * unitsz, -1, 1);
    snprintf(line, sizeof(line), "%s", x->scripts[s]);
    int m = parse_script(line, ops, 64);
    for (int i = 0; i < m; i++) {
      unsigned long a = (unsigned long)b + ops[i].a[0] * unitsz;
      if (ops[i].op[0] == 'N') {
        if (ops[i].a[1] == 8) continue;         /* the block itself stands for an object of all eight units: not made twice */
        SASSimpleHeapInit((void*)a, SAS_RUNTIME_SIMPLEHEAP, ops[i].a[1] * unitsz); reg('h', (void*)a, ops[i].a[1] * unitsz, -1, 11);
      } else {
        int j; for (j = n - 1; j > 0 && !(o[j].a == a && o[j].k == 'h'); j--) ;
        if (j == 0) continue;
        for (int k = 1; k < n; k++) if (o[k].a >= o[j].a && o[k].a < o[j].a + o[j].s) memset(o[k].h, 0, 64);
        gone(j);
      }
      for (int q = 0; q < 8; q++) { unsigned long z = (unsigned long)b + q * unitsz + (rnd(3) ? rnd(unitsz) : rnd(2) ? unitsz - 1 : 0); ev("{\"e\":\"find\",\"x\":%d,\"r\":%d}", unit((void*)z), unit(SASFindHeader((void*)z))); }
    }
    for (int k = 1; k < n; k++) memset(o[k].h, 0, 64);
    SASBlockDealloc(b, 8 * unitsz);
    gone(0);
  }
  SASRemove();
}
static void history(void *v)
{
  hist_t *x = (hist_t*)v;
  rnd_seed(x->seed, 2); begin();
  for (int i = 0; i < x->len; i++) {
    if (n < 4) op_new(x->prof);
    if (!n) continue;
    switch (rnd(24)) {
    case 0: case 1: case 2: op_new(x->prof); if (x->prof == 3 && n) for (int j = 0; j < 6; j++) op_find(n - 1); break;
    case 3: op_sub(); break;
    case 4: if (n > 6) for (int j = x->prof == 3 ? 4 : 1; j > 0; j--) op_gone(); break;
    case 5: case 6: case 7: case 8: op_page(rnd(n)); break;
    case 9: case 10: op_unpage(); break;
    case 11: case 12: op_take(rnd(n)); break;
    case 13: op_give(); break;
    case 14: op_near(rnd(n)); break;
    default: op_find(rnd(n));
    }
    if (n > 60 || (x->prof == 1 && n > 25)) for (int j = 0; j < 30; j++) op_gone();
  }
  SASRemove();
}
int main(int argc, char **argv)
{
  ev_init();
  if (argc < 3) return 3;
  if (!strcmp(argv[1], "script")) {
    FILE *f = fopen(argv[2], "r"); int part = atoi(argv[3]), parts = atoi(argv[4]);
    static char line[4096]; static char *all[200000]; int c = 0, i = 0;
    if (!f) return 3;
    while (fgets(line, sizeof(line), f) && c < 200000) if (i++ % parts == part) all[c++] = strdup(line);
    for (i = 0; i < c; i += 200) {
      ev("{\"e\":\"reset\",\"k\":\"script\"}");
      hist_t h = { i + 1000 * part + 1, all + i, c - i < 200 ? c - i : 200 };
      store_make("own"); in_child(scripts_history, &h, 240); store_drop();
    }
  } else {                 /* rand SEED COUNT LEN */
    uint64_t seed = atoll(argv[2]); int count = atoi(argv[3]), len = atoi(argv[4]);
    for (int i = 0; i < count; i++) {
      ev("{\"e\":\"reset\",\"k\":\"rand\"}");
      hist_t h = { seed * 1000003ULL + i, NULL, 0, len, (int)((seed + i) % 4) };
      store_make("own"); in_child(history, &h, 240); store_drop();
    }
  }
  ev_write(argv[argc - 1]);
  return 0;
}
