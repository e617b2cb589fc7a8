/* Conformance driver for the lock-free heap: histories of one thread and of several. */
#define _GNU_SOURCE
#include "common.h"
#ifndef REAL
#include "vsched.h"
#endif
#include "sasalloc.h"
#include "sassim.h"
#include "sassimpleheap.h"
#include "sphlockfreeheap.h"
#define MAXA 3000
typedef struct { int id; long at, len, req; char *p; int live; } al_t;
static SPHLockFreeHeap_t H;
static char *buf; static long bytes, unit, word;
static char *lo, *hi;
static al_t a[MAXA]; static int nid;
static int instore;
static char *wrongheap;
static int all_ok(void)
{
  for (int k = 0; k < nid; k++) if (a[k].live && !intact(a[k].p, a[k].len, a[k].id)) return 0;
  return !lo || (intact(lo, 256, 777) && intact(hi, 256, 888));
}
static int ok_some(void) { return nid < 60 || rnd(12) == 0 ? all_ok() : 1; }
static void state(void)
{
  ev("{\"e\":\"state\",\"free\":%ld,\"empty\":%d,\"full\":%d,\"ok\":%d}", (long)SPHLockFreeHeapFreeSpace(H), !!SPHLockFreeHeapEmpty(H), !!SPHLockFreeHeapFull(H), all_ok());
}
static void *do_alloc(int how, long req, long al, void *near)
{ return how == 0 ? SPHLockFreeHeapAlloc(H, req) : how == 1 ? SPHLockFreeHeapAlignAlloc(H, req, al) : SPHLockFreeHeapNearAlloc(near, req); }
static al_t *op_alloc(int how, long req, long al)
{
  if (nid >= MAXA - 1) return NULL;
  void *near = H;
  for (int k = 0; k < nid && how == 2; k++) if (a[k].live && rnd(2)) near = a[k].p + (a[k].len ? rnd(a[k].len) : 0);
  char *p = (char*)do_alloc(how, req, al, near);
  if (how != 1) al = 0;
  if (!p) { ev("{\"e\":\"allocfail\",\"how\":%d,\"req\":%ld,\"al\":%ld,\"ok\":%d}", how, req, al, ok_some()); return NULL; }
  al_t *x = &a[nid++];
  x->id = nid; x->at = p - buf; x->req = req; x->len = (req + unit - 1) / unit * unit; x->p = p;
  int in = x->at >= 0 && x->at + x->len <= bytes && (!al || (long)p % al == 0);
  for (int k = 0; k < nid - 1; k++) if (a[k].live && a[k].at < x->at + x->len && x->at < a[k].at + a[k].len) in = 0;
  x->live = in;
  if (in) fill(p, x->len, x->id);
  ev("{\"e\":\"alloc\",\"how\":%d,\"i\":%d,\"req\":%ld,\"al\":%ld,\"at\":%ld,\"ok\":%d}", how, x->id, req, al, x->at, in && ok_some());
  if (!in) _exit(0);
  return x;
}
static int do_free(int how, char *p, long size)
{
  switch (how) {
  case 0: return SPHLockFreeHeapFree(H, p);
  case 1: return SPHLockFreeHeapFreeIn(H, p);
  case 2: return SPHLockFreeHeapFreeChk(H, p, size);
  case 3: return SPHLockFreeHeapFreeNear(p);
  default: return SPHLockFreeHeapFreeNearChk(p, size);
  }
}
static void op_free(al_t *x, int how)
{
  int good = intact(x->p, x->len, x->id);
  long size = rnd(2) ? x->req : x->len - rnd(unit);   /* any size that rounds to the same number of units */
  int rc = do_free(how, x->p, size);
  x->live = 0;
  ev("{\"e\":\"free\",\"how\":%d,\"i\":%d,\"rc\":%d,\"ok\":%d}", how, x->id, rc, good && ok_some());
}
/* requests that name no allocation */
static void op_bad(void)
{
  int kind = rnd(8), rc = 99;
  al_t *x = NULL;
  for (int t = 0; t < 40 && nid; t++) { al_t *y = &a[rnd(nid)]; if (y->live == (kind >= 2)) { x = y; break; } }
  switch (kind) {
  case 0: case 1:              /* freed before, and free */
    if (!x) return;
    for (int k = 0; k < nid; k++) if (a[k].live && a[k].at <= x->at && x->at < a[k].at + a[k].len) return;
    rc = do_free(instore ? rnd(5) : rnd(3), x->p, x->req); break;
  case 2: if (!x) return; rc = do_free(2 + (instore && rnd(2)) * 2, x->p, x->len + 1 + rnd(3 * unit)); break;
  case 3: if (!x || x->len <= unit) return; rc = do_free(2 + (instore && rnd(2)) * 2, x->p, 1 + rnd(x->len - unit)); break;
  case 4: { long off = (long)rnd(2000000); rc = do_free(rnd(3), rnd(2) ? buf + bytes + off : buf - 1 - off, 1 + rnd(4 * unit)); break; }
  case 5: rc = do_free(rnd(3), buf + (rnd(2) ? 0 : rnd(128)), 1 + rnd(40 * unit)); break;       /* the heap's own data */
  case 6: if (!x) return; rc = do_free(rnd(3), x->p + 1 + rnd(unit - 1), x->req); break;
  default: {
    SPHLockFreeHeap_t h = H; H = wrongheap;
    int r = !SPHLockFreeHeapAlloc(H, unit) && !SPHLockFreeHeapAlignAlloc(H, unit, unit) && do_free(rnd(3), wrongheap + 512, unit) && !SPHLockFreeHeapFreeSpace(H) && SPHLockFreeHeapDestroy(H);
    H = h;
    if (instore) {
      void *o = SASSimpleHeapCreate(4096);
      r = r && SPHLockFreeHeapNearFind(H) == H && (!x || SPHLockFreeHeapNearFind(x->p + rnd(x->len)) == H) && SPHLockFreeHeapNearFind((char*)o + 100) == NULL && !SPHLockFreeHeapNearAlloc((char*)o + 100, unit);
      r = r && !SASSimpleHeapDestroy(o);
    }
    rc = r ? -1 : 0; }
  }
  ev("{\"e\":\"bad\",\"kind\":%d,\"rc\":%d,\"ok\":%d}", kind, rc, all_ok());
}
static int mk(int store, long sz, long un, int dirty)
{
  nid = 0; instore = store; bytes = sz; unit = un; word = 64 * un; lo = hi = NULL;
  if (store) H = SPHLockFreeHeapCreate(sz, un);
  else {
    char *m = (char*)aligned_alloc(sz, 3 * sz);
    buf = m + sz; lo = buf - 256; hi = buf + sz;
    fill(lo, 256, 777); fill(hi, 256, 888);
    if (dirty) for (long i = 0; i < sz; i++) buf[i] = dirty == 1 ? 0xff : rnd(256); else memset(buf, 0, sz);
    H = SPHLockFreeHeapInit(buf, SAS_RUNTIME_LOCKFREEHEAP, sz, un);
    if (H == (void*)-1L) H = NULL;
  }
  if (store) buf = (char*)H;
  ev("{\"e\":\"create\",\"store\":%d,\"r\":%d,\"kb\":%ld,\"bytes\":%ld,\"unit\":%ld,\"free\":%ld,\"ok\":%d}", store, !!H, sz >> 10, sz & 0x3fffffff, un, H ? (long)SPHLockFreeHeapFreeSpace(H) : 0, (!H || store || (char*)H == buf) && all_ok());
  if (!H) return 0;
  state();
  return 1;
}
typedef struct { int kind; uint64_t seed; char *script; int len; } hist_t;
/* a chunk of the model is 16 units of the heap; what comes before the first whole one is taken first */
static void script(hist_t *x)
{
  sop_t ops[64];
  int ids[64], n = 0;
  mk(0, 64 * 16 * 2, 16, rnd(3));        /* two words of 64 units of 16 */
  long left = SPHLockFreeHeapFreeSpace(H) - 6 * 16 * 16;
  if (left > 0) op_alloc(0, left, 0);
  memset(ids, 0, sizeof ids);
  int k = parse_script(x->script, ops, 64);
  for (int i = 0; i < k; i++) {
    int v = ops[i].a[0];
    switch (ops[i].op[0]) {
    case 'A': { al_t *r = op_alloc(ops[i].a[1] > 1 || rnd(3) == 0, v * 256 - rnd(16), ops[i].a[1] * 256); if (r) ids[++n] = r->id; break; }
    case 'F': if (v <= n) op_free(&a[ids[v] - 1], rnd(3)); break;
    case 'X': if (v <= n && !a[ids[v] - 1].live) {
        al_t *y = &a[ids[v] - 1]; int hit = 0;
        for (int j = 0; j < nid; j++) if (a[j].live && a[j].at <= y->at && y->at < a[j].at + a[j].len) hit = 1;
        if (!hit) ev("{\"e\":\"bad\",\"kind\":0,\"rc\":%d,\"ok\":%d}", do_free(rnd(3), y->p, y->req), all_ok());
      } break;
    }
    state();
  }
}
static long some_size(void)
{
  switch (rnd(12)) {
  case 0: return 32 * unit - rnd(2 * unit);
  case 1: return 32 * unit + rnd(3);
  case 2: return rnd(40) * unit;
  case 3: return rnd(4) ? 1 + rnd(3) : rnd(2) ? 0 : 33 * unit + rnd(40 * unit);
  case 4: case 5: return 1 + rnd(32 * unit);
  case 6: case 7: return (1 + rnd(32)) * unit - rnd(2);
  default: return 1 + rnd(6 * unit);
  }
}
static void randhist(hist_t *x)
{
  int store = x->kind == 2;
  if (store && SASJoinRegion()) { ev("{\"e\":\"nojoin\"}"); return; }
  wrongheap = (char*)calloc(1, 4096);
  for (int round = 0; round < (store ? 3 : 1); round++) {
    long un = 16L << rnd(rnd(3) ? 4 : 8), nw = 1L << (1 + rnd(rnd(3) ? 3 : 6));
    if (store) { while (un * nw * 64 > 8 * 1048576L) un >>= 1; if (un < 16) un = 16; if (un * nw * 64 < 4096) un = 32; }
    if (!store) while (un * nw * 64 > 4 * 1048576L) nw >>= 1;
    if (store && rnd(3) == 0) {          /* heaps that may not be */
      long u = 16L << rnd(4), s = 4096L << rnd(11);
      if (rnd(3) == 0) u += 8;
      if (rnd(3) == 0) { if (rnd(2)) { s = 64 * 1048576L; u = 16; } else { s = 128 * 1048576L; u = 16 << rnd(2); } }
      if (mk(1, s, u, 0)) { op_alloc(0, u, 0); for (int k = 0; k < nid; k++) op_free(&a[k], 0); int rc = SPHLockFreeHeapDestroy(H); ev("{\"e\":\"destroy\",\"rc\":%d,\"ok\":1}", rc); }
    }
    if (!mk(store, un * nw * 64, un, rnd(3))) continue;
    int live = 0, phase = 0;
    for (int i = 0; i < x->len && nid < MAXA - 3; i++) {
      if (rnd(30) == 0) phase = rnd(3);
      switch (rnd(12)) {
      case 0: case 1: case 2: case 3: case 4: if (phase < 2 || rnd(3) == 0) {
        int how = rnd(store ? 5 : 4); if (how > 2) how = 0; if (how == 2 && !store) how = 0;
        long al = rnd(12) ? unit << rnd(7) : rnd(3) ? unit << 7 : rnd(2) ? 1L << rnd(13) : 3 * unit;
        op_alloc(how, rnd(phase ? 6 : 2) ? some_size() : 1 + rnd(unit), al); } break;
      case 5: case 6: case 7: case 8: if (phase != 1 || rnd(3) == 0) {
        al_t *v = NULL; for (int t = 0; t < 20 && nid; t++) { al_t *y = &a[rnd(nid)]; if (y->live) { v = y; break; } }
        if (v) op_free(v, rnd(store ? 5 : 3)); } break;
      case 9: op_bad(); break;
      default: state();
      }
    }
    (void)live;
    state();
    if (rnd(2)) { for (int k = 0; k < nid; k++) if (a[k].live) op_free(&a[k], 0); state(); }
    if (store) { int rc = SPHLockFreeHeapDestroy(H); nid = 0; ev("{\"e\":\"destroy\",\"rc\":%d,\"ok\":1}", rc); }
  }
  if (store) SASRemove();
}
/* ---------------------------------------------------------------------- threads */
#define R(t, f, ...) ev("{\"e\":\"r\",\"t\":%d," f "}", t, ##__VA_ARGS__)
static uint64_t rs[4];
static unsigned rn(int t, unsigned n)
{ uint64_t z = (rs[t] += 0x9E3779B97F4A7C15ULL); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return (unsigned)((z ^ (z >> 31)) >> 11) % n; }
static int nth, budget[4], maxu, aligned;
static void *pool[4];      /* allocations handed from thread to thread */
/* the call is written with room for its outcome, which is filled in on return */
static char *call(const char *s)
{
  size_t n = strlen(s), p = __atomic_fetch_add(&EVB->len, n + 1, __ATOMIC_SEQ_CST);
  if (p + n + 1 > EVB->cap) _exit(3);
  memcpy(EVB->data + p, s, n); EVB->data[p + n] = '\n';
  return EVB->data + p;
}
static void outcome(char *c, long v)
{ char t[16]; snprintf(t, 16, "%9ld", v); memcpy(strstr(c, "\"out\":") + 6, t, 9); }
static void program(int t, void *arg)
{
  (void)arg;
  al_t *own[16]; int n = 0, left = budget[t]; char s[200];
  while (left > 0 || n) {
    if (rn(t, 8) == 0) {
      int w = rn(t, 2);
      ev("{\"e\":\"c\",\"t\":%d,\"o\":\"%s\"}", t, w ? "full" : "space");
      if (w) R(t, "\"r\":%d", !!SPHLockFreeHeapFull(H)); else R(t, "\"r\":%ld", (long)SPHLockFreeHeapFreeSpace(H));
    }
    if (left > 0 && (n == 0 || (n < 4 && rn(t, 2)))) {
      int id = __atomic_add_fetch(&nid, 1, __ATOMIC_SEQ_CST);
      al_t *x = &a[id - 1];
      int how = aligned == 2 || (aligned && rn(t, 3) == 0);
      long req = 1 + rn(t, maxu * unit), al = how ? unit << rn(t, 5) : 0;
      left--;
      snprintf(s, 200, "{\"e\":\"c\",\"t\":%d,\"o\":\"alloc\",\"i\":%d,\"req\":%ld,\"al\":%ld,\"out\":%9d}", t, id, req, al, -2);
      char *c = call(s), *p = (char*)do_alloc(how, req, al, NULL);
      outcome(c, p ? p - buf : -1);
      R(t, "\"r\":%ld", p ? (long)(p - buf) : -1);
      if (!p) continue;
      x->p = p; x->at = p - buf; x->req = req; x->len = (req + unit - 1) / unit * unit;
      if (x->at < 0 || x->at + x->len > bytes) _exit(0);
      fill(p, x->len, id); x->id = id; x->live = 1;
      own[n++] = x;
    }
    if (n && rn(t, 3) == 0) { int k = rn(t, n), j = rn(t, 4); void *o = __atomic_exchange_n(&pool[j], own[k], __ATOMIC_SEQ_CST); if (o) own[k] = (al_t*)o; else own[k] = own[--n]; }
    if (n && (n == 4 || left == 0 || rn(t, 2))) {
      int k = rn(t, n); al_t *x = own[k];
      int good = intact(x->p, x->len, x->id);
      ev("{\"e\":\"c\",\"t\":%d,\"o\":\"free\",\"i\":%d}", t, x->id);
      x->live = 0;
      int rc = do_free(rn(t, 3), x->p, x->req);
      R(t, "\"r\":%d", good ? rc : 77);
      own[k] = own[--n];
    }
  }
}
static void *real_main(void *v) { program((int)(long)v, NULL); return v; }
static void conchist(hist_t *x, int real)
{
  long un = 16L << rnd(2), nw = 2L << rnd(2);
  nth = 2 + rnd(real ? 3 : 2);
  maxu = rnd(3) ? 2 + rnd(30) : 3; aligned = rnd(3);
  mk(0, un * nw * 64, un, rnd(3));
  /* little left to share */
  long target = rnd(4) == 0 ? 1 << 30 : (4 + rnd(24) + maxu) * un;
  while ((long)SPHLockFreeHeapFreeSpace(H) > target) if (!op_alloc(0, (1 + rnd(30)) * un, 0)) break;
  for (int k = 0; k < nid; k++) if (rnd(6) == 0) op_free(&a[k], 0);
  for (int t = 0; t < nth; t++) { budget[t] = 1 + rnd(real ? 40 : 7); rs[t] = x->seed * 77 + t * 1001; }
  if (real) {
    pthread_t p[4];
    for (int t = 0; t < nth; t++) pthread_create(&p[t], NULL, real_main, (void*)(long)t);
    for (int t = 0; t < nth; t++) pthread_join(p[t], NULL);
  } else {
#ifndef REAL
    sched_t s;
    sched_random(&s, x->seed);
    if (rnd(2)) {        /* short programs, one switch: what one thread does falls into one step of another */
      s.kind = S_PLAN; s.nplan = 1; s.plan[0].step = 1 + rnd(90); s.plan[0].to = 1;
      for (int t = 0; t < nth; t++) budget[t] = 1 + rnd(3);
    }
    int rc = sched_run(nth, program, NULL, &s);
    if (rc) { ev("{\"e\":\"stuck\",\"why\":%d,\"who\":%d}", rc, sched_blocked_mask); _exit(0); }
#endif
  }
  state();
  while (rnd(8) && op_alloc(0, 1 + rnd(maxu * un), 0));
  for (int k = 0; k < nid; k++) if (a[k].live) op_free(&a[k], rnd(3));
  state();
}
static void history(void *v)
{
  hist_t *x = (hist_t*)v;
  quiet();
  rnd_seed(x->seed, 223);
  switch (x->kind) {
  case 0: script(x); break;
  case 4: conchist(x, 0); break;
  case 5: conchist(x, 1); break;
  default: randhist(x);
  }
}
int main(int argc, char **argv)
{
  ev_init();
  if (argc < 4) return 3;
  if (!strcmp(argv[1], "script")) {
    FILE *f = fopen(argv[2], "r");
    static char line[65536];
    int part = atoi(argv[3]), parts = atoi(argv[4]);
    if (!f) return 3;
    for (uint64_t k = 0; fgets(line, sizeof(line), f); k++) {
      if ((int)(k % parts) != part) continue;
      ev("{\"e\":\"reset\",\"k\":\"script\"}");
      hist_t h = { 0, k + 1, line, 0 };
      in_child(history, &h, 20);
    }
  } else {
    uint64_t seed = atoll(argv[2]); int count = atoi(argv[3]); int len = atoi(argv[4]);
    const char *m = argv[1];
    int kind = !strcmp(m, "store") ? 2 : !strcmp(m, "sched") ? 4 : !strcmp(m, "real") ? 5 : 1;
    for (int i = 0; i < count; i++) {
      ev("{\"e\":\"reset\",\"k\":\"%s\"}", m);
      hist_t h = { kind, seed * 1000003ULL + i, NULL, len };
      if (kind == 2) store_make("lfheap");
      in_child(history, &h, 30);
      if (kind == 2) store_drop();
    }
  }
  ev_write(argv[argc - 1]);
  return 0;
}
