/* Conformance driver for the lock-free logger: histories of one thread and of several. */
#define _GNU_SOURCE
#include "common.h"
#ifndef REAL
#include "vsched.h"
#endif
#include "sasalloc.h"
#include "sassim.h"
#include "sphlflogger.h"
#include "sphlflogentry.h"
#include "sphthread.h"
#define MAXE 6000
typedef struct { int id, at, len, off, done, live, cat, sub, pid, tid; sphtimer_t t0, t1; SPHLFLoggerHandle_t h; } ent_t;
static SPHLFLogger_t L;
static char *buf; static long size; static int stride, circ, mixed, wrapped;
static ent_t e[MAXE];
static int nid;
static char *lo, *hi;
static SPHLFLogIterator_t iter[3]; static int iton[3];
static int all_ok(void)
{
  for (int k = 0; k < nid; k++) if (e[k].live && !intact(buf + e[k].at + e[k].off, e[k].len - e[k].off, e[k].id)) return 0;
  return !lo || (intact(lo, 256, 777) && intact(hi, 256, 888));
}
static int ok_some(void) { return nid < 40 || rnd(16) == 0 ? all_ok() : 1; }
static void state(void)
{
  ev("{\"e\":\"state\",\"empty\":%d,\"full\":%d,\"space\":%ld,\"wrapped\":%d,\"ok\":%d}", !!SPHLFLoggerEmpty(L), !!SPHLFLoggerFull(L),
     (long)(SPHLFLoggerFreeSpace(L) & 0x7fffffff), !!SPHLFLoggerWrapped(L), ok_some());
}
static void *do_alloc(ent_t *x, int how, long req)
{
  memset(&x->h, 0, sizeof(x->h));
  x->t0 = sphgettimer(); x->pid = getpid(); x->tid = sphdeGetTID();
  SPHLFLoggerHandle_t *h = NULL; void *p = NULL;
  switch (how) {
  case 0: h = SPHLFLoggerAllocTimeStamped(L, x->cat, x->sub, req, &x->h); break;
  case 1: h = SPHLFLoggerAllocStrideTimeStamped(L, x->cat, x->sub, &x->h); break;
  case 2: h = SPHLFLoggerAllocTimeStampedNoLock(L, x->cat, x->sub, req, &x->h); break;
  case 3: h = SPHLFLoggerAllocStrideTimeStampedNoLock(L, x->cat, x->sub, &x->h); break;
  default: p = SPHLFLoggerAllocRaw(L, req);
  }
  x->t1 = sphgettimer();
  return how == 4 ? p : h ? (void*)x->h.entry : NULL;
}
/* new entries may have codes wider than the header's fields */
static void codes(ent_t *x, int c, int s) { x->cat = c; x->sub = s; }
static void op_alloc(int how, long req)
{
  ent_t *x = &e[nid];
  codes(x, rnd(8) ? rnd(4096) : rnd(100000), rnd(8) ? rnd(256) : rnd(70000));
  if (rnd(2)) { int n = rnd(8); x->cat = n & 1 ? 4095 : x->cat; x->sub = n & 2 ? 255 : x->sub; }
  char *p = (char*)do_alloc(x, how, req);
  if (!p) { ev("{\"e\":\"allocfail\",\"how\":%d,\"req\":%ld,\"ok\":%d}", how, req, ok_some()); return; }
  int n = how == 1 || how == 3 ? stride : (int)((req + (how == 4 ? 0 : 16) + 15) & ~15L);
  long at = p - buf, next = how == 4 ? 0 : x->h.next - p, rem = how == 4 ? n : x->h.remaining, tot = how == 4 ? n : x->h.total_size;
  int in = at >= 0 && next >= 0 && at + next + rem <= size && nid < MAXE - 1;
  if (in) {
    for (int k = 0; k < nid; k++)
      if (e[k].live && e[k].at < at + n && at < e[k].at + e[k].len) { e[k].live = 0; iton[0] = iton[1] = iton[2] = 0; wrapped = 1; }
    x->id = ++nid; x->at = at; x->len = n; x->off = next; x->done = 0; x->live = 1;
    fill(p + next, n - next, x->id);
    x->cat &= 0xfff; x->sub &= 0xff;
    if (at == 0 || (nid > 1 && x->at < e[nid - 2].at)) wrapped = 1;
  }
  ev("{\"e\":\"alloc\",\"how\":%d,\"i\":%d,\"req\":%ld,\"at\":%ld,\"next\":%ld,\"rem\":%ld,\"tot\":%ld,\"cat\":%d,\"sub\":%d,\"ok\":%d}", how, x->id, req, at, next, rem, tot, x->cat, x->sub, in && ok_some());
}
static int do_complete(ent_t *x, int how)
{
  switch (how) {
  case 0: return SPHLFLoggerEntryComplete(&x->h);
  case 1: return SPHLFLogEntryComplete(&x->h);
  case 2: return SPHLFLogEntryStrongComplete(&x->h);
  default: return SPHLFLogEntryWeakComplete(&x->h);
  }
}
static void op_complete(ent_t *x, int how)
{
  int rc = do_complete(x, how);
  x->done = 1;
  ev("{\"e\":\"complete\",\"i\":%d,\"how\":%d,\"rc\":%d,\"ok\":%d}", x->id, how, rc, ok_some());
}
static void op_iscomp(void)
{
  if (!nid) return;
  ent_t *x = &e[rnd(nid)];
  if (!x->live || !x->off) return;
  int a = !!SPHLFLoggerEntryIsComplete(&x->h), b = !!SPHLFLogEntryIsComplete(&x->h), c = !!SPHLFLoggerEntryIsTimestamped(&x->h), d = !!SPHLFLogEntryIsTimestamped(&x->h);
  ev("{\"e\":\"iscomp\",\"i\":%d,\"r\":%d,\"ok\":%d}", x->id, a == b && a == c && (d || !a) ? a : 9, ok_some());
}
/* which entry is it: the newest one at that place whose header and contents are the ones left there; 0: none */
static int which(SPHLFLoggerHandle_t *s, long at, int tot)
{
  for (int k = nid - 1; k >= 0; k--) {
    ent_t *x = &e[k];
    if (!x->id || x->at != at || x->len != tot) continue;
    if (!intact(buf + at + 16, tot - 16, x->id)) continue;
    if ((x->cat & 0xfff) != SPHLFLogEntryCategory(s) || (x->sub & 0xff) != SPHLFLogEntrySubcat(s)) continue;
    if (SPHLFLogEntryPID(s) != (sphpid16_t)x->pid || SPHLFLogEntryTID(s) != (sphpid16_t)x->tid) continue;
    sphtimer_t t = SPHLFLogEntryTimeStamp(s);
    if (t < x->t0 || t > x->t1) continue;
    return x->id;
  }
  return 0;
}
static char *next_text(int k)
{
  static __thread char t[400];
  SPHLFLoggerHandle_t s, *h;
  memset(&s, 0, sizeof s);
  h = SPHLFLoggerIteratorNext(&iter[k], &s);
  if (!h) return NULL;
  long at = (char*)s.entry - buf;
  if (h != &s || at < 0 || at + 16 > size) { snprintf(t, 400, "\"at\":-2,\"tot\":0,\"next\":0,\"rem\":0,\"cat\":0,\"sub\":0,\"ts\":0,\"i\":0"); return t; }
  int in = at + s.total_size <= size;
  snprintf(t, 400, "\"at\":%ld,\"tot\":%d,\"next\":%ld,\"rem\":%d,\"cat\":%d,\"sub\":%d,\"ts\":%d,\"i\":%d", at, s.total_size, (long)(s.next - (char*)s.entry), s.remaining,
     SPHLFLogEntryCategory(&s), SPHLFLogEntrySubcat(&s), !!SPHLFLogEntryIsTimestamped(&s), in && SPHLFLogEntryIsComplete(&s) && SPHLFLogEntryHeader(&s) == s.entry ? which(&s, at, s.total_size) : 0);
  return t;
}
static void op_open(int k)
{
  SPHLFLogIterator_t *r = SPHLFLoggerCreateIterator(L, &iter[k]);
  iton[k] = 1;
  ev("{\"e\":\"open\",\"k\":%d,\"ok\":%d}", k, r == &iter[k] && ok_some());
}
static int op_next(int k)
{
  char *t = next_text(k);
  if (t) ev("{\"e\":\"next\",\"k\":%d,%s,\"ok\":%d}", k, t, ok_some()); else ev("{\"e\":\"nextnone\",\"k\":%d,\"ok\":%d}", k, ok_some());
  return t != NULL;
}
static void op_walk(void)
{
  op_open(2);
  int n = 0;
  while (op_next(2) && n < nid + 3) n++;
  if (rnd(2)) op_next(2);
}
static void forget(void) { for (int k = 0; k < nid; k++) e[k].live = 0; iton[0] = iton[1] = iton[2] = 0; wrapped = 0; }
static void op_reset(void)
{
  int rc = SPHLFLoggerResetAsync(L);
  forget();
  ev("{\"e\":\"clear\",\"rc\":%d,\"ok\":%d}", rc, all_ok());
}
static void op_resetfull(void)
{
  int rc = SPHLFLoggerResetIfFullSync(L);
  if (rc == 0) forget();
  ev("{\"e\":\"resetfull\",\"rc\":%d,\"ok\":%d}", rc, all_ok());
}
static void op_prefetch(void)
{
  int rc = rnd(3) ? SPHLFLoggerSetCachePrefetch(L, rnd(5)) : SPHLFLoggerPrefetch(L);
  ev("{\"e\":\"prefetch\",\"rc\":%d,\"ok\":%d}", rc, ok_some());
}
static void op_huge(void)
{
  static const unsigned long reqs[] = { -1UL, -16UL, -17UL, -31UL, -32UL, -4096UL, -288UL, 1UL << 63, 1UL << 40, -1UL << 32 };
  SPHLFLoggerHandle_t h; unsigned long r = reqs[rnd(10)];
  int bad = rnd(3) == 0 ? SPHLFLoggerAllocRaw(L, r) != NULL : rnd(2) ? SPHLFLoggerAllocTimeStamped(L, 1, 2, r, &h) != NULL : SPHLFLoggerAllocTimeStampedNoLock(L, 1, 2, r, &h) != NULL;
  ev("{\"e\":\"hugefail\",\"ok\":%d}", !bad && ok_some());
}
static void op_wrong(void)
{
  static char other[512];
  SPHLFLoggerHandle_t h; SPHLFLogIterator_t it;
  SPHLFLogger_t o = (SPHLFLogger_t)other;
  it.logger = o;
  int r = !SPHLFLoggerAllocTimeStamped(o, 1, 2, 16, &h) && !SPHLFLoggerAllocStrideTimeStamped(o, 1, 2, &h) && !SPHLFLoggerAllocTimeStampedNoLock(o, 1, 2, 16, &h)
    && !SPHLFLoggerAllocStrideTimeStampedNoLock(o, 1, 2, &h) && !SPHLFLoggerAllocRaw(o, 16) && !SPHLFLoggerCreateIterator(o, &it) && SPHLFLoggerResetAsync(o) && SPHLFLoggerResetIfFullSync(o)
    && !SPHLFLoggerFreeSpace(o) && SPHLFLoggerFull(o) && !SPHLFLoggerEmpty(o) && !SPHLFLoggerWrapped(o) && SPHLFLoggerPrefetch(o) && SPHLFLoggerSetCachePrefetch(o, 1) && SPHLFLoggerDestroy(o);
  if (r) r = !SPHLFLoggerIteratorNext(&it, &h);
  for (int i = 0; i < 512; i++) if (other[i]) r = 0;
  ev("{\"e\":\"wrong\",\"r\":%d,\"ok\":%d}", r, ok_some());
}
static void op_nostride(void)
{
  SPHLFLoggerHandle_t h;
  int bad = rnd(2) ? SPHLFLoggerAllocStrideTimeStamped(L, 1, 2, &h) != NULL : SPHLFLoggerAllocStrideTimeStampedNoLock(L, 1, 2, &h) != NULL;
  ev("{\"e\":\"wrong\",\"r\":%d,\"ok\":%d}", !bad, ok_some());
}
static void mk(int store, int asked, long sz, int cc, int dirty, int known)
{
  char *p;
  nid = 0; forget();
  if (store) {
    L = cc ? SPHLFCircularLoggerCreate(sz, asked) : SPHLFLoggerCreate(sz);
    if (!L) { ev("{\"e\":\"nocreate\"}"); _exit(0); }
    buf = (char*)L;
    if (!cc) asked = 0;
  } else {
    char *m = (char*)aligned_alloc(4096, (sz + 3 * 4096) & ~4095L);
    lo = m + 4096 - 256; buf = m + 4096; hi = buf + sz;
    fill(lo, 256, 777); fill(hi, 256, 888);
    switch (dirty) {
    case 0: memset(buf, 0, sz); break;
    case 1: memset(buf, 0xff, sz); break;
    case 2: memset(buf, 0x01, sz); break;
    default: for (p = buf; p < buf + sz; p++) *p = rnd(256); for (long i = 0; i + 16 <= sz; i += 16) *(unsigned*)(buf + i) = 1 | rnd(2) << 1 | (unsigned)rnd(7) << 24; break;   /* looks like entries */
    }
    if (!cc && !asked) L = SPHLFLoggerInit(buf, sz);
    else L = SPHLFLoggerInitWithStride(buf, sz, asked, cc ? SPHLFLOGGER_CIRCULAR : 0);
  }
  size = sz; circ = cc; stride = (asked + 15) / 16 * 16; mixed = cc && !asked;
  ev("{\"e\":\"create\",\"asked\":%d,\"circ\":%d,\"bytes\":%ld,\"space\":%ld,\"known\":%d,\"ok\":%d}", asked, cc, sz, (long)(SPHLFLoggerFreeSpace(L) & 0x7fffffff), known, (char*)L == buf && all_ok());
  state();
}
typedef struct { int kind; uint64_t seed; char *script; int len, mode, size, circ; } hist_t;
static const int strides[] = { 1, 16, 17, 24, 32, 40, 48, 64, 72, 100, 112, 128, 129, 240, 256, 1000, 4064, 4080 };
static void some_complete(void)
{
  if (!nid) return;
  int k = rnd(3) ? rnd(nid) : 0;
  for (int t = 0; t < nid && (!e[k].live || e[k].done || !e[k].off); t++) k = (k + 1) % nid;
  if (e[k].live && !e[k].done && e[k].off) op_complete(&e[k], rnd(4));
}
static void seqhist(hist_t *x)
{
  if (x->kind == 0) {
    sop_t ops[64];
    int unit = 16 * (1 + rnd(5)) - rnd(2) * rnd(16), u16 = (unit + 15) / 16 * 16;
    mk(0, x->circ || rnd(2) ? unit : 0, 256 + (long)x->size * u16 + (x->circ ? rnd(u16 / 16) * 16 : 0), x->circ, rnd(4), 0);
    int k = parse_script(x->script, ops, 64);
    for (int i = 0; i < k; i++) {
      switch (ops[i].op[0]) {
      case 'A': { int u = ops[i].a[0], st = u == 1 && stride && rnd(2); long rq = u * u16 - 16 - (int)rnd(16); op_alloc(st ? 1 + 2 * rnd(2) : 2 * rnd(2), rq < 0 ? 0 : rq); break; }
      case 'C': { int c = ops[i].a[0]; for (int j = 0; j < nid; j++) if (e[j].live && c-- == 0) { op_complete(&e[j], rnd(4)); break; } break; }
      case 'O': op_open(0); break;
      case 'N': if (iton[0]) op_next(0); break;
      case 'R': op_reset(); break;
      }
      state();
    }
    op_walk();
    return;
  }
  int store = x->kind == 2;
  if (store) { if (SASJoinRegion()) { ev("{\"e\":\"nojoin\"}"); return; } }
  for (int round = 0; round < (store ? 3 : 1); round++) {
    int st = strides[rnd(18)], r16 = (st + 15) / 16 * 16, cc = rnd(2), raw = 0;
    long sz;
    if (store) { sz = 4096L << rnd(5); while (sz < 3L * r16 + 512) sz *= 2; if (round == 2) { st = 16 * (1 + rnd(20)); sz = size; } mk(1, st, sz, cc, 0, 0); }
    else {
      int slots = 1 + rnd(rnd(4) ? 6 : 60);
      sz = 256 + (long)slots * r16 + rnd(r16 / 16) * 16;
      if (!cc && rnd(2)) { sz = 256 + 16 * (1 + rnd(rnd(2) ? 20 : 400)); st = 0; }
      if (cc && rnd(6) == 0) { st = 0; }                     /* circular with entries of any length */
      raw = !cc && rnd(8) == 0;
      mk(0, st, sz, cc, rnd(4), 0);
    }
    int big = rnd(3) ? 100 : 700;
    for (int i = 0; i < x->len && nid < MAXE - 3; i++) {
      switch (rnd(14)) {
      case 0: case 1: case 2: case 3: case 4: {
        int how = stride && (cc || rnd(3)) ? 1 + 2 * rnd(2) : 2 * rnd(2);
        long req = rnd(big);
        if (cc && stride && rnd(4) == 0) { how = 2 * rnd(2); req = stride - 16 - (int)rnd(16); if (req < 0) req = 0; if (((req + 31) & ~15L) != stride) req = stride - 16; }
        if (raw && rnd(2)) { how = 4; req = 1 + rnd(big); }
        if (rnd(30) == 0 && !(how & 1)) { long r = size - 300 + (int)rnd(600); if (cc && stride) r = size; if (r >= 0 && (r <= 4064 || how == 4)) req = r; }
        if (how == 0 || how == 2) { if (req > 4064) req = 4064; }
        op_alloc(how, req);
        break; }
      case 5: case 6: case 7: case 8: some_complete(); break;
      case 9: { int k = rnd(2); if (raw || (mixed && wrapped)) break; if (iton[k] && rnd(4)) op_next(k); else op_open(k); break; }
      case 10: if (!raw && !(mixed && wrapped) && rnd(nid / 8 + 1) == 0) op_walk(); break;
      case 11: state(); break;
      case 12: op_iscomp(); break;
      default: switch (rnd(12)) { case 0: if (rnd(4) == 0) op_reset(); break; case 1: case 2: op_resetfull(); break; case 3: case 4: op_prefetch(); break; case 5: if (stride) op_wrong(); else op_nostride(); break; case 6: op_huge(); break; default: state(); } break;
      }
    }
    state();
    if (!raw && !(mixed && wrapped)) op_walk();
    if (store) { int rc = SPHLFLoggerDestroy(L); forget(); nid = 0; ev("{\"e\":\"destroy\",\"rc\":%d,\"ok\":%d}", rc, 1); }
  }
  if (store) SASRemove();
}
/* the recorded finding: an entry of 4096 bytes and more does not show its length */
static void bighist(hist_t *x)
{
  (void)x;
  int n = 4096 - 16 + rnd(8000);
  mk(0, 0, 65536, 0, 0, 1);
  op_alloc(0, rnd(500)); some_complete();
  op_alloc(0, n); some_complete();
  op_open(0); op_next(0); op_next(0);
}
/* ---------------------------------------------------------------------- threads */
#define C(t, f, ...) ev("{\"e\":\"c\",\"t\":%d,\"o\":" f "}", t, ##__VA_ARGS__)
#define R(t, f, ...) ev("{\"e\":\"r\",\"t\":%d," f "}", t, ##__VA_ARGS__)
static uint64_t rs[4];
static unsigned rn(int t, unsigned n)
{ uint64_t z = (rs[t] += 0x9E3779B97F4A7C15ULL); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return (unsigned)((z ^ (z >> 31)) >> 11) % n; }
static int nth, budget[4], lap, itthread, maxreq, base0;
static void observe(int t)
{
  switch (rn(t, 4)) {
  case 0: if (mixed) break; C(t, "\"space\""); R(t, "\"r\":%ld", (long)(SPHLFLoggerFreeSpace(L) & 0x7fffffff)); break;
  case 1: if (mixed) break; C(t, "\"full\""); R(t, "\"r\":%d", !!SPHLFLoggerFull(L)); break;
  case 2: C(t, "\"empty\""); R(t, "\"r\":%d", !!SPHLFLoggerEmpty(L)); break;
  default: C(t, "\"wrapped\""); R(t, "\"r\":%d", !!SPHLFLoggerWrapped(L)); break;
  }
}
static void program(int t, void *a)
{
  (void)a;
  ent_t *own[16]; int n = 0, left = budget[t], opened = 0;
  while (left > 0 || n) {
    if (rn(t, 5) == 0) observe(t);
    if (t == itthread && rn(t, 2)) {
      if (!opened || rn(t, 5) == 0) { C(t, "\"open\",\"k\":0"); SPHLFLogIterator_t *r = SPHLFLoggerCreateIterator(L, &iter[0]); R(t, "\"r\":%d", r ? 0 : 1); opened = 1; }
      C(t, "\"next\",\"k\":0"); char *x = next_text(0); if (x) R(t, "%s", x); else R(t, "\"at\":-1");
    }
    if (left > 0 && (n == 0 || (n < 3 && rn(t, 3) == 0))) {
      int id = __atomic_add_fetch(&nid, 1, __ATOMIC_SEQ_CST);
      ent_t *x = &e[id - 1];
      int how = stride && (circ || rn(t, 3)) ? 1 : 0;
      long req = how ? 0 : (long)rn(t, maxreq);
      if (circ && stride && rn(t, 3) == 0) { how = 0; req = stride - 16; }
      codes(x, rn(t, 4096), rn(t, 256));
      C(t, "\"alloc\",\"i\":%d,\"how\":%d,\"req\":%ld,\"cat\":%d,\"sub\":%d", id, how, req, x->cat, x->sub);
      char *p = (char*)do_alloc(x, how, req);
      left--;
      if (!p) { R(t, "\"at\":-1"); continue; }
      int len = how ? stride : (int)((req + 31) & ~15L);
      R(t, "\"at\":%ld,\"next\":%ld,\"rem\":%d,\"tot\":%d", (long)(p - buf), (long)(x->h.next - p), x->h.remaining, x->h.total_size);
      x->at = p - buf; x->len = len; x->off = 16; x->done = 0;
      __atomic_store_n(&x->id, id, __ATOMIC_SEQ_CST);
      if (lap) continue;
      if (x->at >= 0 && x->at + len <= size) fill(p + 16, len - 16, id);
      own[n++] = x;
    }
    if (n && (n == 3 || left == 0 || rn(t, 2))) {
      int k = rn(t, n);
      C(t, "\"complete\",\"i\":%d", own[k]->id);
      int rc = do_complete(own[k], rn(t, 4));
      R(t, "\"r\":%d", rc);
      own[k] = own[--n];
    }
  }
}
static void *real_main(void *a) { program((int)(long)a, NULL); return a; }
static void conchist(hist_t *x, int real)
{
  int kind = rnd(5);       /* 0 1: simple, 2 3: a circular log that wraps once, 4: one that wraps again and again */
  nth = 2 + rnd(3);
  lap = 0; itthread = -1;
  int tot = 0;
  if (kind < 2) {
    int st = rnd(2) ? 16 * (1 + rnd(4)) : 0, entries = 2 + rnd(8);
    maxreq = 40 + rnd(60);
    mk(0, st, 256 + entries * (st ? st : 48) + 16 * rnd(4), 0, 0, 0);
    for (int t = 0; t < nth; t++) tot += budget[t] = 1 + rnd(real ? 12 : 5);
    if (rnd(2)) itthread = rnd(nth);
  } else if (kind < 4) {
    int K = nth + rnd(5), st = 16 * (1 + rnd(4)), full = rnd(3) ? K : K - 1;
    mk(0, st, 256 + K * st + 16 * rnd(st / 16), 1, rnd(4), 0);
    for (int k = 0; k < full; k++) { op_alloc(1, 0); op_complete(&e[nid - 1], 0); }
    for (int t = 0; t < nth; t++) budget[t] = 0;
    for (int k = 0; k < K; k++) budget[rnd(nth)]++;
  } else {
    int K = 1 + rnd(4), st = 16 * (1 + rnd(4)), full = rnd(K + 1);
    lap = 1;
    if (rnd(4) == 0) { st = 0; maxreq = 20 + rnd(60); K = 0; }
    mk(0, st, st ? 256 + K * st + 16 * rnd(st / 16) : 256 + 16 * (5 + rnd(10)), 1, rnd(4), 0);
    if (st) for (int k = 0; k < full; k++) op_alloc(1, 0);
    for (int t = 0; t < nth; t++) budget[t] = 1 + rnd(real ? 30 : 6);
  }
  for (int k = 0; k < nid; k++) e[k].live = 0;
  for (int t = 0; t < 4; t++) rs[t] = x->seed * 77 + t * 1001;
  if (real) {
    pthread_t p[4];
    for (int t = 0; t < nth; t++) pthread_create(&p[t], NULL, real_main, (void*)(long)t);
    for (int t = 0; t < nth; t++) pthread_join(p[t], NULL);
  } else {
#ifndef REAL
    sched_t s;
    sched_random(&s, x->seed);
    int rc = sched_run(nth, program, NULL, &s);
    if (rc) { ev("{\"e\":\"stuck\",\"why\":%d,\"who\":%d}", rc, sched_blocked_mask); _exit(0); }
#endif
  }
  (void)tot;
  if (!mixed) state();
  if (!lap) op_walk();
}
static void history(void *v)
{
  hist_t *x = (hist_t*)v;
  quiet();
  rnd_seed(x->seed, 191);
  switch (x->kind) {
  case 3: bighist(x); break;
  case 4: conchist(x, 0); break;
  case 5: conchist(x, 1); break;
  default: seqhist(x);
  }
}
int main(int argc, char **argv)
{
  ev_init();
  if (argc < 4) return 3;
  if (!strcmp(argv[1], "script")) {
    FILE *f = fopen(argv[2], "r");
    static char line[65536];
    int part = atoi(argv[3]), parts = atoi(argv[4]);
    if (!f) return 3;
    for (uint64_t k = 0; fgets(line, sizeof(line), f); k++) {
      if ((int)(k % parts) != part) continue;
      ev("{\"e\":\"reset\",\"k\":\"script\"}");
      hist_t h = { 0, k + 1, line, 0, 0, atoi(argv[5]), atoi(argv[6]) };
      in_child(history, &h, 20);
    }
  } else {
    uint64_t seed = atoll(argv[2]); int count = atoi(argv[3]); int len = atoi(argv[4]);
    const char *m = argv[1];
    int kind = !strcmp(m, "store") ? 2 : !strcmp(m, "big") ? 3 : !strcmp(m, "sched") ? 4 : !strcmp(m, "real") ? 5 : 1;
    for (int i = 0; i < count; i++) {
      ev("{\"e\":\"reset\",\"k\":\"%s\"}", m);
      hist_t h = { kind, seed * 1000003ULL + i, NULL, len, 0, 0, 0 };
      if (kind == 2) store_make("log");
      in_child(history, &h, 30);
      if (kind == 2) store_drop();
    }
  }
  ev_write(argv[argc - 1]);
  return 0;
}
