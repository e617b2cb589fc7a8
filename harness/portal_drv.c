/* Conformance driver for the log portal and its loggers: histories of one thread and of several. */
#define _GNU_SOURCE
#include "common.h"
#ifndef REAL
#include "vsched.h"
#endif
#include "sasalloc.h"
#include "sassim.h"
#include "sphlflogger.h"
#include "sphlflogentry.h"
#include "sphlogportal.h"
#include "sphthread.h"
#define MAXE 3000
#define MAXL 40
typedef struct { int id, lg, at, len, off, done, live, cat, sub, pid, tid; sphtimer_t t0, t1; SPHLFLoggerHandle_t h; } ent_t;
typedef struct { SPHLFLogger_t L; char *buf, *lo, *hi; long size, stride; int circ, added; } lg_t;
static SPHLogPortal_t P;
static char *pbuf, *plo, *phi; static long psize;
static lg_t lg[MAXL]; static int nlg, nadd, cap;
static ent_t e[MAXE]; static int nid;
static SPHLFPortalIterator_t iter[3]; static int iton[3];
static int all_ok(void)
{
  for (int k = 0; k < nid; k++)
    if (e[k].live && !intact(lg[e[k].lg].buf + e[k].at + e[k].off, e[k].len - e[k].off, e[k].id)) return 0;
  for (int k = 0; k < nlg; k++) if (lg[k].lo && !(intact(lg[k].lo, 256, 777) && intact(lg[k].hi, 256, 888))) return 0;
  return !plo || (intact(plo, 256, 777) && intact(phi, 256, 888));
}
static int ok_some(void) { return nid < 40 || rnd(16) == 0 ? all_ok() : 1; }
static int name(SPHLFLogger_t l) { if (!l) return -1; for (int k = 0; k < nlg; k++) if (lg[k].L == l) return k; return -2; }
static int where(char *p) { for (int k = 0; k < nlg; k++) if (p >= lg[k].buf && p < lg[k].buf + lg[k].size) return k; return -2; }
static void state(void)
{
  int of = rnd(3) ? (int)rnd(nadd + 2) : (int)rnd(cap + 4) - 2;
  ev("{\"e\":\"state\",\"empty\":%d,\"entries\":%d,\"cap\":%d,\"current\":%d,\"index\":%d,\"of\":%d,\"at\":%d,\"ok\":%d}", !!SPHLogPortalEmpty(P), SPHLogPortalEntries(P), SPHLogPortalCapacity(P),
     name(SPHLogPortalGetCurrentLogger(P)), SPHLogPortalGetCurrentIndex(P), of, name(SPHLogPortalGetLoggerByIndex(P, of)), ok_some());
  if (nlg && rnd(2)) { int x = rnd(nlg); ev("{\"e\":\"logstate\",\"x\":%d,\"space\":%ld,\"ok\":1}", x, (long)(SPHLFLoggerFreeSpace(lg[x].L) & 0x7fffffff)); }
}
static void *do_alloc(ent_t *x, int how, long req)
{
  memset(&x->h, 0, sizeof(x->h));
  x->t0 = sphgettimer(); x->pid = getpid(); x->tid = sphdeGetTID();
  SPHLFLoggerHandle_t *h = NULL; void *p = NULL;
  switch (how) {
  case 0: h = SPHLogPortalAllocTimeStamped(P, x->cat, x->sub, req, &x->h); break;
  case 1: h = SPHLogPortalAllocStrideTimeStamped(P, x->cat, x->sub, &x->h); break;
  default: p = SPHLogPortalAllocRaw(P, req);
  }
  x->t1 = sphgettimer();
  return how == 4 ? p : h ? (void*)x->h.entry : NULL;
}
static void op_alloc(int how, long req)
{
  ent_t *x = &e[nid];
  x->cat = rnd(4096); x->sub = rnd(256);
  char *p = (char*)do_alloc(x, how, req);
  if (!p) { ev("{\"e\":\"allocfail\",\"how\":%d,\"req\":%ld,\"ok\":%d}", how, req, ok_some()); return; }
  int g = where(p);
  if (g < 0) { ev("{\"e\":\"alloc\",\"how\":%d,\"i\":0,\"req\":%ld,\"lg\":-2,\"ok\":0}", how, req); _exit(0); }
  int n = how == 1 ? lg[g].stride : (int)((req + (how == 4 ? 0 : 16) + 15) & ~15L);
  long at = p - lg[g].buf, next = how == 4 ? 0 : x->h.next - p, rem = how == 4 ? n : x->h.remaining, tot = how == 4 ? n : x->h.total_size;
  int in = next >= 0 && at + next + rem <= lg[g].size && nid < MAXE - 1;
  if (in) {
    for (int k = 0; k < nid; k++)
      if (e[k].live && e[k].lg == g && e[k].at < at + n && at < e[k].at + e[k].len) { e[k].live = 0; iton[0] = iton[1] = iton[2] = 0; }
    x->id = ++nid; x->lg = g; x->at = at; x->len = n; x->off = next; x->done = 0; x->live = 1;
    fill(p + next, n - next, x->id);
  }
  ev("{\"e\":\"alloc\",\"how\":%d,\"i\":%d,\"req\":%ld,\"lg\":%d,\"at\":%ld,\"next\":%ld,\"rem\":%ld,\"tot\":%ld,\"cat\":%d,\"sub\":%d,\"ok\":%d}", how, x->id, req, g, at, next, rem, tot, x->cat, x->sub, in && ok_some());
}
static void op_complete(ent_t *x, int how)
{
  int rc = how ? SPHLFLogEntryComplete(&x->h) : SPHLFLoggerEntryComplete(&x->h);
  x->done = 1;
  ev("{\"e\":\"complete\",\"i\":%d,\"rc\":%d,\"ok\":%d}", x->id, rc, ok_some());
}
static void some_complete(void)
{
  if (!nid) return;
  int k = rnd(3) ? rnd(nid) : 0;
  for (int t = 0; t < nid && (!e[k].live || e[k].done || !e[k].off); t++) k = (k + 1) % nid;
  if (e[k].live && !e[k].done && e[k].off) op_complete(&e[k], rnd(2));
}
static int which(SPHLFLoggerHandle_t *s, int g, long at, int tot)
{
  for (int k = nid - 1; k >= 0; k--) {
    ent_t *x = &e[k];
    if (!x->id || x->lg != g || x->at != at || x->len != tot) continue;
    if (!intact(lg[g].buf + at + 16, tot - 16, x->id)) continue;
    if (x->cat != SPHLFLogEntryCategory(s) || x->sub != SPHLFLogEntrySubcat(s)) continue;
    if (SPHLFLogEntryPID(s) != (sphpid16_t)x->pid || SPHLFLogEntryTID(s) != (sphpid16_t)x->tid) continue;
    sphtimer_t t = SPHLFLogEntryTimeStamp(s);
    if (t < x->t0 || t > x->t1) continue;
    return x->id;
  }
  return 0;
}
static char *next_text(int k)
{
  static __thread char t[400];
  SPHLFLoggerHandle_t s, *h;
  memset(&s, 0, sizeof s);
  h = SPHLFPortalIteratorNext(&iter[k], &s);
  if (!h) return NULL;
  int g = where((char*)s.entry);
  if (h != &s || g < 0) { snprintf(t, 400, "\"lg\":-2,\"at\":-2,\"tot\":0,\"next\":0,\"rem\":0,\"cat\":0,\"sub\":0,\"ts\":0,\"i\":0"); return t; }
  long at = (char*)s.entry - lg[g].buf;
  int in = at + s.total_size <= lg[g].size && at >= 0;
  snprintf(t, 400, "\"lg\":%d,\"at\":%ld,\"tot\":%d,\"next\":%ld,\"rem\":%d,\"cat\":%d,\"sub\":%d,\"ts\":%d,\"i\":%d", g, at, s.total_size, (long)(s.next - (char*)s.entry), s.remaining,
     SPHLFLogEntryCategory(&s), SPHLFLogEntrySubcat(&s), !!SPHLFLogEntryIsTimestamped(&s), in && SPHLFLogEntryIsComplete(&s) ? which(&s, g, at, s.total_size) : 0);
  return t;
}
static void op_open(int k)
{
  SPHLFPortalIterator_t *r = SPHLFPortalCreateIterator(P, &iter[k]);
  iton[k] = r != NULL;
  ev("{\"e\":\"open\",\"k\":%d,\"r\":%d,\"ok\":%d}", k, r != NULL, (!r || r == &iter[k]) && ok_some());
}
static int op_next(int k)
{
  char *t = next_text(k);
  if (t) ev("{\"e\":\"next\",\"k\":%d,%s,\"ok\":%d}", k, t, ok_some()); else ev("{\"e\":\"nextnone\",\"k\":%d,\"ok\":%d}", k, ok_some());
  return t != NULL;
}
static void op_walk(void)
{
  op_open(2);
  if (!iton[2]) return;
  int n = 0;
  while (op_next(2) && n < nid + 3) n++;
  if (rnd(2)) op_next(2);
}
static void op_clear(int g)
{
  int rc = SPHLFLoggerResetAsync(lg[g].L);
  for (int k = 0; k < nid; k++) if (e[k].lg == g) e[k].live = 0;
  iton[0] = iton[1] = iton[2] = 0;
  ev("{\"e\":\"clear\",\"x\":%d,\"rc\":%d,\"ok\":%d}", g, rc, all_ok());
}
static void op_add(int g)
{
  SPHLFLogger_t r = SPHLogPortalAddLogger(P, lg[g].L);
  if (r) { lg[g].added = 1; nadd++; }
  ev("{\"e\":\"add\",\"x\":%d,\"r\":%d,\"ok\":%d}", g, r != NULL, (!r || r == lg[g].L) && ok_some());
}
static void op_wrong(void)
{
  static char other[512];
  SPHLFLoggerHandle_t h; SPHLFPortalIterator_t it;
  SPHLogPortal_t o = (SPHLogPortal_t)other;
  memset(&it, 0, sizeof it);
  it.portal = o;
  int r = !SPHLogPortalAddLogger(P, (SPHLFLogger_t)other) && !SPHLogPortalAddLogger(P, (SPHLFLogger_t)P) && (!nlg || !SPHLogPortalAddLogger(o, lg[0].L))
    && !SPHLogPortalAllocTimeStamped(o, 1, 2, 16, &h) && !SPHLogPortalAllocStrideTimeStamped(o, 1, 2, &h) && !SPHLogPortalAllocRaw(o, 16)
    && !SPHLogPortalGetCurrentLogger(o) && !SPHLogPortalGetLoggerByIndex(o, 0) && SPHLogPortalGetCurrentIndex(o) == -1 && SPHLogPortalEntries(o) == -1 && !SPHLogPortalCapacity(o)
    && !SPHLFPortalCreateIterator(o, &it) && !SPHLFPortalIteratorNext(&it, &h) && SPHLogPortalDestroy(o);
  for (int i = 0; i < 512; i++) if (other[i]) r = 0;
  ev("{\"e\":\"wrong\",\"r\":%d,\"ok\":%d}", r, ok_some());
}
static char *guarded(long sz, char **lo, char **hi, int dirty)
{
  char *m = (char*)aligned_alloc(4096, (sz + 3 * 4096) & ~4095L), *b = m + 4096;
  *lo = b - 256; *hi = b + sz;
  fill(*lo, 256, 777); fill(*hi, 256, 888);
  switch (dirty) {
  case 0: memset(b, 0, sz); break;
  case 1: memset(b, 0xff, sz); break;
  case 2: memset(b, 0x01, sz); break;
  default: for (char *p = b; p < b + sz; p++) *p = rnd(256);
  }
  return b;
}
static void mk(int store, long sz, int dirty)
{
  nid = nlg = nadd = 0; iton[0] = iton[1] = iton[2] = 0;
  if (store) { P = SPHLogPortalCreate(sz); pbuf = (char*)P; plo = NULL; if (!P) { ev("{\"e\":\"nocreate\"}"); _exit(0); } }
  else { pbuf = guarded(sz, &plo, &phi, dirty); P = SPHLogPortalInit(pbuf, sz); }
  psize = sz; cap = SPHLogPortalCapacity(P);
  ev("{\"e\":\"create\",\"bytes\":%ld,\"cap\":%d,\"ok\":%d}", sz, cap, (char*)P == pbuf && all_ok());
  if (dirty && rnd(2)) op_open(0);       /* nothing there yet */
}
static int mklog(int store, int stride, long sz, int circ, int dirty)
{
  lg_t *g = &lg[nlg];
  memset(g, 0, sizeof *g);
  if (store) {
    g->L = circ ? SPHLFCircularLoggerCreate(sz, stride) : SPHLFLoggerCreate(sz);
    if (!g->L) { ev("{\"e\":\"nocreate\"}"); _exit(0); }
    g->buf = (char*)g->L;
    if (!circ) stride = 0;
  } else {
    g->buf = guarded(sz, &g->lo, &g->hi, dirty);
    g->L = stride || circ ? SPHLFLoggerInitWithStride(g->buf, sz, stride, circ ? SPHLFLOGGER_CIRCULAR : 0) : SPHLFLoggerInit(g->buf, sz);
  }
  g->size = sz; g->circ = circ; g->stride = (stride + 15) / 16 * 16;
  ev("{\"e\":\"mklog\",\"x\":%d,\"stride\":%ld,\"circ\":%d,\"bytes\":%ld,\"space\":%ld,\"ok\":1}", nlg, g->stride, circ, sz, (long)(SPHLFLoggerFreeSpace(g->L) & 0x7fffffff));
  return nlg++;
}
typedef struct { int kind; uint64_t seed; char *script; int len, cap, over, circ; } hist_t;
static void script(hist_t *x)
{
  static const int two[] = { 2, 3, 2 }, over[] = { 1, 2, 2 };
  const int *sz = x->over ? over : two;
  sop_t ops[64];
  int unit = 32 + 16 * rnd(4);
  mk(0, 256 + 16 * x->cap + rnd(16), rnd(4));
  for (int k = 0; k < 3; k++) mklog(0, rnd(2) || k == x->circ - 1 ? unit : 0, 256 + (long)sz[k] * unit, k == x->circ - 1, rnd(4));
  int k = parse_script(x->script, ops, 64);
  for (int i = 0; i < k; i++) {
    int a = ops[i].a[0], strided = 1;
    for (int j = 0; j < nlg; j++) if (!lg[j].stride) strided = 0;
    switch (ops[i].op[0]) {
    case 'D': op_add(a); break;
    case 'A': if (a == 1 && strided && rnd(2)) op_alloc(1, 0); else op_alloc(0, a * unit - 16 - rnd(16)); break;
    case 'C': for (int j = 0; j < nid; j++) if (e[j].id == a) op_complete(&e[j], rnd(2)); break;
    case 'O': op_open(0); break;
    case 'N': if (iton[0]) op_next(0); break;
    case 'R': op_clear(a); break;
    }
    state();
  }
  op_walk();
}
static void randhist(hist_t *x)
{
  int store = x->kind == 2;
  if (store && SASJoinRegion()) { ev("{\"e\":\"nojoin\"}"); return; }
  for (int round = 0; round < (store ? 2 : 1); round++) {
    int c = 1 + rnd(rnd(4) ? 4 : 30);
    mk(store, store ? 4096L << rnd(4) : 256 + 16L * c + rnd(16), rnd(4));
    int st = rnd(3) ? 16 * (2 + rnd(10)) : 0, circs = st && rnd(3) == 0, raw = !circs && rnd(6) == 0, sole = 0;
    if (store) { if (circs) sole = 1; else st = 0; }
    for (int i = 0; i < x->len && nid < MAXE - 3; i++) {
      switch (rnd(14)) {
      case 0: if (nlg < MAXL - 1 && (rnd(3) == 0 || !nlg)) { int cc = sole || (circs && !raw && rnd(2)); mklog(store, st, store ? 4096L << rnd(2) : 256 + 16 * (1 + rnd(rnd(2) ? 12 : 60)) + (st ? st : 0), cc, rnd(4)); } break;
      case 1: if (rnd(3) == 0) for (int g = 0; g < nlg; g++) if (!lg[g].added) { op_add(g); break; } break;
      case 2: case 3: case 4: case 5: case 6: {
        int how = st && (rnd(3) || circs) ? 1 : 0;
        long req = rnd(rnd(3) ? 100 : 300);
        if (st && circs && rnd(3) == 0) { how = 0; req = st - 16; }
        if (raw && rnd(2)) { how = 4; req = 1 + rnd(100); }
        if (!circs && rnd(60) == 0) { how = 0; req = rnd(1200); }
        op_alloc(how, req);
        break; }
      case 7: case 8: case 9: some_complete(); break;
      case 10: { int k = rnd(2); if (raw) break; if (iton[k] && rnd(4)) op_next(k); else op_open(k); break; }
      case 11: if (!raw && rnd(nid / 8 + 1) == 0) op_walk(); break;
      case 12: state(); break;
      default: switch (rnd(8)) { case 0: if (nlg && rnd(3) == 0) op_clear(rnd(nlg)); break; case 1: op_wrong(); break; default: state(); }
      }
    }
    (void)sole;
    state();
    if (!raw) op_walk();
    if (store) {
      int rc = SPHLogPortalDestroy(P);
      for (int g = 0; g < nlg; g++) rc |= SPHLFLoggerDestroy(lg[g].L);
      nid = nlg = 0;
      ev("{\"e\":\"destroy\",\"rc\":%d,\"ok\":1}", rc);
    }
  }
  if (store) SASRemove();
}
/* ---------------------------------------------------------------------- threads */
#define C(t, f, ...) ev("{\"e\":\"c\",\"t\":%d,\"o\":" f "}", t, ##__VA_ARGS__)
#define R(t, f, ...) ev("{\"e\":\"r\",\"t\":%d," f "}", t, ##__VA_ARGS__)
static uint64_t rs[4];
static unsigned rn(int t, unsigned n)
{ uint64_t z = (rs[t] += 0x9E3779B97F4A7C15ULL); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return (unsigned)((z ^ (z >> 31)) >> 11) % n; }
static int nth, budget[4], adds[4], itthread, maxreq, strided, pooled;
static void observe(int t)
{
  switch (rn(t, 5)) {
  case 0: C(t, "\"empty\""); R(t, "\"r\":%d", !!SPHLogPortalEmpty(P)); break;
  case 1: C(t, "\"entries\""); R(t, "\"r\":%d", SPHLogPortalEntries(P)); break;
  case 2: C(t, "\"current\""); R(t, "\"r\":%d", name(SPHLogPortalGetCurrentLogger(P))); break;
  case 3: C(t, "\"index\""); R(t, "\"r\":%d", SPHLogPortalGetCurrentIndex(P)); break;
  default: { int n = rn(t, cap + 1); C(t, "\"of\",\"n\":%d", n); R(t, "\"r\":%d", name(SPHLogPortalGetLoggerByIndex(P, n))); }
  }
}
static void program(int t, void *a)
{
  (void)a;
  ent_t *own[16]; int n = 0, left = budget[t], addl = adds[t], opened = 0;
  while (left > 0 || n || addl) {
    if (rn(t, 5) == 0) observe(t);
    if (addl && rn(t, 3) == 0) {
      int x = __atomic_fetch_add(&pooled, 1, __ATOMIC_SEQ_CST);
      addl--;
      C(t, "\"add\",\"x\":%d", x);
      SPHLFLogger_t r = SPHLogPortalAddLogger(P, lg[x].L);
      R(t, "\"r\":%d", !r ? 0 : r == lg[x].L ? 1 : 9);
    }
    if (t == itthread && rn(t, 2)) {
      if (!opened || rn(t, 5) == 0) { C(t, "\"open\",\"k\":0"); SPHLFPortalIterator_t *r = SPHLFPortalCreateIterator(P, &iter[0]); R(t, "\"r\":%d", r ? 1 : 0); opened = r != NULL; }
      if (opened) { C(t, "\"next\",\"k\":0"); char *x = next_text(0); if (x) R(t, "%s", x); else R(t, "\"lg\":-1,\"at\":-1"); }
    }
    if (left > 0 && (n == 0 || (n < 3 && rn(t, 3) == 0))) {
      int id = __atomic_add_fetch(&nid, 1, __ATOMIC_SEQ_CST);
      ent_t *x = &e[id - 1];
      int how = strided && rn(t, 3) ? 1 : 0;
      long req = how ? 0 : (long)rn(t, maxreq);
      x->cat = rn(t, 4096); x->sub = rn(t, 256);
      C(t, "\"alloc\",\"i\":%d,\"how\":%d,\"req\":%ld,\"cat\":%d,\"sub\":%d", id, how, req, x->cat, x->sub);
      char *p = (char*)do_alloc(x, how, req);
      left--;
      if (!p) { R(t, "\"lg\":-1"); continue; }
      int g = where(p);
      int len = how ? (g >= 0 ? lg[g].stride : 16) : (int)((req + 31) & ~15L);
      R(t, "\"lg\":%d,\"at\":%ld,\"next\":%ld,\"rem\":%d,\"tot\":%d", g, g < 0 ? 0 : (long)(p - lg[g].buf), (long)(x->h.next - p), x->h.remaining, x->h.total_size);
      if (g < 0) _exit(0);
      x->lg = g; x->at = p - lg[g].buf; x->len = len; x->off = 16; x->done = 0;
      __atomic_store_n(&x->id, id, __ATOMIC_SEQ_CST);
      if (x->at >= 0 && x->at + len <= lg[g].size) fill(p + 16, len - 16, id);
      own[n++] = x;
    }
    if (n && (n == 3 || left == 0 || rn(t, 2))) {
      int k = rn(t, n);
      C(t, "\"complete\",\"i\":%d", own[k]->id);
      R(t, "\"r\":%d", SPHLFLoggerEntryComplete(&own[k]->h));
      own[k] = own[--n];
    }
  }
}
static void *real_main(void *a) { program((int)(long)a, NULL); return a; }
static void conchist(hist_t *x, int real)
{
  int st = rnd(2) ? 16 * (2 + rnd(3)) : 0, logs = 2 + rnd(4), c = rnd(4) ? logs + rnd(2) : 1 + rnd(logs), first = rnd(3);
  nth = 2 + rnd(real ? 3 : 2);
  itthread = rnd(3) == 0 ? (int)rnd(nth) : -1;
  strided = st != 0; maxreq = rnd(3) ? 20 + rnd(50) : 150;
  mk(0, 256 + 16L * c, rnd(2));
  for (int k = 0; k < logs; k++) mklog(0, st, 256 + 16 * rnd(3) + (1 + rnd(4)) * (st ? st : 48), 0, 0);
  if (first > logs) first = logs;
  for (int k = 0; k < first; k++) op_add(k);
  pooled = first;
  for (int t = 0; t < nth; t++) { budget[t] = 1 + rnd(real ? 10 : 6); adds[t] = 0; rs[t] = x->seed * 77 + t * 1001; }
  for (int k = first; k < logs; k++) adds[rnd(nth)]++;
  if (real) {
    pthread_t p[4];
    for (int t = 0; t < nth; t++) pthread_create(&p[t], NULL, real_main, (void*)(long)t);
    for (int t = 0; t < nth; t++) pthread_join(p[t], NULL);
  } else {
#ifndef REAL
    sched_t s;
    sched_random(&s, x->seed);
    int rc = sched_run(nth, program, NULL, &s);
    if (rc) { ev("{\"e\":\"stuck\",\"why\":%d,\"who\":%d}", rc, sched_blocked_mask); _exit(0); }
#endif
  }
  state(); state();
  op_walk();
}
static void history(void *v)
{
  hist_t *x = (hist_t*)v;
  quiet();
  rnd_seed(x->seed, 211);
  switch (x->kind) {
  case 0: script(x); break;
  case 4: conchist(x, 0); break;
  case 5: conchist(x, 1); break;
  default: randhist(x);
  }
}
int main(int argc, char **argv)
{
  ev_init();
  if (argc < 4) return 3;
  if (!strcmp(argv[1], "script")) {
    FILE *f = fopen(argv[2], "r");
    static char line[65536];
    int part = atoi(argv[3]), parts = atoi(argv[4]);
    if (!f) return 3;
    for (uint64_t k = 0; fgets(line, sizeof(line), f); k++) {
      if ((int)(k % parts) != part) continue;
      ev("{\"e\":\"reset\",\"k\":\"script\"}");
      hist_t h = { 0, k + 1, line, 0, atoi(argv[5]), atoi(argv[6]), atoi(argv[7]) };
      in_child(history, &h, 20);
    }
  } else {
    uint64_t seed = atoll(argv[2]); int count = atoi(argv[3]); int len = atoi(argv[4]);
    const char *m = argv[1];
    int kind = !strcmp(m, "store") ? 2 : !strcmp(m, "sched") ? 4 : !strcmp(m, "real") ? 5 : 1;
    for (int i = 0; i < count; i++) {
      ev("{\"e\":\"reset\",\"k\":\"%s\"}", m);
      hist_t h = { kind, seed * 1000003ULL + i, NULL, len, 0, 0, 0 };
      if (kind == 2) store_make("portal");
      in_child(history, &h, 30);
      if (kind == 2) store_drop();
    }
  }
  ev_write(argv[argc - 1]);
  return 0;
}
