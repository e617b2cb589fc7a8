/* Conformance driver for sorted maps: SASIndex and SASStringBTree, with their enumerations. */
#include "common.h"
#include "sasalloc.h"
#include "sassim.h"
#include "sasindex.h"
#include "sasindexenum.h"
#include "sasstringbtree.h"
#include "sasstringbtreeenum.h"
#include "saslock.h"
#define MAXU 8192
#define MAXM 3
#define MAXE 4
static int strings;                 /* which kind of map this run is about */
static int noenum;                   /* leave enumerations out */
static int N, ktype;                /* universe size, kind of keys */
static SASIndexKey_t ukey[MAXU];
static char *ustr[MAXU];
static double udbl[MAXU]; static unsigned long long uint_[MAXU];
static helper_t other;
typedef struct { int id; void *h; unsigned char ver[MAXU]; int live[MAXU]; int cnt; } map_t;
typedef struct { int id; void *h; int m; int last; int used; } enum_t;
static map_t mp[MAXM]; static int nm, mapid;
static enum_t en[MAXE]; static int enid;

typedef struct { int op; map_t *m; enum_t *e; int k; long v; int start; int locked; void *r; long n; } call_t;
enum { PUT, REP, REM, GET, HAS, EMPTY, MIN, MAX, COUNT, ENUM, NEXT, MORE, CUR };
static void do_index(call_t *c)
{
  void *h = c->m ? c->m->h : NULL; SASIndexKey_t *k = &ukey[c->k < 0 ? 0 : c->k];
  SASIndexKey_t copy; copy = *k;    /* the caller's key is its own: a copy that goes away afterwards */
  k = &copy;
  int L = c->locked;
  switch (c->op) {
  case PUT: c->n = L ? SASIndexPut(h, k, (void*)c->v) : SASIndexPut_nolock(h, k, (void*)c->v); break;
  case REP: c->r = L ? SASIndexReplace(h, k, (void*)c->v) : SASIndexReplace_nolock(h, k, (void*)c->v); break;
  case REM: c->r = L ? SASIndexRemove(h, k) : SASIndexRemove_nolock(h, k); break;
  case GET: c->r = L ? SASIndexGet(h, k) : SASIndexGet_nolock(h, k); break;
  case HAS: c->n = SASIndexContainsKey(h, k); break;
  case EMPTY: c->n = L ? SASIndexIsEmpty(h) : SASIndexIsEmpty_nolock(h); break;
  case MIN: c->r = L ? SASIndexGetMinKey(h) : SASIndexGetMinKey_nolock(h); break;
  case MAX: c->r = L ? SASIndexGetMaxKey(h) : SASIndexGetMaxKey_nolock(h); break;
  case ENUM: c->r = SASIndexEnumCreate(h); break;
  case NEXT: c->r = L ? SASIndexEnumNext(c->e->h) : SASIndexEnumNext_nolock(c->e->h); break;
  case MORE: c->n = SASIndexEnumHasMore(c->e->h); break;
  }
  memset(&copy, 0x5a, sizeof(copy));
}
static void do_string(call_t *c)
{
  void *h = c->m ? c->m->h : NULL;
  int L = c->locked;
  char *k = c->k >= 0 ? strdup(ustr[c->k]) : strdup("");
  switch (c->op) {
  case PUT: c->n = L ? SASStringBTreePut(h, k, (void*)c->v) : SASStringBTreePut_nolock(h, k, (void*)c->v); break;
  case REP: c->r = L ? SASStringBTreeReplace(h, k, (void*)c->v) : SASStringBTreeReplace_nolock(h, k, (void*)c->v); break;
  case REM: c->r = L ? SASStringBTreeRemove(h, k) : SASStringBTreeRemove_nolock(h, k); break;
  case GET: c->r = L ? SASStringBTreeGet(h, k) : SASStringBTreeGet_nolock(h, k); break;
  case HAS: c->n = L ? SASStringBTreeContainsKey(h, k) : SASStringBTreeContainsKey_nolock(h, k); break;
  case EMPTY: c->n = L ? SASStringBTreeIsEmpty(h) : SASStringBTreeIsEmpty_nolock(h); break;
  case MIN: c->r = L ? SASStringBTreeGetMinKey(h) : SASStringBTreeGetMinKey_nolock(h); break;
  case MAX: c->r = L ? SASStringBTreeGetMaxKey(h) : SASStringBTreeGetMaxKey_nolock(h); break;
  case COUNT: c->n = SASStringBTreeGetCurCount(h); break;
  case ENUM: c->r = c->start < 0 ? SASStringBTreeEnumCreate(h) : SASStringBTreeEnumCreateStartAt(h, k); break;
  case NEXT: c->r = L ? SASStringBTreeEnumNext(c->e->h) : SASStringBTreeEnumNext_nolock(c->e->h); break;
  case MORE: c->n = SASStringBTreeEnumHasMore(c->e->h); break;
  case CUR: c->r = SASStringBTreeEnumCurrent(c->e->h); break;
  }
  memset(k, 0x5a, strlen(k)); free(k);
}
static void do_call(void *v) { call_t *c = (call_t*)v; if (strings) do_string(c); else do_index(c); }
static call_t go(call_t c)
{
  c.locked = rnd(2);
  if (c.locked && rnd(2)) helper_run(&other, do_call, &c); else do_call(&c);
  return c;
}
static int rank_of(void *p)
{
  if (!p) return -1;
  for (int i = 0; i < N; i++)
    if (strings ? !strcmp((char*)p, ustr[i])
                : (((SASIndexKey_t*)p)->copy_size == ukey[i].copy_size && !memcmp(p, &ukey[i], ukey[i].copy_size))) return i;
  return -2;
}
static long rank_quick(void *p, int hint) { return (hint >= 0 && hint < N && p && (strings ? !strcmp((char*)p, ustr[hint]) : !memcmp(p, &ukey[hint], ukey[hint].copy_size))) ? hint : rank_of(p); }
/* what the driver believes (hints for choosing operations only; the specification decides) */
static long fresh(map_t *m, int k) { m->ver[k] = m->ver[k] == 255 ? 1 : m->ver[k] + 1; return (long)k * 256 + m->ver[k]; }
static void op_put(map_t *m, int k)
{
  long v = fresh(m, k);
  call_t c = go((call_t){ PUT, m, NULL, k, v });
  if (c.n == 1 && !m->live[k]) { m->live[k] = 1; m->cnt++; }
  ev("{\"e\":\"put\",\"m\":%d,\"k\":%d,\"v\":%ld,\"rc\":%ld}", m->id, k, v, c.n);
}
static void op_rep(map_t *m, int k)
{
  long v = fresh(m, k);
  call_t c = go((call_t){ REP, m, NULL, k, v });
  ev("{\"e\":\"rep\",\"m\":%d,\"k\":%d,\"v\":%ld,\"old\":%ld}", m->id, k, v, (long)c.r & 0x3fffffff);
}
static void op_rem(map_t *m, int k)
{
  call_t c = go((call_t){ REM, m, NULL, k });
  if (m->live[k]) { m->live[k] = 0; m->cnt--; }
  ev("{\"e\":\"rem\",\"m\":%d,\"k\":%d,\"old\":%ld}", m->id, k, (long)c.r & 0x3fffffff);
}
static void op_get(map_t *m, int k)
{
  call_t c = go((call_t){ rnd(3) ? GET : HAS, m, NULL, k });
  if (c.op == GET) ev("{\"e\":\"get\",\"m\":%d,\"k\":%d,\"r\":%ld}", m->id, k, (long)c.r & 0x3fffffff);
  else ev("{\"e\":\"has\",\"m\":%d,\"k\":%d,\"r\":%ld}", m->id, k, c.n);
}
static void op_state(map_t *m)
{
  call_t c = go((call_t){ EMPTY, m });
  ev("{\"e\":\"empty\",\"m\":%d,\"r\":%ld}", m->id, c.n);
  int lo = 0, hi = N - 1;
  while (lo < N - 1 && !m->live[lo]) lo++;
  while (hi > 0 && !m->live[hi]) hi--;
  c = go((call_t){ MIN, m });
  ev("{\"e\":\"min\",\"m\":%d,\"k\":%ld}", m->id, rank_quick(c.r, lo));
  c = go((call_t){ MAX, m });
  ev("{\"e\":\"max\",\"m\":%d,\"k\":%ld}", m->id, rank_quick(c.r, hi));
  if (strings) { c = go((call_t){ COUNT, m }); ev("{\"e\":\"count\",\"m\":%d,\"r\":%ld}", m->id, c.n); }
}
static void op_more(enum_t *e)
{ call_t c = go((call_t){ MORE, NULL, e, -1 }); ev("{\"e\":\"more\",\"en\":%d,\"r\":%d}", e->id, c.n != 0); }
static void op_enum(enum_t *e, map_t *m, int start)
{
  if (noenum) { e->used = 0; return; }
  call_t c = go((call_t){ ENUM, m, NULL, start, 0, start });
  e->id = enid++;
  if (!c.r) { ev("{\"e\":\"noenum\",\"m\":%d,\"start\":%d}", m->id, start < 0 ? 0 : start); e->used = 0; return; }
  e->h = c.r; e->m = m->id; e->used = 1; e->last = -1;
  ev("{\"e\":\"enum\",\"en\":%d,\"m\":%d,\"start\":%d}", e->id, m->id, start < 0 ? 0 : start);
  if (rnd(2)) op_more(e);
}
static int op_next(enum_t *e)
{
  call_t c = go((call_t){ NEXT, NULL, e, -1 });
  long v = (long)c.r & 0x3fffffff;
  ev("{\"e\":\"next\",\"en\":%d,\"v\":%ld}", e->id, v);
  if (strings && v && rnd(2)) { c = go((call_t){ CUR, NULL, e, -1 }); ev("{\"e\":\"cur\",\"en\":%d,\"k\":%ld}", e->id, rank_quick(c.r, v / 256)); }
  if (rnd(2)) op_more(e);
  return v != 0;
}
static void op_run(enum_t *e, int n)
{
  static char b[8000]; int p = 0, i; long v = 0;
  for (i = 0; i < n && p < 7900; i++) {
    call_t c = go((call_t){ NEXT, NULL, e, -1 });
    v = (long)c.r & 0x3fffffff;
    if (!v) break;
    p += sprintf(b + p, "%s%ld", i ? "," : "", v);
  }
  if (i) ev("{\"e\":\"run\",\"en\":%d,\"vs\":[%s]}", e->id, b);
  if (i < n && !v) ev("{\"e\":\"next\",\"en\":%d,\"v\":0}", e->id);
  op_more(e);
}
static void op_drop(enum_t *e)
{
  if (strings) SASStringBTreeEnumDestroy(e->h); else SASIndexEnumDestroy(e->h);
  e->used = 0;
  ev("{\"e\":\"drop\",\"en\":%d}", e->id);
}
static void op_walk(map_t *m, int all)
{
  enum_t e; memset(&e, 0, sizeof(e));
  op_enum(&e, m, strings && rnd(2) ? (int)rnd(N) : -1);
  if (!e.used) return;
  int left = all ? N + 2 : (int)rnd(N) + 1;
  while (left > 0) { int n = left < 500 ? left : 500; op_run(&e, n); left -= n; }
  op_drop(&e);
}
static map_t *mk_map(void)
{
  map_t *m = &mp[nm];
  memset(m, 0, sizeof(*m));
  m->id = mapid++;
  /* some dirt first: a block that was used before */
  long size = 4096L << (ktype == 9 ? 4 : 1 + rnd(8));
  if (N > 1000) size = 65536L << rnd(4);
  if (strings && N <= 1000 && size < 65536 && rnd(2)) size = 65536;
  void *d = SASBlockAlloc(size);
  if (d) { memset(d, 0xAA, size); SASBlockDealloc(d, size); }
  int fixed = rnd(3) == 0;
  if (fixed) {
    size = 1L << 21;
    d = SASBlockAlloc(size); if (d) { memset(d, 0xAA, size); SASBlockDealloc(d, size); }
    m->h = strings ? SASStringBTreeFixedCreate(size) : SASIndexFixedCreate(size);
  } else
    m->h = strings ? SASStringBTreeCreate(size) : SASIndexCreate(size);
  ev("{\"e\":\"mk\",\"m\":%d,\"n\":%d,\"kind\":\"%s\",\"kt\":%d,\"size\":%ld,\"fixed\":%d,\"ok\":%d}", m->id, N, strings ? "string" : "index", ktype, size, fixed, m->h != NULL);
  if (!m->h) _exit(0);
  nm++;
  return m;
}
static void del_map(map_t *m)
{
  for (int i = 0; i < MAXE; i++) if (en[i].used && en[i].m == m->id) op_drop(&en[i]);
  if (strings) SASStringBTreeDestroy(m->h); else SASIndexDestroy(m->h);
  ev("{\"e\":\"del\",\"m\":%d}", m->id);
}
/* ---- universes ---- */
static int cmp_ull(const void *a, const void *b) { unsigned long long x = *(unsigned long long*)a, y = *(unsigned long long*)b; return x < y ? -1 : x > y; }
static int cmp_ll(const void *a, const void *b) { long long x = *(long long*)a, y = *(long long*)b; return x < y ? -1 : x > y; }
static int cmp_d(const void *a, const void *b) { double x = *(double*)a, y = *(double*)b; return x < y ? -1 : x > y; }
static int cmp_w(const void *a, const void *b)   /* word sequences, first word first, a prefix before what extends it */
{
  const SASIndexKey_t *x = (const SASIndexKey_t*)a, *y = (const SASIndexKey_t*)b;
  unsigned nx = x->compare_size / 8, ny = y->compare_size / 8;
  for (unsigned i = 0; i < nx && i < ny; i++) if (x->data[i] != y->data[i]) return x->data[i] < y->data[i] ? -1 : 1;
  return nx < ny ? -1 : nx > ny;
}
static int cmp_s(const void *a, const void *b) { return strcmp(*(char**)a, *(char**)b); }
static void make_universe(int n, int longnames)
{
  if (strings) {
    static const char al[] = "ab/.\x01\x7f\xe9z";
    int k = 0;
    int common = n <= 100 && rnd(3) == 0 ? 1 + (int)rnd(330) : 0;   /* a prefix all names share */
    while (k < n) {
      for (int i = k; i < n; i++) {
        char b[600]; int len;
        if (longnames) len = rnd(8) ? rnd(60) : rnd(400);
        else if (n > 1000) len = 2 + rnd(10);
        else len = rnd(3) ? rnd(14) : rnd(40);
        if (ustr[i]) { free(ustr[i]); ustr[i] = NULL; }
        if (k && rnd(3) == 0) { snprintf(b, sizeof(b), "%s", ustr[rnd(k)]); int l = strlen(b); if (rnd(2) && l) { b[l-1]++; if (!b[l-1]) b[l-1] = 1; } else if (l < 590) { b[l] = al[rnd(8)]; b[l+1] = 0; } else continue; }
        else { for (int j = 0; j < len; j++) b[j] = al[rnd(n > 500 ? 8 : 4)]; b[len] = 0; }
        if (common && strncmp(b, "/common/", 8 < common ? 8 : common)) {
          char c[1200]; int l = 0; while (l < common) { c[l] = "/common/"[l & 7]; l++; }
          if (rnd(2)) c[rnd(common)]++;          /* or nearly all share it */
          strcpy(c + l, b); c[590] = 0; strcpy(b, c);
        }
        if (strlen(b) > 400) b[400] = 0;
        ustr[i] = strdup(b);
      }
      for (int i = 0; i < n; i++) if (!ustr[i]) ustr[i] = strdup("");
      qsort(ustr, n, sizeof(char*), cmp_s);
      int w = 1;
      for (int i = 1; i < n; i++) if (strcmp(ustr[i], ustr[w-1])) { char *t = ustr[w]; ustr[w] = ustr[i]; ustr[i] = t; w++; }
      k = w;
    }
    /* the last swaps may have left the tail unsorted */
    qsort(ustr, n, sizeof(char*), cmp_s);
    N = n;
    return;
  }
  N = 0;
  memset(ukey, 0x77, sizeof(ukey));
  int k = 0;
  if (ktype == 2) {
    double *d = udbl;
    static const double sp[] = { 0.0, 1.0, -1.0, 1e300, -1e300, 4.9e-324, -4.9e-324, 1.0/0.0, -1.0/0.0, 0.5, -0.5 };
    for (; k < n && k < 11; k++) d[k] = sp[k];
    if (rnd(2)) d[0] = -0.0;
    for (; k < n; k++) d[k] = rnd(4) ? ((double)rnd64() / 1e16 - 900) * (rnd(2) ? 1 : -1) : (rnd(2) ? 1.0 : -1.0) * (double)rnd(5000);
    qsort(d, n, sizeof(double), cmp_d);
    int w = 1; for (int i = 1; i < n; i++) if (d[i] != d[w-1]) d[w++] = d[i];
    N = w;
    for (int i = 0; i < N; i++) SASIndexKeyInitDouble(&ukey[i], d[i]);
  } else if (ktype == 4) {
    for (int i = 0; i < n; i++) {
      int words = 1 + rnd(rnd(6) ? 3 : 15);
      ukey[i].compare_size = 8 * words; ukey[i].copy_size = 8 * words + 8;
      for (int j = 0; j < words; j++) ukey[i].data[j] = rnd(3) ? rnd(3) : (rnd64() << rnd(3) * 20);
    }
    qsort(ukey, n, sizeof(SASIndexKey_t), cmp_w);
    int w = 1; for (int i = 1; i < n; i++) if (cmp_w(&ukey[i], &ukey[w-1])) { SASIndexKey_t t = ukey[i]; ukey[w++] = t; }
    N = w;
  } else {
    unsigned long long *u = uint_;
    static const unsigned long long sp[] = { 0, ~0ULL, 1, 1ULL << 63, (1ULL << 63) - 1, (1ULL << 63) + 1, 255, 256, ~0ULL - 1 };
    for (; k < n && k < 9; k++) u[k] = sp[k];
    int dense = rnd(3);
    for (; k < n; k++) u[k] = dense == 0 ? rnd(2 * n) : dense == 1 ? rnd64() : rnd64() >> rnd(60);
    qsort(u, n, 8, ktype == 1 ? cmp_ll : cmp_ull);
    int w = 1; for (int i = 1; i < n; i++) if (u[i] != u[w-1]) u[w++] = u[i];
    N = w;
    for (int i = 0; i < N; i++)
      if (ktype == 0) SASIndexKeyInitUInt64(&ukey[i], u[i]);
      else if (ktype == 1) SASIndexKeyInitInt64(&ukey[i], (long long)u[i]);
      else SASIndexKeyInitRef(&ukey[i], (void*)u[i]);
  }
}
static int sgn(int x) { return x < 0 ? -1 : x > 0; }
static void key_checks(int n)
{
  if (strings) return;
  for (int i = 0; i < n; i++) {
    int a = rnd(N), b = rnd(2) ? (int)rnd(N) : (a + 1) % N;
    SASIndexKey_t c; memset(&c, 0x33, sizeof(c));
    SASIndexKeyCopy(&c, &ukey[b]);
    ev("{\"e\":\"cmp\",\"a\":%d,\"b\":%d,\"r\":%d}", a, b, sgn(SASIndexKeyCompare(&ukey[a], &c)));
    int ok = SASIndexKeySize(&c) == ukey[b].copy_size;
    switch (ktype) {
    case 0: ok = ok && SASIndexKeyReturn1stUInt64(&c) == uint_[b]; break;
    case 1: ok = ok && SASIndexKeyReturn1stInt64(&c) == (long long)uint_[b]; break;
    case 2: ok = ok && SASIndexKeyReturn1stDouble(&c) == udbl[b]; break;
    }
    ev("{\"e\":\"back\",\"k\":%d,\"kt\":%d,\"ok\":%d}", b, ktype, ok);
  }
}
typedef struct { int kind; uint64_t seed; char **scripts; int nscripts; int len; int size; } hist_t;
static void scripts_history(void *v)
{
  hist_t *x = (hist_t*)v;
  quiet();
  rnd_seed(x->seed, 79);
  if (SASJoinRegion()) { ev("{\"e\":\"nojoin\"}"); return; }
  helper_start(&other);
  static sop_t ops[256];
  static char line[65536];
  for (int s = 0; s < x->nscripts; s++) {
    snprintf(line, sizeof(line), "%s", x->scripts[s]);
    int n = parse_script(line, ops, 256), max = 0;
    for (int i = 0; i < n; i++) if (ops[i].n && ops[i].a[0] > max) max = ops[i].a[0];
    ktype = strings ? 0 : (int)rnd(5);
    do make_universe(max + 3, 0); while (N < max + 1);
    nm = 0; memset(en, 0, sizeof(en));
    map_t *m = mk_map();
    for (int i = 0; i < n; i++) {
      switch (ops[i].op[0]) {
      case 'P': op_put(m, ops[i].a[0]); break;
      case 'D': op_rem(m, ops[i].a[0]); break;
      case 'R': op_rep(m, ops[i].a[0]); break;
      case 'E': op_enum(&en[0], m, strings && ops[i].a[0] >= 0 ? ops[i].a[0] + 1 : -1); break;
      case 'N': if (en[0].used) { op_more(&en[0]); op_next(&en[0]); } break;
      case 'X': if (en[0].used) op_drop(&en[0]); break;
      }
    }
    op_state(m);
    if (en[0].used) op_drop(&en[0]);
    op_walk(m, 1);
    for (int k = 0; k < N; k++) op_get(m, k);
    del_map(m);
  }
  SASRemove();
}
static int pick(map_t *m, int want)
{ for (int t = 0; t < 20; t++) { int k = rnd(N); if (!!m->live[k] == want) return k; } return rnd(N); }
static void history(void *v)
{
  hist_t *x = (hist_t*)v;
  quiet();
  rnd_seed(x->seed, 80);
  if (SASJoinRegion()) { ev("{\"e\":\"nojoin\"}"); return; }
  helper_start(&other);
  ktype = strings ? 0 : (int)rnd(5);
  int longn = strings && rnd(3) == 0 && x->size < 400;
  make_universe(x->size, longn);
  key_checks(40);
  int k = x->size > 1000 ? 1 : 1 + rnd(MAXM - 1);
  for (int i = 0; i < k; i++) mk_map();
  int phase = 0, dir = 0, pos = 0, target = 0;
  for (int i = 0; i < x->len; i++) {
    map_t *m = &mp[rnd(nm)];
    if (i % (x->len / 6 + 1) == 0) { phase = i == 0 ? 0 : rnd(5); dir = rnd(4); pos = rnd(N); target = phase == 0 ? N : phase == 1 ? 0 : rnd(N); }
    if (longn && m->cnt > 60 && phase == 0) phase = 1;
    /* key order of this phase: random, ascending, descending, from the middle */
    int kk = dir == 0 ? (int)rnd(N) : dir == 1 ? pos % N : dir == 2 ? N - 1 - pos % N : (N / 2 + (pos & 1 ? pos / 2 : N - pos / 2)) % N;
    pos++;
    switch (rnd(20)) {
    case 0: op_get(m, rnd(N)); break;
    case 1: if (rnd(x->size > 1000 ? 8 : 2) == 0) op_state(m); break;
    case 2: op_put(m, pick(m, 1)); break;         /* refused */
    case 3: op_rem(m, pick(m, 0)); break;         /* absent */
    case 4: op_rep(m, rnd(2) ? pick(m, 1) : pick(m, 0)); break;
    case 5: { enum_t *e = &en[rnd(MAXE)]; if (e->used) op_drop(e); op_enum(e, m, strings && rnd(2) ? (int)rnd(N) : -1); break; }
    case 6: { enum_t *e = &en[rnd(MAXE)]; if (e->used) { op_more(e); for (int j = rnd(6); j >= 0 && op_next(e); j--); } break; }
    case 7: if (rnd(x->size > 1000 ? 400 : 30) == 0) op_walk(m, rnd(2)); break;
    case 8: /* the key an enumeration stands on, or next to it */ { enum_t *e = &en[rnd(MAXE)]; if (e->used) { call_t c = go((call_t){ NEXT, NULL, e, -1 }); long v = (long)c.r & 0x3fffffff; ev("{\"e\":\"next\",\"en\":%d,\"v\":%ld}", e->id, v);
              if (v && v / 256 < N) { map_t *q = NULL; for (int j = 0; j < nm; j++) if (mp[j].id == e->m) q = &mp[j]; if (q) { op_rem(q, v / 256); if (rnd(2)) { int z = v / 256 + (int)rnd(3) - 1; if (z >= 0 && z < N) op_put(q, z); } op_next(e); } } } break; }
    default:
      if (phase == 0) op_put(m, kk);
      else if (phase == 1) op_rem(m, kk);
      else if (m->cnt < target) op_put(m, dir ? kk : pick(m, 0));
      else op_rem(m, rnd(2) ? pick(m, 1) : kk);
    }
  }
  for (int i = 0; i < nm; i++) { op_state(&mp[i]); op_walk(&mp[i], 1); for (int j = 0; j < 60; j++) op_get(&mp[i], rnd(N)); }
  /* empty one of them completely, from one end or at random */
  map_t *m = &mp[0];
  int d = rnd(3), *ord = malloc(sizeof(int) * N);
  for (int i = 0; i < N; i++) ord[i] = d == 1 ? N - 1 - i : i;
  if (d == 2) for (int i = N - 1; i > 0; i--) { int j = rnd(i + 1), t = ord[i]; ord[i] = ord[j]; ord[j] = t; }
  int left = m->cnt;
  for (int i = 0; i < N; i++) if (m->live[ord[i]]) { op_rem(m, ord[i]); left--; if (left < 4 || rnd(x->size > 1000 ? 60 : 12) == 0) op_state(m); }
  for (int i = 0; i < MAXE; i++) if (en[i].used) { op_next(&en[i]); op_more(&en[i]); }
  op_state(m); op_walk(m, 1); op_put(m, rnd(N)); op_state(m); op_walk(m, 1);
  for (int i = 0; i < nm; i++) del_map(&mp[i]);
  SASRemove();
}
int main(int argc, char **argv)
{
  ev_init();
  if (argc < 4) return 3;
  const char *out = argv[argc - 1];
  strings = !strcmp(argv[1], "string");
  noenum = getenv("VERIF_NOENUM") != NULL;
  if (!strcmp(argv[2], "script")) {   /* FILE part parts */
    FILE *f = fopen(argv[3], "r");
    int part = atoi(argv[4]), parts = atoi(argv[5]);
    static char line[65536];
    static char *all[400000]; int n = 0, i = 0;
    if (!f) return 3;
    while (fgets(line, sizeof(line), f) && n < 400000) if (i++ % parts == part) all[n++] = strdup(line);
    uint64_t k = 0;
    for (i = 0; i < n; i += 100) {
      ev("{\"e\":\"reset\",\"k\":\"script\"}");
      hist_t h = { 0, ++k + 1000 * part, all + i, n - i < 100 ? n - i : 100, 0, 0 };
      store_make("map");
      in_child(scripts_history, &h, 120);
      store_drop();
    }
  } else {                            /* SEED COUNT LEN SIZE */
    uint64_t seed = atoll(argv[3]); int count = atoi(argv[4]), len = atoi(argv[5]), size = atoi(argv[6]);
    for (int i = 0; i < count; i++) {
      ev("{\"e\":\"reset\",\"k\":\"%s\"}", argv[1]);
      hist_t h = { 1, seed * 1000003ULL + i, NULL, 0, len, size };
      store_make("map");
      in_child(history, &h, 200);
      store_drop();
    }
  }
  ev_write(out);
  return 0;
}
