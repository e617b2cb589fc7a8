/* Conformance driver for objects used by several threads, of one process or more, at once: heaps, stacks, compound heaps,
   indexes, string trees and contexts, through the calls that lock and through the others under the object's own lock. */
#define _GNU_SOURCE
#include "common.h"
#ifndef REAL
#include "vsched.h"
#endif
#include "sasalloc.h"
#include "sassim.h"
#include "saslock.h"
#include "sasconf.h"
#include "sassimpleheap.h"
#include "sassimplestack.h"
#include "sascompoundheap.h"
#include "sasindex.h"
#include "sasindexenum.h"
#include "sasstringbtree.h"
#include "sasstringbtreeenum.h"
#include "sphcontext.h"
enum { HEAP, STACK, PAGES, INDEX, STRINGS, CONTEXT, NKIND };
#define MAXK 80
static struct shared { int turn, done, left; unsigned id; void *h; long bsz, psz, scap; int fixedheap; char *sbot; } *sh;
static struct { long steps[2]; } *probe;      /* where the threads of a planned run finished */
static int kind, shape, NKEYS;      /* what the history is about */
static void *H; static unsigned long low;
static long bsz, psz; static int fixedheap;
static SASIndexKey_t key[MAXK]; static char name[MAXK][64]; static unsigned long addr[MAXK];
static uint64_t rs[16];
static unsigned rn(int t, unsigned n)
{ uint64_t z = (rs[t] += 0x9E3779B97F4A7C15ULL); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return n ? (unsigned)((z ^ (z >> 31)) >> 11) % n : 0; }
/* a call is in the log before it happens; its outcome is filled in afterwards */
static int pref[16];      /* the kind of call a thread of a planned run makes, -1: any */
static int pick(int t, int n) { int v = rn(t, n); return pref[t] >= 0 ? pref[t] % n : v; }
static char *call(const char *fmt, ...)
{
  char s[300]; va_list ap; va_start(ap, fmt); size_t n = vsnprintf(s, 300, fmt, ap); va_end(ap);
  size_t p = __atomic_fetch_add(&EVB->len, n + 1, __ATOMIC_SEQ_CST);
  if (p + n + 1 > EVB->cap) _exit(3);
  memcpy(EVB->data + p, s, n); EVB->data[p + n] = '\n';
  return EVB->data + p;
}
static void outcome(char *c, long v)
{ char t[16]; if (v > 999999999 || v < -999999999) v = -999; snprintf(t, 16, "%10ld", v); memcpy(strstr(c, "\"out\":") + 6, t, 10); }
#define OUT ",\"out\":        -9}"
static void ret(int t, char *c, long v, int ok) { outcome(c, v); ev("{\"e\":\"r\",\"t\":%d,\"ok\":%d}", t, ok); }

/* ---- what each thread holds ---- */
typedef struct { char *p; long n; unsigned id; char *obj; } own_t;
static own_t own[16][64]; static int nown[16];
static void *en[16]; static int hasen[16];
/* ways of calling: 0 the call locks; 1 the caller has locked */
static void heap_alloc(int t, long n, int locked)
{
  int near = rn(t, 3) == 0;
  void *at = (char*)H + rn(t, bsz);
  char *c = call("{\"e\":\"c\",\"t\":%d,\"o\":\"halloc\",\"n\":%ld" OUT, t, n);
  char *p = near ? (locked ? SASSimpleHeapNearAllocNoLock(at, n) : SASSimpleHeapNearAlloc(at, n))
                 : (locked ? SASSimpleHeapAllocNoLock(H, n) : SASSimpleHeapAlloc(H, n));
  long off = p - ((char*)H + heap_offset), u = -1;
  if (p) {
    u = off >= 0 && off + n <= bsz - heap_offset && off % 16 == 0 ? off / 16 : -3;
    if (u >= 0) { own_t o = { p, n, __atomic_add_fetch(&sh->id, 1, __ATOMIC_SEQ_CST), NULL }; fill(p, n, o.id); own[t][nown[t]++] = o; }
  }
  ret(t, c, u, 1);
}
static void heap_free(int t, int k, int locked)
{
  own_t o = own[t][k]; own[t][k] = own[t][--nown[t]];
  int ok = intact(o.p, o.n, o.id), near = rn(t, 3) == 0; long r = 0;
  char *c = call("{\"e\":\"c\",\"t\":%d,\"o\":\"hfree\",\"a\":%ld" OUT, t, (o.p - ((char*)H + heap_offset)) / 16);
  if (near) { if (locked) SASSimpleHeapNearDeallocNoLock(o.p, o.n); else SASSimpleHeapNearDealloc(o.p, o.n); }
  else r = locked ? SASSimpleHeapFreeNoLock(H, o.p, o.n) : SASSimpleHeapFree(H, o.p, o.n);
  ret(t, c, r, ok);
}
static void heap_ask(int t, int locked)
{
  if (rn(t, 2)) { char *c = call("{\"e\":\"c\",\"t\":%d,\"o\":\"hspace\"" OUT, t); ret(t, c, locked ? SASSimpleHeapFreeSpaceNoLock(H) : SASSimpleHeapFreeSpace(H), 1); }
  else { char *c = call("{\"e\":\"c\",\"t\":%d,\"o\":\"hempty\"" OUT, t); ret(t, c, (locked ? SASSimpleHeapEmptyNoLock(H) : SASSimpleHeapEmpty(H)) != 0, 1); }
}
static char *sbot; static long scap;
static void stack_alloc(int t, long n, int locked)
{
  int near = rn(t, 3) == 0; void *at = (char*)H + rn(t, bsz);
  char *c = call("{\"e\":\"c\",\"t\":%d,\"o\":\"push\",\"n\":%ld" OUT, t, n);
  char *p = near ? (locked ? SASSimpleStackNearAllocNoLock(at, n) : SASSimpleStackNearAlloc(at, n))
                 : (locked ? SASSimpleStackAllocNoLock(H, n) : SASSimpleStackAlloc(H, n));
  long off = p - sbot, u = -1;
  if (p) {
    u = off >= 0 && off + n <= 16 * scap && off % 16 == 0 ? off / 16 : -3;
    if (u >= 0 && nown[t] < 64) { own_t o = { p, n, __atomic_add_fetch(&sh->id, 1, __ATOMIC_SEQ_CST), NULL }; fill(p, n, o.id); own[t][nown[t]++] = o; }
  }
  ret(t, c, u, 1);
}
static void stack_cut(int t, own_t o, int locked)
{
  int ok = intact(o.p, o.n, o.id);
  char *c = call("{\"e\":\"c\",\"t\":%d,\"o\":\"cut\",\"a\":%ld" OUT, t, (long)(o.p - sbot) / 16);
  ret(t, c, locked ? SASSimpleStackDeallocNoLock(H, o.p) : SASSimpleStackDealloc(H, o.p), ok);
}
static void stack_ask(int t, int locked)
{ char *c = call("{\"e\":\"c\",\"t\":%d,\"o\":\"sspace\"" OUT, t); ret(t, c, locked ? SASSimpleStackFreeSpaceNoLock(H) : SASSimpleStackFreeSpace(H), 1); }
static long pu(void *p) { return ((unsigned long)p - low) / 512; }
static void page_alloc(int t, int locked)
{
  void *at = !rn(t, 3) ? H : nown[t] ? (rn(t, 2) ? own[t][rn(t, nown[t])].obj : own[t][rn(t, nown[t])].p) : NULL;
  if (at && rn(t, 3) == 0) at = NULL;
  char *c = call("{\"e\":\"c\",\"t\":%d,\"o\":\"page\"" OUT, t), *p;
  if (at) p = locked ? SASCompoundHeapNearAllocNoLock(at) : SASCompoundHeapNearAlloc(at);
  else p = locked ? SASCompoundHeapAllocNoLock(H) : SASCompoundHeapAlloc(H);
  long u = -1; int ok = 1;
  if (p) {
    u = (unsigned long)p >= low && (unsigned long)p % psz == 0 ? pu(p) : -3;
    if (u >= 0) {
      own_t o = { p, 16 * (1 + rn(t, 12)), __atomic_add_fetch(&sh->id, 1, __ATOMIC_SEQ_CST), NULL };
      if (!SASSimpleHeapEmptyNoLock(p)) ok = 0;
      o.obj = SASSimpleHeapAllocNoLock(p, o.n);
      if (!o.obj || o.obj < p || o.obj + o.n > p + psz) { ok = 0; o.obj = p; o.n = 0; }
      else fill(o.obj, o.n, o.id);
      own[t][nown[t]++] = o;
    }
  }
  ret(t, c, u, ok);
}
static void page_free(int t, int k, int locked)
{
  own_t o = own[t][k]; own[t][k] = own[t][--nown[t]];
  int ok = intact(o.obj, o.n, o.id), near = rn(t, 2);
  char *c = call("{\"e\":\"c\",\"t\":%d,\"o\":\"pfree\",\"a\":%ld" OUT, t, pu(o.p));
  if (near) { if (locked) SASCompoundHeapNearDeallocNoLock(o.obj); else SASCompoundHeapNearDealloc(o.obj); }
  else { if (locked) SASCompoundHeapFreeNoLock(H, o.p); else SASCompoundHeapFree(H, o.p); }
  ret(t, c, 0, ok);
}
static void page_all(int t) { char *c = call("{\"e\":\"c\",\"t\":%d,\"o\":\"pall\"" OUT, t); ret(t, c, SASCompoundHeapAllocSpace(H) / 512, 1); }
static void page_ask(int t, int locked)
{
  if (rn(t, 2)) { char *c = call("{\"e\":\"c\",\"t\":%d,\"o\":\"pspace\"" OUT, t); ret(t, c, (locked ? SASCompoundHeapFreeSpaceNoLock(H) : SASCompoundHeapFreeSpace(H)) / 512, 1); }
  else page_all(t);
}
static int S(void) { return kind == STRINGS; }
static SASIndexKey_t *ky(int k) { static __thread SASIndexKey_t x; x = key[k]; return &x; }
static void map_put(int t, int k, int L)
{
  long v = (long)k * 65536 + (__atomic_add_fetch(&sh->id, 1, __ATOMIC_SEQ_CST) & 0xffff);
  if (!(v & 0xffff)) v++;
  char *c = call("{\"e\":\"c\",\"t\":%d,\"o\":\"put\",\"k\":%d,\"v\":%ld" OUT, t, k, v);
  long r = S() ? (L ? SASStringBTreePut_nolock(H, name[k], (void*)v) : SASStringBTreePut(H, name[k], (void*)v))
               : (L ? SASIndexPut_nolock(H, ky(k), (void*)v) : SASIndexPut(H, ky(k), (void*)v));
  ret(t, c, r, 1);
}
static void map_rep(int t, int k, int L)
{
  long v = (long)k * 65536 + (__atomic_add_fetch(&sh->id, 1, __ATOMIC_SEQ_CST) & 0xffff);
  if (!(v & 0xffff)) v++;
  char *c = call("{\"e\":\"c\",\"t\":%d,\"o\":\"rep\",\"k\":%d,\"v\":%ld" OUT, t, k, v);
  void *r = S() ? (L ? SASStringBTreeReplace_nolock(H, name[k], (void*)v) : SASStringBTreeReplace(H, name[k], (void*)v))
                : (L ? SASIndexReplace_nolock(H, ky(k), (void*)v) : SASIndexReplace(H, ky(k), (void*)v));
  ret(t, c, (long)r, 1);
}
static void map_rem(int t, int k, int L)
{
  char *c = call("{\"e\":\"c\",\"t\":%d,\"o\":\"rem\",\"k\":%d" OUT, t, k);
  void *r = S() ? (L ? SASStringBTreeRemove_nolock(H, name[k]) : SASStringBTreeRemove(H, name[k]))
                : (L ? SASIndexRemove_nolock(H, ky(k)) : SASIndexRemove(H, ky(k)));
  ret(t, c, (long)r, 1);
}
static void map_get(int t, int k, int L)
{
  if (rn(t, 2)) {
    char *c = call("{\"e\":\"c\",\"t\":%d,\"o\":\"get\",\"k\":%d" OUT, t, k);
    void *r = S() ? (L ? SASStringBTreeGet_nolock(H, name[k]) : SASStringBTreeGet(H, name[k])) : (L ? SASIndexGet_nolock(H, ky(k)) : SASIndexGet(H, ky(k)));
    ret(t, c, (long)r, 1);
  } else {
    char *c = call("{\"e\":\"c\",\"t\":%d,\"o\":\"has\",\"k\":%d" OUT, t, k);
    long r = S() ? (L ? SASStringBTreeContainsKey_nolock(H, name[k]) : SASStringBTreeContainsKey(H, name[k])) : SASIndexContainsKey(H, ky(k));
    ret(t, c, r != 0, 1);
  }
}
static void map_ask(int t, int L)
{
  if (S() && rn(t, 2)) { char *c = call("{\"e\":\"c\",\"t\":%d,\"o\":\"count\"" OUT, t); ret(t, c, SASStringBTreeGetCurCount(H), 1); }
  else {
    char *c = call("{\"e\":\"c\",\"t\":%d,\"o\":\"mempty\"" OUT, t);
    long r = S() ? (L ? SASStringBTreeIsEmpty_nolock(H) : SASStringBTreeIsEmpty(H)) : (L ? SASIndexIsEmpty_nolock(H) : SASIndexIsEmpty(H));
    ret(t, c, r != 0, 1);
  }
}
static void map_ends(int t)
{ /* the smallest and the largest key are looked at where they lie: under the lock */
  int hi = rn(t, 2);
  char *c = call("{\"e\":\"c\",\"t\":%d,\"o\":\"%s\"" OUT, t, hi ? "max" : "min");
  void *p = S() ? (hi ? SASStringBTreeGetMaxKey_nolock(H) : SASStringBTreeGetMinKey_nolock(H)) : (hi ? (void*)SASIndexGetMaxKey_nolock(H) : (void*)SASIndexGetMinKey_nolock(H));
  long k = -1;
  if (p) { k = -2; for (int i = 0; i < NKEYS; i++) if (S() ? !strcmp(p, name[i]) : ((SASIndexKey_t*)p)->copy_size == key[i].copy_size && !memcmp(p, &key[i], key[i].copy_size)) k = i; }
  ret(t, c, k, 1);
}
static void enum_new(int t, int L)
{ /* under the lock, as the program must: the new enumeration looks at the tree */
  if (!L) SASLock(H, SasUserLock__WRITE);
  char *c = call("{\"e\":\"c\",\"t\":%d,\"o\":\"enum\"" OUT, t);
  en[t] = S() ? (void*)SASStringBTreeEnumCreate(H) : (void*)SASIndexEnumCreate(H);
  hasen[t] = en[t] != NULL;
  ret(t, c, hasen[t], 1);
  if (!L) SASUnlock(H);
}
static void enum_next(int t, int L)
{
  char *c = call("{\"e\":\"c\",\"t\":%d,\"o\":\"next\"" OUT, t);
  void *r = S() ? (L ? SASStringBTreeEnumNext_nolock(en[t]) : SASStringBTreeEnumNext(en[t])) : (L ? SASIndexEnumNext_nolock(en[t]) : SASIndexEnumNext(en[t]));
  ret(t, c, (long)r, 1);
}
static void enum_drop(int t)
{
  char *c = call("{\"e\":\"c\",\"t\":%d,\"o\":\"drop\"" OUT, t);
  if (S()) SASStringBTreeEnumDestroy(en[t]); else SASIndexEnumDestroy(en[t]);
  hasen[t] = 0;
  ret(t, c, 0, 1);
}
static void ctx_op(int t, int L)
{
  int n = 1 + rn(t, NKEYS), m = 1 + rn(t, NKEYS), a = 1 + rn(t, NKEYS), o = pick(t, 9);
  char *c; long r = -3;
  if (rn(t, 2)) { /* the pair that is most likely there */
    a = n; if (rn(t, 2)) m = n;
  }
  switch (o) {
  case 0: case 1: case 2:
    c = call("{\"e\":\"c\",\"t\":%d,\"o\":\"add\",\"n\":%d,\"a\":%d" OUT, t, n, a); r = SPHContextAddName(H, name[n - 1], (void*)addr[a - 1]) != 0; break;
  case 3: c = call("{\"e\":\"c\",\"t\":%d,\"o\":\"rmn\",\"n\":%d" OUT, t, n); r = SPHContextRemoveByName(H, name[n - 1]) == 0; break;
  case 4: c = call("{\"e\":\"c\",\"t\":%d,\"o\":\"rma\",\"a\":%d" OUT, t, a); r = SPHContextRemoveByAddr(H, (void*)addr[a - 1]) == 0; break;
  case 5: c = call("{\"e\":\"c\",\"t\":%d,\"o\":\"ren\",\"n\":%d,\"m\":%d,\"a\":%d" OUT, t, n, m, a); r = SPHContextRename(H, name[n - 1], name[m - 1], (void*)addr[a - 1]) != 0; break;
  case 6: case 7: {
    c = call("{\"e\":\"c\",\"t\":%d,\"o\":\"fbn\",\"n\":%d" OUT, t, n);
    unsigned long v = (unsigned long)SPHContextFindByName(H, name[n - 1]);
    r = v ? -2 : 0; for (int i = 0; i < NKEYS; i++) if (v == addr[i]) r = i + 1;
    break; }
  default: {
    if (!L) SASLock(H, SasUserLock__READ);
    c = call("{\"e\":\"c\",\"t\":%d,\"o\":\"fba\",\"a\":%d" OUT, t, a);
    const char *s = SPHContextFindByAddr(H, (void*)addr[a - 1]);
    r = s ? -2 : 0; for (int i = 0; s && i < NKEYS; i++) if (!strcmp(s, name[i])) r = i + 1;
    ret(t, c, r, 1);
    if (!L) SASUnlock(H);
    return; }
  }
  ret(t, c, r, 1);
}
static int keyish(int t) { static int last[16]; return last[t] = rn(t, 3) ? (int)rn(t, NKEYS) : (last[t] + 1) % NKEYS; }
static int small;      /* heaps: small objects or a mixture */
static long hsize(int t) { return small ? 1 + rn(t, 64) : rn(t, 4) ? 1 + rn(t, 200) : 1 + rn(t, bsz / 2); }
static void step(int t, int L)
{
  switch (kind) {
  case HEAP:
    if (pick(t, 8) == 0) heap_ask(t, L);
    else if (nown[t] && (nown[t] >= 12 || (pref[t] < 0 ? rn(t, 2) : pref[t] > 4))) heap_free(t, rn(t, nown[t]), L);
    else heap_alloc(t, hsize(t), L);
    break;
  case STACK:
    if (rn(t, 5) == 0) stack_ask(t, L);
    else if (L && rn(t, 2)) { int k = nown[t]; stack_alloc(t, hsize(t), L); if (nown[t] > k) { stack_cut(t, own[t][k], L); nown[t] = k; } }
    else stack_alloc(t, hsize(t), L);
    break;
  case PAGES:
    if (pick(t, 8) == 0) page_ask(t, L);
    else if (nown[t] && (nown[t] >= 20 || (pref[t] < 0 ? rn(t, 2) : pref[t] > 4))) page_free(t, rn(t, nown[t]), L);
    else page_alloc(t, L);
    break;
  case INDEX: case STRINGS: {
    int k = keyish(t);
    switch (pick(t, 9)) {
    case 0: case 1: map_put(t, k, L); break;
    case 2: case 3: map_rem(t, k, L); break;
    case 4: map_rep(t, k, L); break;
    case 5: map_ask(t, L); break;
    case 6: case 7: if (hasen[t]) { enum_next(t, L); if (rn(t, 12) == 0) enum_drop(t); } else enum_new(t, L); break;
    default: map_get(t, k, L); break;
    }
    break; }
  case CONTEXT: ctx_op(t, L); break;
  }
}
static void look(int t)      /* under a reader's lock */
{
  switch (kind) {
  case HEAP: heap_ask(t, 1); break;
  case STACK: stack_ask(t, 1); break;
  case PAGES: if (fixedheap) page_ask(t, 1); else page_all(t); break;
  case INDEX: case STRINGS: if (rn(t, 3) == 0) map_ends(t); else map_get(t, keyish(t), rn(t, 2)); break;
  case CONTEXT: { int n = 1 + rn(t, NKEYS);
    char *c = call("{\"e\":\"c\",\"t\":%d,\"o\":\"fbn\",\"n\":%d" OUT, t, n);
    unsigned long v = (unsigned long)SPHContextFindByName(H, name[n - 1]); long r = v ? -2 : 0;
    for (int i = 0; i < NKEYS; i++) if (v == addr[i]) r = i + 1;
    ret(t, c, r, 1); break; }
  }
}
static int budget[16];
/* other pages of a compound heap have locks of their own, which the caller's lock on the heap does not replace */
static int mayhold(int t) { (void)t; return kind != PAGES || fixedheap; }
static int odds = 10;
static void hold(int t, int w)
{
  if (!mayhold(t)) { SASLock(H, w ? SasUserLock__WRITE : SasUserLock__READ); return; }
  char *c = call("{\"e\":\"c\",\"t\":%d,\"o\":\"lock\",\"n\":%d" OUT, t, w);
  SASLock(H, w ? SasUserLock__WRITE : SasUserLock__READ);
  ret(t, c, 0, 1);
}
static void letgo(int t)
{
  if (!mayhold(t)) { SASUnlock(H); return; }
  char *c = call("{\"e\":\"c\",\"t\":%d,\"o\":\"unlock\"" OUT, t);
  SASUnlock(H);
  ret(t, c, 0, 1);
}
static void program(int t, void *arg)
{
  (void)arg;
  int left = budget[t];
  while (left > 0) {
    int w = rn(t, odds);
    if (w == 0 && mayhold(t)) { hold(t, 1); int n = 1 + rn(t, 3); for (int i = 0; i < n; i++) { if (kind < CONTEXT && kind > PAGES && rn(t, 4) == 0) map_ends(t); else step(t, kind == CONTEXT ? 1 : rn(t, 4) != 0); } letgo(t); left -= n; }
    else if (w == 1) { hold(t, 0); look(t); if (rn(t, 3)) look(t); letgo(t); left--; }
    else { step(t, 0); left--; }
  }
#ifndef REAL
  if (t < 2) probe->steps[t] = sched_steps();
#endif
}
static void universe(void)
{
  int step = 1 + rnd(5), kt = rnd(3);
  memset(key, 0x77, sizeof(key));
  for (int i = 0; i < NKEYS; i++) {
    char *p = name[i]; int long_ = shape & 1;
    if (kind == CONTEXT) snprintf(p, 64, "%s%0*d", long_ ? "project/with/a/longer/name/" : "n", 1 + (int)rnd(12), i);
    else snprintf(p, 64, "%s%03d%s", long_ ? "/common/prefix/of/all/names/" : "", i * step, rnd(2) ? "" : "x");
    if (kt == 0) SASIndexKeyInitUInt64(&key[i], 1 + i * step);
    else if (kt == 1) SASIndexKeyInitRef(&key[i], (void*)(0x7f0000000000UL + 4096UL * i * step));
    else SASIndexKeyInitDouble(&key[i], (i - NKEYS / 2) * 0.75 * step);
    addr[i] = 0x400000000000UL + 64UL * (i + rnd(3) * 1000);
  }
}
static void make(void)
{
  switch (kind) {
  case HEAP: bsz = rnd(3) ? 4096 : 8192; H = SASSimpleHeapCreate(bsz); ev("{\"e\":\"mk\",\"k\":\"heap\",\"cap\":%ld,\"ok\":%d}", (long)(bsz - heap_offset) / 16, H != NULL); break;
  case STACK: bsz = rnd(3) ? 8192 : 16384; H = SASSimpleStackCreate(bsz); scap = (bsz - 4096) / 16; sbot = (char*)H + 4096;
    ev("{\"e\":\"mk\",\"k\":\"stack\",\"cap\":%ld,\"ok\":%d}", scap, H != NULL); break;
  case PAGES:
    fixedheap = rnd(3) == 0; psz = fixedheap ? 4096 : 4096L << rnd(2); bsz = (rnd(2) ? 8 : 4) * psz;
    H = fixedheap ? SASCompoundFixedHeapCreate(bsz) : SASCompoundHeapCreatePageSize(bsz, psz);
    ev("{\"e\":\"mk\",\"k\":\"pages\",\"base\":%ld,\"bsz\":%ld,\"psz\":%ld,\"fixed\":%d,\"ok\":%d}", H ? pu(H) : 0, bsz / 512, psz / 512, fixedheap, H != NULL); break;
  case INDEX: case STRINGS: {
    int fx = rnd(3) == 0; bsz = fx ? 1L << 21 : 8192L << rnd(4); if (kind == STRINGS && bsz < 65536) bsz = 65536;
    H = kind == STRINGS ? (fx ? SASStringBTreeFixedCreate(bsz) : SASStringBTreeCreate(bsz)) : (fx ? SASIndexFixedCreate(bsz) : SASIndexCreate(bsz));
    ev("{\"e\":\"mk\",\"k\":\"map\",\"n\":%d,\"ok\":%d}", NKEYS, H != NULL); break; }
  case CONTEXT: bsz = 65536L << rnd(3); H = SPHContextCreate(bsz); ev("{\"e\":\"mk\",\"k\":\"ctx\",\"ok\":%d}", H != NULL); break;
  }
  if (!H) _exit(0);
}
/* one thread alone, before and after; before, on behalf of all */
static void before(int nth)
{
  int n = kind == HEAP ? rnd(8) : kind == STACK ? rnd(4) : kind == PAGES ? rnd(3) ? (int)rnd(20) : 0 : rnd(2 * NKEYS), any = rnd(2);
  for (int i = 0; i < n; i++) { int t = rnd(nth); switch (kind) {
  case HEAP: heap_alloc(t, hsize(t), 0); break;
  case STACK: stack_alloc(t, hsize(t), 0); break;
  case PAGES: page_alloc(t, 0); break;
  case INDEX: case STRINGS: map_put(t, rn(t, NKEYS), 0); break;
  case CONTEXT: { int p = pref[t]; pref[t] = any ? -1 : 0; ctx_op(t, 0); pref[t] = p; break; }
  } }
  if (kind == INDEX || kind == STRINGS) for (int t = 0; t < nth; t++) if (pref[t] == 6) { enum_new(t, 0); for (int i = rnd(6); i > 0 && hasen[t]; i--) enum_next(t, 0); }
}
static void after(void)
{
  switch (kind) {
  case HEAP: heap_ask(0, 0); break;
  case STACK: stack_ask(0, 0); break;
  case PAGES: page_ask(0, 0); page_ask(0, 0); break;
  case INDEX: case STRINGS: {
    map_ask(0, 0);
    char b[4096]; int n = sprintf(b, "{\"e\":\"dump\",\"v\":[");
    for (int k = 0; k < NKEYS; k++) n += sprintf(b + n, "%s%ld", k ? "," : "", 0x7fffffffL & (long)(S() ? SASStringBTreeGet(H, name[k]) : SASIndexGet(H, ky(k))));
    ev("%s]}", b);
    if (hasen[0]) enum_drop(0);
    enum_new(0, 0); for (int i = 0; hasen[0] && i <= NKEYS; i++) enum_next(0, 0);
    SASLock(H, SasUserLock__READ); map_ends(0); map_ends(0); SASUnlock(H);
    break; }
  case CONTEXT:
    { char b[8192]; int n = sprintf(b, "{\"e\":\"dump\",\"v\":[");
      for (int i = 0; i < NKEYS; i++) {
        unsigned long v = (unsigned long)SPHContextFindByName(H, name[i]); int r = v ? -2 : 0;
        for (int j = 0; j < NKEYS; j++) if (v == addr[j]) r = j + 1;
        n += sprintf(b + n, "%s%d", i ? "," : "", r);
      }
      n += sprintf(b + n, "],\"w\":[");
      for (int i = 0; i < NKEYS; i++) {
        const char *t = SPHContextFindByAddr(H, (void*)addr[i]); int r = t ? -2 : 0;
        for (int j = 0; t && j < NKEYS; j++) if (!strcmp(t, name[j])) r = j + 1;
        n += sprintf(b + n, "%s%d", i ? "," : "", r);
      }
      ev("%s]}", b); }
    break;
  }
}
static void giveback(int t) { if (kind == HEAP) while (nown[t]) heap_free(t, rn(t, nown[t]), 0); if (kind == PAGES) while (nown[t]) page_free(t, rn(t, nown[t]), 0); }
static void destroy(void)
{
  switch (kind) {
  case HEAP: SASSimpleHeapDestroy(H); break;
  case STACK: SASSimpleStackDestroy(H); break;
  case PAGES: SASCompoundHeapDestroy(H); break;
  case INDEX: SASIndexDestroy(H); break;
  case STRINGS: SASStringBTreeDestroy(H); break;
  case CONTEXT: SPHContextDestroy(H); break;
  }
  ev("{\"e\":\"del\"}");
}
typedef struct { int mode; uint64_t seed; int len, nplan; long at[3]; } hist_t;     /* mode 3: one switch or two, at the steps named */
static int join(void)
{ quiet(); int r = SASJoinRegion(); if (r) { ev("{\"e\":\"nojoin\"}"); _exit(0); } low = getMemLow(); return 0; }
static void *real_main(void *a) { program((int)(long)a, NULL); return a; }
static void *real_back(void *a) { giveback((int)(long)a); return a; }
static void wait_for(volatile int *x, int v) { while (__atomic_load_n(x, __ATOMIC_SEQ_CST) < v) usleep(50); }
static void history(void *v)
{
  hist_t *x = (hist_t*)v;
  rnd_seed(x->seed, 331);
  memset(sh, 0, sizeof *sh);
  shape = rnd(4); small = rnd(2); NKEYS = 4 + rnd(x->mode == 1 || x->mode == 2 ? 40 : 14); if (NKEYS > MAXK) NKEYS = MAXK;
  for (int t = 0; t < 16; t++) rs[t] = x->seed * 77 + t * 1001;
  int procs = x->mode == 2 ? 2 + rnd(2) : 1, per = x->mode == 2 ? 1 + rnd(2) : 2 + rnd(3), nth = procs * per;
  if (x->mode == 0 && per > 3) nth = per = 3;
  if (x->mode == 3) nth = per = 2;
  for (int t = 0; t < nth; t++) budget[t] = 1 + rnd(x->len);
  for (int t = 0; t < 16; t++) pref[t] = -1;
  odds = x->mode == 3 ? 6 : 10;
  if (x->mode == 3) {
    static const int maps[] = { 0, 2, 4, 5, 6, 8 }, names[] = { 3, 4, 5, 6, 8, 0 };
    for (int t = 0; t < 2; t++) if (rnd(6)) { int i = rnd(6); pref[t] = kind == CONTEXT ? names[i] : kind >= INDEX ? maps[i] : (int)rnd(9); }
    int w = rnd(4);
    if (w == 0) pref[1] = pref[0];
    else if (w < 3) { int i = rnd(3); pref[1] = kind == CONTEXT ? i + 3 : kind >= INDEX ? 2 * rnd(2) : 1 + (int)rnd(8); }
    budget[0] = 1;
    if (rnd(3) == 0) for (int t = 0; t < 2; t++) rs[t] = x->seed * 77;    /* about the same thing */
  }
  universe();
  if (x->mode != 2) {
    join(); make(); before(nth);
    if (x->mode == 0 || x->mode == 3) {
#ifndef REAL
      sched_t s;
      sched_random(&s, x->seed);
      s.limit = 6000000;
      if (x->mode == 3) { s.kind = S_PLAN; s.nplan = x->nplan; for (int i = 0; i < x->nplan; i++) { s.plan[i].step = x->at[i]; s.plan[i].to = i % 2 ? 0 : 1; } }
      int rc = sched_run(nth, program, NULL, &s);
      if (rc) { ev("{\"e\":\"stuck\",\"why\":%d,\"who\":%d}", rc, sched_blocked_mask); _exit(0); }
#endif
    } else {
      pthread_t p[16];
      for (int t = 0; t < nth; t++) pthread_create(&p[t], NULL, real_main, (void*)(long)t);
      for (int t = 0; t < nth; t++) pthread_join(p[t], NULL);
    }
    after();
    for (int t = 0; t < nth; t++) giveback(t);
    after();
    destroy();
    SASRemove();
    return;
  }
  /* processes: what the object is was settled before they parted */
  pid_t pid[4];
  for (int q = 0; q < procs; q++) {
    fflush(NULL);
    if ((pid[q] = fork()) < 0) _exit(97);
    if (pid[q] == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      wait_for(&sh->turn, q);
      join();
      if (q == 0) { make(); sh->h = H; sh->bsz = bsz; sh->psz = psz; sh->scap = scap; sh->fixedheap = fixedheap; sh->sbot = sbot; before(per); }
      else { H = sh->h; bsz = sh->bsz; psz = sh->psz; scap = sh->scap; fixedheap = sh->fixedheap; sbot = sh->sbot; }
      __atomic_add_fetch(&sh->turn, 1, __ATOMIC_SEQ_CST);
      wait_for(&sh->turn, procs);
      pthread_t p[16];
      for (int t = 0; t < per; t++) pthread_create(&p[t], NULL, real_main, (void*)(long)(q * per + t));
      for (int t = 0; t < per; t++) pthread_join(p[t], NULL);
      for (int t = 0; t < per; t++) pthread_create(&p[t], NULL, real_back, (void*)(long)(q * per + t));
      for (int t = 0; t < per; t++) pthread_join(p[t], NULL);
      __atomic_add_fetch(&sh->done, 1, __ATOMIC_SEQ_CST);
      if (q) { wait_for(&sh->done, procs); wait_for(&sh->left, q - 1); SASCleanUp(); __atomic_add_fetch(&sh->left, 1, __ATOMIC_SEQ_CST); _exit(0); }
      wait_for(&sh->done, procs); wait_for(&sh->left, procs - 1);
      after(); destroy();
      SASRemove();
      _exit(0);
    }
  }
  int left = procs;
  while (left) {
    int st; pid_t p = wait(&st);
    if (p < 0) break;
    left--;
    if (WIFSIGNALED(st) || WEXITSTATUS(st)) {
      ev("{\"e\":\"died\",\"st\":%d}", st);
      for (int q = 0; q < procs; q++) kill(pid[q], SIGKILL);
    }
  }
}
/* a history that differs from all before it in nothing is not written twice */
static uint64_t *seen; static size_t nseen, cseen;
static int once(size_t from)
{
  uint64_t z = 1469598103934665603ULL;
  for (size_t i = from; i < EVB->len; i++) z = (z ^ (unsigned char)EVB->data[i]) * 1099511628211ULL;
  for (size_t i = 0; i < nseen; i++) if (seen[i] == z) { EVB->len = from; return 0; }
  if (nseen == cseen) seen = (uint64_t*)realloc(seen, (cseen = cseen ? 2 * cseen : 256) * sizeof *seen);
  seen[nseen++] = z;
  return 1;
}
static void one(hist_t *h) { ev("{\"e\":\"reset\"}"); store_make("shr"); in_child(history, h, 60); store_drop(); }
int main(int argc, char **argv)
{
  ev_init();
  sh = (struct shared*)mmap(NULL, sizeof(*sh), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
  probe = (__typeof__(probe))mmap(NULL, 4096, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
  if (argc < 7) return 3;
  uint64_t seed = atoll(argv[3]); int count = atoi(argv[4]), len = atoi(argv[5]);
  int mode = !strcmp(argv[1], "sched") ? 0 : !strcmp(argv[1], "real") ? 1 : !strcmp(argv[1], "plan") ? 3 : 2;
  static const char *kn[] = { "heap", "stack", "pages", "index", "strings", "context" };
  for (int i = 0; i < NKIND; i++) if (!strcmp(argv[2], kn[i])) kind = i;
  long runs = 0, kept = 0;
  for (int i = 0; i < count; i++) {
    hist_t h = { mode, seed * 1000003ULL + i, len, 0, { 0 } };
    size_t from = EVB->len;
    nseen = 0;
    one(&h); runs++; kept += once(from);
    if (mode != 3) continue;
    /* the same programs again, the first thread put off at one step after the other */
    long first = probe->steps[0], total = probe->steps[1];
    uint64_t z = h.seed * 2654435761ULL + 12345;
    long stride = first / 40 + 1;
    for (long at = 1 + (long)(z % stride); at <= first; at += stride) {
      for (int two = 0; two < 2; two++) {
        if (two && (z = z * 6364136223846793005ULL + 1442695040888963407ULL, (z >> 40) % 3)) continue;
        h.nplan = 1 + two; h.at[0] = at; h.at[1] = at + 1 + (long)((z >> 20) % (total > first ? total - first : 1));
        from = EVB->len; one(&h); runs++; kept += once(from);
      }
    }
  }
  if (mode == 3) fprintf(stderr, "planned runs %ld, different %ld\n", runs, kept);
  ev_write(argv[argc - 1]);
  return 0;
}
