/* Conformance driver for the store: blocks, the root object, joining, leaving, removing; one to three processes. */
#define _GNU_SOURCE
#include "common.h"
#include <sys/resource.h>
#include "sasalloc.h"
#include "sassim.h"
#define MSG_STR 64
#include "procs.h"
#define PG 4096UL
extern int sasClearOnDealloc;
enum { JOIN, LEAVE, REMOVE, RESET, ALLOC, FREE, FILL, CHK, LISTS, SETROOT, GETROOT, MODE, ANCHOR, EXCL };
static unsigned long low;
#define MAXB 900
typedef struct { unsigned id; int a, s; } blk_t;
#define LMAX 6000
typedef struct { int n[5]; int v[5][LMAX][2]; blk_t b[MAXB]; int nb; } shared_t;
static shared_t *sh;           /* shared with the processes: live blocks, and room for the lists they report */
static void marks(blk_t *b, int wr, int *ok)
{
  unsigned long n = b->s * PG; char *base = (char*)(low + b->a * PG);
  unsigned long off[8] = { 0, n - 64 };
  uint64_t z = b->id * 0x9E3779B97F4A7C15ULL;
  int k = 2;
  for (; k < 6; k++) { z ^= z >> 29; z *= 0xBF58476D1CE4E5B9ULL; z ^= z >> 32; off[k] = (z % (n / 64)) * 64; }
  for (int i = 0; i < k; i++) {
    unsigned seed = b->id * 7919u + (unsigned)(off[i] / 64);
    if (wr) fill(base + off[i], 64, seed); else if (!intact(base + off[i], 64, seed)) *ok = 0;
  }
}
static void *la[LMAX * 4]; static unsigned long lz[LMAX * 4];
static void report(int w, void (*f)(void**, unsigned long*, int*), unsigned long unit)
{
  int c = 0; f(la, lz, &c);
  if (c > LMAX) c = LMAX;
  for (int i = 0; i < c; i++) { sh->v[w][i][0] = ((unsigned long)la[i] - low) / unit; sh->v[w][i][1] = lz[i] / unit; if (((unsigned long)la[i] - low) % unit || lz[i] % unit) sh->v[w][i][0] = -1; }
  sh->n[w] = c;
}
static void second(void *v) { (void)v; SASSeize(); SASRelease(); }
static int excl(void)
{ /* the region's semaphore has one holder */
  static helper_t h; static int started; static pid_t who; struct timespec t; int r;
  if (!started || who != getpid()) { helper_start(&h); started = 1; who = getpid(); }
  SASSeize();
  h.fn = second; h.arg = NULL; sem_post(&h.go);
  clock_gettime(CLOCK_REALTIME, &t); t.tv_nsec += 20000000; if (t.tv_nsec >= 1000000000) { t.tv_sec++; t.tv_nsec -= 1000000000; }
  r = sem_timedwait(&h.done, &t) == 0;
  SASRelease();
  if (!r) sem_wait(&h.done);
  return !r;
}
static int handler(msg_t *m)
{
  struct rlimit rl, was;
  switch (m->op) {
  case JOIN: quiet(); m->r = SASJoinRegion(); low = m->x = getMemLow(); m->y = getMemHigh(); break;
  case LEAVE: if (m->b == 0) SASCleanUp(); return m->a;
  case REMOVE: SASRemove(); return m->a;
  case RESET: SASReset(); break;
  case ALLOC:
    if (m->b) { /* no segment can be made: no descriptors, no space for the file, no address space */
      int what = m->b == 1 ? RLIMIT_NOFILE : m->b == 2 ? RLIMIT_FSIZE : RLIMIT_AS;
      int fd = dup(0); signal(SIGXFSZ, SIG_IGN);
      getrlimit(what, &was); rl = was; rl.rlim_cur = m->b == 1 ? 3 : m->b == 2 ? 1 << 20 : 64 << 20; setrlimit(what, &rl);
      m->p = (unsigned long)SASBlockAlloc(m->q);
      setrlimit(what, &was); if (fd >= 0) close(fd);
    }
    else m->p = (unsigned long)SASBlockAlloc(m->q);
    break;
  case FREE: SASBlockDealloc((void*)m->p, m->q); break;
  case FILL: marks(&sh->b[m->a], 1, NULL); break;
  case CHK: m->r = 1; for (int i = 0; i < sh->nb; i++) if (m->b == 0 || i % m->b == m->c) marks(&sh->b[i], 0, &m->r); break;
  case LISTS: report(0, SASListFreeMem, PG); report(1, SASListUncommittedMem, PG); report(2, SASListInUseMem, PG);
              report(3, SASListFreeRegion, 65536 * PG); report(4, SASListAllocatedRegion, 65536 * PG); break;
  case SETROOT: setSASFinder((void*)m->p); break;
  case GETROOT: m->p = (unsigned long)getSASFinder(); break;
  case MODE: if (m->a == 0) setSASLinearUseList(); else setSASCompactUseList(); sasClearOnDealloc = m->b; break;
  case EXCL: m->r = excl(); break;
  case ANCHOR: m->x = SASAnchorFreeSpace(); break;
  }
  return 0;
}
static proc_t pr[3]; static int st[3];     /* 0: no process, 1: process not joined, 2: joined */
static unsigned bid; static int root;
static msg_t M(int p, msg_t m) { static msg_t x; x = m; proc_call(&pr[p], &x); return x; }
#define SEND(p, ...) M(p, (msg_t){ __VA_ARGS__ })
static int joined(void) { int n = 0; for (int i = 0; i < 3; i++) n += st[i] == 2; return n; }
static int anyp(void) { int p; do p = rnd(3); while (st[p] != 2); return p; }
static void op_join(int p)
{
  if (st[p] == 2) return;
  if (st[p] == 0) { proc_start(&pr[p], handler); st[p] = 1; }
  msg_t m = SEND(p, JOIN);
  low = m.x;
  ev("{\"e\":\"join\",\"p\":%d,\"ok\":%d}", p, m.r == 0 && m.y - m.x == 131072UL * 65536 * PG);
  if (m.r) _exit(0);
  st[p] = 2;
}
static void op_lists(void);
static void op_chk(void);
static void op_leave(int p)
{
  if (st[p] != 2) return;
  int how = rnd(5), stay = how < 2;               /* leaves and stays, leaves and ends, or just ends */
  SEND(p, LEAVE, .a = !stay, .b = how == 4);
  ev("{\"e\":\"leave\",\"p\":%d}", p);
  st[p] = 1;
  if (!stay) { proc_end(&pr[p]); st[p] = 0; }
}
static void op_alloc(int lg, int broken)
{
  int p = anyp(), s = 1 << lg;
  if (sh->nb >= MAXB) return;
  msg_t m = SEND(p, ALLOC, .q = s * PG, .b = broken);
  if (!m.p) { ev("{\"e\":\"allocfail\",\"s\":%d,\"broken\":%d}", s, !!broken); return; }
  unsigned long d = m.p - low;
  if (m.p < low || d % PG || d / PG >= 1UL << 31) { ev("{\"e\":\"badalloc\"}"); _exit(0); }
  ev("{\"e\":\"alloc\",\"p\":%d,\"a\":%d,\"s\":%d}", p, (int)(d / PG), s);
  blk_t *b = &sh->b[sh->nb++];
  b->id = ++bid; b->a = d / PG; b->s = s;
  SEND(rnd(2) ? p : anyp(), FILL, .a = sh->nb - 1);
}
static void op_free(int i)
{
  if (i < 0 || i >= sh->nb) return;
  blk_t b = sh->b[i];
  int p = anyp();
  memmove(&sh->b[i], &sh->b[i + 1], (sh->nb - i - 1) * sizeof(blk_t)); sh->nb--;
  SEND(p, FREE, .p = low + b.a * PG, .q = b.s * PG);
  ev("{\"e\":\"free\",\"p\":%d,\"a\":%d,\"s\":%d}", p, b.a, b.s);
}
static void op_chk(void)
{ int p = anyp(); int part = sh->nb > 60 ? 4 : 0; msg_t m = SEND(p, CHK, .b = part, .c = part ? (int)rnd(part) : 0); ev("{\"e\":\"chk\",\"p\":%d,\"n\":%d,\"ok\":%d}", p, sh->nb, m.r); }
static void op_lists(void)
{
  static char b[1 << 18]; int k = 0;
  SEND(anyp(), LISTS);
  k += sprintf(b, "{\"e\":\"lists\"");
  for (int w = 0; w < 5; w++) {
    k += sprintf(b + k, ",\"%c\":[", "FUXRS"[w]);
    for (int i = 0; i < sh->n[w] && k < (1 << 18) - 100; i++) k += sprintf(b + k, "%s[%d,%d]", i ? "," : "", sh->v[w][i][0], sh->v[w][i][1]);
    k += sprintf(b + k, "]");
  }
  ev("%s}", b);
}
static void op_root(void)
{
  if (rnd(2)) { root = rnd(4) ? 1 + (int)rnd(1000) : 0; SEND(anyp(), SETROOT, .p = root ? low + 8UL * root : 0); ev("{\"e\":\"setroot\",\"v\":%d}", root); }
}
static void op_getroot(void)
{ msg_t m = SEND(anyp(), GETROOT); ev("{\"e\":\"getroot\",\"v\":%d}", m.p == 0 ? 0 : m.p > low && m.p <= low + 8000 && (m.p - low) % 8 == 0 ? (int)((m.p - low) / 8) : -1); }
static void op_excl(void) { msg_t m = SEND(anyp(), EXCL); ev("{\"e\":\"excl\",\"ok\":%d}", m.r); }
static void op_end(int remove)
{ /* by the last one joined */
  while (joined() > 1) op_leave(anyp());
  int p = anyp();
  if (remove) {
    int stay = rnd(2);
    SEND(p, REMOVE, .a = !stay);
    ev("{\"e\":\"remove\",\"p\":%d,\"files\":%d}", p, store_files());
    st[p] = 1;
    if (!stay) { proc_end(&pr[p]); st[p] = 0; }
  } else { SEND(p, RESET); ev("{\"e\":\"wipe\",\"p\":%d,\"files\":%d}", p, store_files()); op_excl(); }
  sh->nb = 0;
}
typedef struct { int mode; uint64_t seed; char **scripts; int nscripts; int len; } hist_t;
static void begin(hist_t *x, int k) { rnd_seed(x->seed, k); for (int i = 0; i < 3; i++) st[i] = 0; sh->nb = 0; }
static void scripts_history(void *v)
{
  hist_t *x = (hist_t*)v; static sop_t ops[256]; static char line[65536];
  begin(x, 1);
  op_join(0); op_join(1);
  for (int s = 0; s < x->nscripts; s++) {
    snprintf(line, sizeof(line), "%s", x->scripts[s]);
    int n = parse_script(line, ops, 256);
    int scale = rnd(2) ? 13 : rnd(14);   /* 8 units make a segment, or something smaller */
    if (!joined()) op_join(rnd(3));
    for (int i = 0; i < n; i++) {
      if (ops[i].op[0] == 'A') { int lg = 0; while ((1 << lg) < ops[i].a[0]) lg++; op_alloc(lg + scale, 0); }
      else op_free(ops[i].a[0]);
    }
    op_chk(); op_lists();
    switch (rnd(4)) {
    case 0: op_end(1); break;
    case 1: while (joined()) op_leave(anyp()); op_join(rnd(3)); op_lists(); op_chk(); /* fall through */
    default: while (sh->nb) op_free(rnd(sh->nb)); op_lists();
    }
  }
  if (joined()) op_end(1);
}
static int size_for(int prof)
{
  switch (prof) {
  case 0: return rnd(5);                       /* 4K..64K */
  case 1: return rnd(17);                      /* everything */
  case 2: return 8 + rnd(9);                   /* 1M..256M */
  case 3: return rnd(3) ? rnd(4) : rnd(3) ? rnd(12) : 14 + rnd(3);
  default: return rnd(2) ? 16 : rnd(17);       /* many segments */
  }
}
static void history(void *v)
{
  hist_t *x = (hist_t*)v;
  begin(x, 2);
  int often = x->mode == 3 ? 6 : 1;
  int prof = x->mode == 2 || x->mode == 4 ? 4 : rnd(4), many = x->mode == 2 ? 60 : x->mode == 4 ? 30 : prof == 0 ? 250 : prof == 2 ? 40 : 100, grow = 1;
  int nb0;
  op_join(rnd(3));
  SEND(anyp(), MODE, .a = rnd(2), .b = prof == 0 && rnd(2));
  if (x->mode == 2) for (int i = 0; i < 18; i++) op_alloc(16, 0);     /* past 4 gigabytes */
  nb0 = x->mode == 2 && rnd(2) ? 18 : 0;                              /* ... which stay, or not */
  op_getroot();
  for (int i = 0; i < x->len; i++) {
    if (!joined()) { op_join(rnd(3)); op_getroot(); if (rnd(2)) op_lists(); op_chk(); }
    if (rnd(40) == 0) grow = !grow;
    int i0 = sh->nb > nb0 ? nb0 + (int)rnd(sh->nb - nb0) : -1;
    switch (rnd(40)) {
    case 0: op_chk(); break;
    case 1: op_lists(); break;
    case 2: op_root(); if (rnd(8) == 0) op_excl(); break;
    case 3: op_getroot(); break;
    case 4: op_join(rnd(3)); if (x->mode == 4) { op_join(rnd(3)); op_chk(); } break;
    case 5: if (rnd(18) < 6 * often) op_leave(rnd(3)); break;
    case 6: if (rnd(12) < often) { while (joined()) op_leave(anyp()); } break;
    case 7: if (rnd(10) == 0) { op_end(rnd(2)); nb0 = 0; root = 0; } break;
    case 8: if (rnd(4) == 0) op_alloc(17 + rnd(4), 0); break;        /* larger than a segment */
    case 9: if (rnd(6) == 0) SEND(anyp(), MODE, .a = rnd(2), .b = prof == 0 && rnd(2)); break;
    case 10: op_alloc(rnd(3) ? 16 : size_for(prof), 1 + rnd(3)); break;       /* no more files can be opened */
    case 11: case 12: case 13: case 14: op_alloc(size_for(prof), 0); break;
    case 15: case 16: case 17: case 18: op_free(i0); break;
    default: if (grow && sh->nb < many) op_alloc(size_for(prof), 0); else op_free(i0);
    }
    if (sh->nb >= many) grow = 0;
    if (sh->nb <= nb0 + 1) grow = 1;
  }
  if (!joined()) op_join(rnd(3));
  op_chk(); op_lists();
  /* everything given back, in any order */
  if (rnd(3)) { while (sh->nb) { op_free(rnd(3) ? rnd(sh->nb) : rnd(2) ? 0 : sh->nb - 1); if (rnd(60) == 0) op_lists(); } op_lists(); }
  op_end(1);
  for (int i = 0; i < 3; i++) if (st[i]) proc_end(&pr[i]);
}
static void cycles(void *v)
{ /* the same work over and over */
  hist_t *x = (hist_t*)v;
  begin(x, 3);
  op_join(0); op_join(1);
  SEND(0, MODE, .a = rnd(2));
  int prof = rnd(4), n = 10 + rnd(60), base[3], fsp[3] = { 0 };
  uint64_t r0 = rnd64();
  for (int i = 0; i < (int)rnd(4); i++) op_alloc(size_for(prof), 0);
  int keep = sh->nb;
  for (int c = 0; c < 12; c++) {
    rnd_seed(r0, 9);
    for (int i = 0; i < n; i++) { if (rnd(3) == 0 && sh->nb > keep) op_free(keep + rnd(sh->nb - keep)); else op_alloc(size_for(prof), 0); }
    while (sh->nb > keep) op_free(keep + rnd(sh->nb - keep));
    SEND(0, LISTS);
    int now = sh->n[4], f = SEND(1, ANCHOR).x;
    if (c >= 9) { base[c - 9] = now; fsp[c - 9] = f; }
  }
  op_lists();
  ev("{\"e\":\"steady\",\"ok\":%d}", base[0] == base[2] && base[1] == base[2] && fsp[0] == fsp[2] && fsp[1] == fsp[2]);
  op_end(1);
}
int main(int argc, char **argv)
{
  ev_init();
  sh = (shared_t*)mmap(NULL, sizeof(*sh), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
  const char *out = argv[argc - 1];
  if (argc < 3) return 3;
  if (!strcmp(argv[1], "script")) {
    FILE *f = fopen(argv[2], "r"); int part = atoi(argv[3]), parts = atoi(argv[4]);
    static char line[65536]; static char *all[200000]; int n = 0, i = 0;
    if (!f) return 3;
    while (fgets(line, sizeof(line), f) && n < 200000) if (i++ % parts == part) all[n++] = strdup(line);
    for (i = 0; i < n; i += 100) {
      ev("{\"e\":\"reset\",\"k\":\"script\"}");
      hist_t h = { 0, i + 1000 * part + 1, all + i, n - i < 100 ? n - i : 100, 0 };
      store_make("blk"); in_child(scripts_history, &h, 240); store_drop();
    }
  } else {                 /* rand|far|cycle|stay|share SEED COUNT LEN */
    uint64_t seed = atoll(argv[2]); int count = atoi(argv[3]), len = atoi(argv[4]);
    for (int i = 0; i < count; i++) {
      ev("{\"e\":\"reset\",\"k\":\"%s\"}", argv[1]);
      hist_t h = { !strcmp(argv[1], "far") ? 2 : !strcmp(argv[1], "stay") ? 3 : !strcmp(argv[1], "share") ? 4 : 1, seed * 1000003ULL + i, NULL, 0, len };
      store_make("blk"); in_child(!strcmp(argv[1], "cycle") ? cycles : history, &h, 240); store_drop();
    }
  }
  ev_write(out);
  return 0;
}
