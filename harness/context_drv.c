/* Conformance driver for contexts and project contexts, over one to three processes on one store. */
#include "common.h"
#include "sasalloc.h"
#include "sassim.h"
#include "sphcontext.h"
#include "sasstringbtreeenum.h"
#include "store.h"
#include "procs.h"
enum { JOIN, LEAVE, CREATE, DESTROY, ADD, RMN, RMA, REN, FBN, FBA, NAMES, SPACE, SETUP, PREM, PDEL, PGET, PCUR, TOTAL, RMSTORE };
static char namelist[1 << 16];
static void alias(void *c, char *s, int want, const char **out)
{ /* the caller's own copy, or the very name the context keeps */
  *out = s;
  if (!want) return;
  void *v = SPHContextFindByName(c, s);
  if (!v) return;
  const char *k = SPHContextFindByAddr(c, v);
  if (k && !strcmp(k, s)) *out = k;
}
static int handler(msg_t *m)
{
  void *c = (void*)m->p; const char *s, *t;
  switch (m->op) {
  case JOIN: quiet(); m->r = SASJoinRegion(); break;
  case LEAVE: SASCleanUp(); return 1;
  case RMSTORE: SASRemove(); return 1;
  case CREATE: m->p = (unsigned long)SPHContextCreate(m->a); m->x = m->p ? SPHContextFreeSpace((void*)m->p) : 0; break;
  case DESTROY: m->r = SPHContextDestroy(c); break;
  case ADD: alias(c, m->s, m->c, &s); m->r = SPHContextAddName(c, s, (void*)m->q); break;
  case RMN: alias(c, m->s, m->c, &s); m->r = SPHContextRemoveByName(c, s); break;
  case RMA: m->r = SPHContextRemoveByAddr(c, (void*)m->q); break;
  case REN: alias(c, m->s, m->c & 1, &s); alias(c, m->t, m->c & 2, &t); m->r = SPHContextRename(c, s, t, (void*)m->q); break;
  case FBN: alias(c, m->s, m->c, &s); m->q = (unsigned long)SPHContextFindByName(c, s); break;
  case FBA: s = SPHContextFindByAddr(c, (void*)m->q); m->r = s != NULL; snprintf(m->s, MSG_STR, "%s", s ? s : ""); break;
  case SPACE: m->x = SPHContextFreeSpace(c); break;
  case NAMES: {   /* a: skip that many, b: how many are in the answer */
      SASStringBTreeEnum_t e = SPHContextGetNameEnum(c);
      m->r = m->b = 0; m->s[0] = m->t[0] = 0; m->c = 1;
      if (e) {
        char prev[MSG_STR] = ""; int i = 0;
        while (SASStringBTreeEnumHasMore(e)) {
          char cur[MSG_STR];
          void *v = SASStringBTreeEnumNext(e);
          const char *k = SASStringBTreeEnumCurrent(e);
          snprintf(cur, MSG_STR, "%s", k ? k : "");
          if (i && strcmp(prev, cur) >= 0) m->c = 0;
          if (v != SPHContextFindByName(c, cur)) m->c = 0;
          strcpy(prev, cur);
          if (i == m->a) { strcpy(m->s, cur); m->b = 1; }
          if (++i > 5000) { m->c = 0; break; }
        }
        m->r = i;
        SASStringBTreeEnumDestroy(e);
      }
      break;
    }
  case SETUP: m->p = (unsigned long)(m->a ? SPHSetupAltProjectContext(m->s) : SPHSetupProjectContext(m->s)); break;
  case PREM: m->p = (unsigned long)SPHRemoveProjectContext(m->s); break;
  case PDEL: m->r = SPHDestroyProjectContext(m->s); break;
  case PGET: m->p = (unsigned long)getProjectContextByName(m->s); break;
  case PCUR: m->p = (unsigned long)getCurrentProjectContext(); break;
  case TOTAL: m->x = store_free_total(); break;
  }
  return 0;
}
#define MAXN 260
#define MAXC 8
static char *nm[MAXN]; static int nnm;
static void mknames(int n)
{
  static const char *pre[] = { "", "a", "zz", "/usr/share/", "project.", "0123456789abcde", "name with blanks ", "\xc3\xa9t\xc3\xa9" };
  nnm = n;
  for (int i = 1; i <= n; i++) for (;;) {
    char b[MSG_STR]; int k = 0;
    k += sprintf(b, "%s", pre[rnd(8)]);
    int len = rnd(3) == 0 ? 1 + (int)rnd(8) : rnd(2) ? (int)rnd(4) * 16 + 14 + (int)rnd(4) : rnd(12) ? (int)rnd(60) : (int)rnd(400);
    while (k < len) b[k++] = "abcxyz019_ ~"[rnd(12)];
    if (k == 0) b[k++] = 'q';
    b[k] = 0;
    int dup = 0;
    for (int j = 1; j < i; j++) dup |= !strcmp(nm[j], b);
    if (dup) continue;
    nm[i] = strdup(b);
    break;
  }
}
static int nid(const char *s) { for (int i = 1; i <= nnm; i++) if (!strcmp(nm[i], s)) return i; return -1; }
static unsigned long av[MAXN]; static int nav;
static void mkaddrs(int n)
{
  nav = n;
  for (int i = 1; i <= n; i++) for (;;) {
    av[i] = rnd(3) ? 0x400000000000UL + 8 * rnd(4096) : rnd(2) ? 1 + rnd(100000) : rnd64() | 1;
    int dup = 0;
    for (int j = 1; j < i; j++) dup |= av[j] == av[i];
    if (!dup) break;
  }
}
static int aid(unsigned long a) { if (!a) return 0; for (int i = 1; i <= nav; i++) if (av[i] == a) return i; return -1; }
typedef struct { int id; unsigned long a; int tight, used; } ctx_t;
static ctx_t cx[MAXC]; static int ncx, nextid;
static proc_t pr[4]; static int np;
static proc_t *P(int i) { return &pr[i]; }
static int anyp(void) { return rnd(np); }
static msg_t M(proc_t *p, msg_t m) { static msg_t x; x = m; proc_call(p, &x); return x; }
#define SEND(p, ...) M(P(p), (msg_t){ __VA_ARGS__ })
static msg_t with(int op, unsigned long p, const char *s, const char *t)
{ msg_t m; memset(&m, 0, sizeof(m)); m.op = op; m.p = p; if (s) strcpy(m.s, s); if (t) strcpy(m.t, t); return m; }
static void join(int p, int fresh)
{
  if (!fresh) { SEND(p, LEAVE); proc_end(P(p)); }
  proc_start(P(p), handler);
  msg_t m = SEND(p, JOIN);
  if (m.r) { ev("{\"e\":\"nojoin\",\"p\":%d}", p); _exit(0); }
  ev("{\"e\":\"join\",\"p\":%d}", p);
}
static ctx_t *find(unsigned long a) { for (int i = 0; i < ncx; i++) if (cx[i].a == a) return &cx[i]; return NULL; }
static int cid(unsigned long a) { ctx_t *c = find(a); return !a ? 0 : c ? c->id : -1; }
static ctx_t *reg(unsigned long a, int tight) { ctx_t *c = &cx[ncx++]; c->used = 0; c->id = ++nextid; c->a = a; c->tight = tight; return c; }
static void drop(ctx_t *c) { *c = cx[--ncx]; }
static void op_add(ctx_t *c, int n, int a)
{ msg_t m = with(ADD, c->a, nm[n], NULL); m.q = av[a]; m.c = rnd(2); m = M(P(anyp()), m);
  ev("{\"e\":\"add\",\"c\":%d,\"n\":%d,\"a\":%d,\"r\":%d,\"t\":%d}", c->id, n, a, m.r != 0, c->tight); }
static void op_rmn(ctx_t *c, int n)
{ msg_t m = with(RMN, c->a, nm[n], NULL); m.c = rnd(2); m = M(P(anyp()), m); ev("{\"e\":\"rmn\",\"c\":%d,\"n\":%d,\"r\":%d}", c->id, n, m.r == 0); }
static void op_rma(ctx_t *c, int a)
{ msg_t m = with(RMA, c->a, NULL, NULL); m.q = av[a]; m = M(P(anyp()), m); ev("{\"e\":\"rma\",\"c\":%d,\"a\":%d,\"r\":%d}", c->id, a, m.r == 0); }
static void op_ren(ctx_t *c, int n, int k, int a)
{ msg_t m = with(REN, c->a, nm[n], nm[k]); m.q = av[a]; m.c = rnd(4); m = M(P(anyp()), m);
  ev("{\"e\":\"ren\",\"c\":%d,\"n\":%d,\"m\":%d,\"a\":%d,\"r\":%d,\"t\":%d}", c->id, n, k, a, m.r != 0, c->tight); }
static int op_fbn(ctx_t *c, int n)
{ msg_t m = with(FBN, c->a, nm[n], NULL); m.c = rnd(2); m = M(P(anyp()), m); ev("{\"e\":\"fbn\",\"c\":%d,\"n\":%d,\"a\":%d}", c->id, n, aid(m.q)); return aid(m.q); }
static int op_fba(ctx_t *c, int a)
{ msg_t m = with(FBA, c->a, NULL, NULL); m.q = av[a]; m = M(P(anyp()), m); int n = m.r ? nid(m.s) : 0; ev("{\"e\":\"fba\",\"c\":%d,\"a\":%d,\"n\":%d}", c->id, a, n); return n; }
static void op_names(ctx_t *c)
{
  msg_t m = with(NAMES, c->a, NULL, NULL); static int l[MAXN]; int n, up;
  int p = anyp();
  m.a = 0; m = M(P(p), m); n = m.r; up = m.c;
  if (n > MAXN - 10) { up = 0; n = MAXN - 10; }
  for (int i = 0; i < n; i++) { l[i] = nid(m.s); m = with(NAMES, c->a, NULL, NULL); m.a = i + 1; if (i + 1 < n) m = M(P(p), m); }
  static char b[8000]; int k = 0;
  k += sprintf(b + k, "{\"e\":\"names\",\"c\":%d,\"up\":%d,\"l\":[", c->id, up);
  for (int i = 0; i < n; i++) k += sprintf(b + k, "%s%d", i ? "," : "", l[i]);
  ev("%s]}", b);
}
static void op_space(ctx_t *c)
{
  msg_t m = M(P(anyp()), with(SPACE, c->a, NULL, NULL));
  static char b[8000]; int k = sprintf(b, "{\"e\":\"space\",\"c\":%d,\"free\":%lu,\"len\":[", c->id, m.x);
  for (int i = 1; i <= nnm; i++) k += sprintf(b + k, "%s%d", i > 1 ? "," : "", (int)strlen(nm[i]));
  ev("%s]}", b);
}
static ctx_t *op_create(long sz)
{
  msg_t m = SEND(anyp(), CREATE, .a = sz);
  if (!m.p || find(m.p)) { ev("{\"e\":\"badcreate\"}"); _exit(0); }
  ctx_t *c = reg(m.p, sz <= 8192);
  ev("{\"e\":\"create\",\"c\":%d,\"free\":%lu}", c->id, m.x);
  return c;
}
static void op_destroy(ctx_t *c)
{ msg_t m = M(P(anyp()), with(DESTROY, c->a, NULL, NULL)); ev("{\"e\":\"destroy\",\"c\":%d,\"r\":%d}", c->id, m.r == 0); drop(c); }
static void op_setup(int p, int n, int alt)
{
  msg_t m = with(SETUP, 0, nm[n], NULL); m.a = alt; m = M(P(p), m);
  if (!m.p) { ev("{\"e\":\"badsetup\"}"); _exit(0); }
  ctx_t *c = find(m.p);
  if (!c) c = reg(m.p, 0);
  c->used = 1;
  msg_t e = M(P(p), with(NAMES, c->a, NULL, NULL)), f = M(P(p), with(SPACE, c->a, NULL, NULL));
  ev("{\"e\":\"setup\",\"p\":%d,\"n\":%d,\"c\":%d,\"alt\":%d,\"cnt\":%d,\"free\":%lu}", p, n, c->id, alt, e.r, f.x);
}
static void op_prem(int p, int n)
{ msg_t m = M(P(p), with(PREM, 0, nm[n], NULL)); ev("{\"e\":\"prem\",\"p\":%d,\"n\":%d,\"c\":%d}", p, n, cid(m.p)); ctx_t *c = find(m.p); if (c) c->used = 0; }
static int op_pget(int n)
{ msg_t m = M(P(anyp()), with(PGET, 0, nm[n], NULL)); ev("{\"e\":\"pget\",\"n\":%d,\"c\":%d}", n, cid(m.p)); return cid(m.p); }
static void op_pdel(int p, int n)
{
  int c = op_pget(n);
  msg_t m = M(P(p), with(PDEL, 0, nm[n], NULL));
  ev("{\"e\":\"pdel\",\"p\":%d,\"n\":%d,\"r\":%d}", p, n, m.r == 0);
  for (int i = 0; i < ncx; i++) if (c > 0 && cx[i].id == c) { drop(&cx[i]); break; }
}
static void op_pcur(int p)
{ msg_t m = M(P(p), with(PCUR, 0, NULL, NULL)); ev("{\"e\":\"pcur\",\"p\":%d,\"c\":%d}", p, cid(m.p)); }
static void look(ctx_t *c)
{ for (int i = 1; i <= nnm; i++) op_fbn(c, i); for (int i = 1; i <= nav; i++) op_fba(c, i); }
typedef struct { int mode; uint64_t seed; char **scripts; int nscripts; int len; } hist_t;
static unsigned long total(void) { return SEND(anyp(), TOTAL).x; }
static void store_event(unsigned long before) { unsigned long now = total(); ev("{\"e\":\"store\",\"same\":%d,\"lost\":%ld}", now == before, (long)(before - now)); }
static void ctx_scripts(void *v)
{
  hist_t *x = (hist_t*)v; static sop_t ops[256]; static char line[65536];
  rnd_seed(x->seed, 3);
  np = 2; join(0, 1); join(1, 1);
  for (int s = 0; s < x->nscripts; s++) {
    snprintf(line, sizeof(line), "%s", x->scripts[s]);
    int n = parse_script(line, ops, 256);
    mknames(3); mkaddrs(3);
    ctx_t *c = op_create(rnd(2) ? 65536 : 16384);
    for (int i = 0; i < n; i++) switch (ops[i].op[0]) {
      case 'A': op_add(c, ops[i].a[0], ops[i].a[1]); break;
      case 'R': op_rmn(c, ops[i].a[0]); break;
      case 'X': op_rma(c, ops[i].a[0]); break;
      case 'M': op_ren(c, ops[i].a[0], ops[i].a[1], ops[i].a[2]); break;
    }
    look(c); op_names(c); op_space(c);
    op_destroy(c);
  }
  SEND(0, RMSTORE);
}
static void proj_scripts(void *v)
{
  hist_t *x = (hist_t*)v; static sop_t ops[256]; static char line[65536];
  rnd_seed(x->seed, 4);
  int up[2] = { 0, 0 };
  np = 2;
  mknames(2);
  for (int s = 0; s < x->nscripts; s++) {
    snprintf(line, sizeof(line), "%s", x->scripts[s]);
    int n = parse_script(line, ops, 256), used[2] = { 0, 0 };
    mkaddrs(2);
    for (int i = 0; i < n; i++) {
      int p = ops[i].a[0], k = ops[i].a[1];
      if (ops[i].op[0] == 'J') { join(p, !up[p]); up[p] = used[p] = 1; continue; }
      switch (ops[i].op[0]) {
      case 'S': op_setup(p, k, 0); break;
      case 'L': op_setup(p, k, 1); break;
      case 'V': op_prem(p, k); break;
      case 'D': op_pdel(p, k); break;
      }
    }
    /* each script starts from no projects and no current one */
    if (!up[0]) { join(0, 1); up[0] = 1; }
    np = up[1] ? 2 : 1;
    for (int k = 1; k <= 2; k++) op_pget(k);
    for (int p = 0; p < 2; p++) if (used[p]) op_pcur(p);
    for (int k = 1; k <= 2; k++) op_pdel(0, k);
    while (ncx) op_destroy(&cx[0]);
    np = 2;
  }
  SEND(0, RMSTORE);
}
static int boundname(ctx_t *c) { int n = op_fba(c, 1 + rnd(nav)); return n > 0 ? n : 1 + (int)rnd(nnm); }
static void history(void *v)
{
  hist_t *x = (hist_t*)v;
  rnd_seed(x->seed, 5);
  np = 1 + rnd(3);
  for (int i = 0; i < np; i++) join(i, 1);
  mknames(x->mode == 2 ? 200 : rnd(3) ? 12 : 60); mkaddrs(x->mode == 2 ? 200 : rnd(3) ? 12 : 60);
  op_setup(0, 1, 0); op_pdel(0, 1);          /* the root context stays; what comes after is accounted for */
  unsigned long before = total();
  int grow = 1;
  for (int i = 0; i < x->len; i++) {
    int n = 1 + rnd(nnm), k = 1 + rnd(nnm), a = 1 + rnd(nav), p = anyp();
    if (rnd(80) == 0) grow = !grow;
    if (ncx == 0) op_create(x->mode == 2 ? 65536 : rnd(3) ? 16384 << rnd(3) : rnd(2) ? 8192 : 4096 << rnd(2));
    ctx_t *c = &cx[rnd(ncx)];
    switch (rnd(x->mode == 2 ? 20 : 32)) {
    case 0: case 1: case 2: case 3: op_add(c, n, a); break;
    case 4: case 5: if (grow) op_add(c, n, a); else op_rmn(c, boundname(c)); break;
    case 6: case 7: if (grow) op_add(c, n, a); else op_rma(c, a); break;
    case 8: op_rmn(c, rnd(2) ? n : boundname(c)); break;
    case 9: op_rma(c, a); break;
    case 10: case 11: { int b = boundname(c); int w = op_fbn(c, b); op_ren(c, b, rnd(3) ? k : rnd(2) ? b : boundname(c), w > 0 && rnd(8) ? w : a); break; }
    case 12: op_ren(c, n, k, a); break;
    case 13: case 14: op_fbn(c, n); break;
    case 15: case 16: op_fba(c, a); break;
    case 17: case 18: op_space(c); break;
    case 19: if (rnd(3) == 0) op_names(c); break;
    case 20: if (ncx < MAXC - 1) op_create(rnd(2) ? 65536 : 8192); break;
    case 21: if (!c->used) op_destroy(c); break;       /* one registered as a project is left alone */
    case 22: case 23: case 24: if (ncx < MAXC - 1) op_setup(p, 1 + rnd(3), rnd(2)); break;
    case 25: op_prem(p, 1 + rnd(3)); break;
    case 26: op_pdel(p, 1 + rnd(3)); break;
    case 27: case 28: op_pget(1 + rnd(3)); break;
    case 29: case 30: op_pcur(p); break;
    case 31: if (rnd(2)) join(p, 0); break;
    }
  }
  for (int i = 0; i < ncx; i++) { look(&cx[i]); op_names(&cx[i]); op_space(&cx[i]); }
  /* a context emptied one way or another has all its space again */
  for (int i = 0; i < ncx; i++) {
    for (int n = 1; n <= nnm; n++) if (rnd(2)) op_rmn(&cx[i], n);
    for (int a = 1; a <= nav; a++) op_rma(&cx[i], a);
    op_space(&cx[i]);
  }
  for (int n = 1; n <= 3; n++) op_pdel(anyp(), n);
  while (ncx) op_destroy(&cx[rnd(ncx)]);
  store_event(before);
  SEND(0, RMSTORE);
}
int main(int argc, char **argv)
{
  ev_init();
  const char *out = argv[argc - 1];
  if (argc < 3) return 3;
  if (!strcmp(argv[1], "ctx") || !strcmp(argv[1], "proj")) {
    FILE *f = fopen(argv[2], "r"); int part = atoi(argv[3]), parts = atoi(argv[4]);
    static char line[65536]; static char *all[100000]; int n = 0, i = 0;
    if (!f) return 3;
    while (fgets(line, sizeof(line), f) && n < 100000) if (i++ % parts == part) all[n++] = strdup(line);
    for (i = 0; i < n; i += 100) {
      ev("{\"e\":\"reset\",\"k\":\"script\"}");
      hist_t h = { 0, i + 1000 * part + 1, all + i, n - i < 100 ? n - i : 100, 0 };
      store_make("ctx"); in_child(argv[1][0] == 'c' ? ctx_scripts : proj_scripts, &h, 240); store_drop();
    }
  } else {                 /* rand|big SEED COUNT LEN */
    uint64_t seed = atoll(argv[2]); int count = atoi(argv[3]), len = atoi(argv[4]);
    for (int i = 0; i < count; i++) {
      ev("{\"e\":\"reset\",\"k\":\"%s\"}", argv[1]);
      hist_t h = { !strcmp(argv[1], "big") ? 2 : 1, seed * 1000003ULL + i, NULL, 0, len };
      store_make("ctx"); in_child(history, &h, 240); store_drop();
    }
  }
  ev_write(out);
  return 0;
}
