/* What each thread does with the locks; the including driver defines naddr, addr, nthr, len, prof, seed0, finished and WAIT. */
typedef struct { uint64_t s; } rg_t;
static unsigned rg(rg_t *g, unsigned n) { uint64_t z = (g->s += 0x9E3779B97F4A7C15ULL); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z ^= z >> 27; return (unsigned)(z >> 11) % n; }
/* what a lock protects: eight words, all equal; every writer adds one */
static volatile int (*mem)[8];
static int seen(int a) { for (int i = 1; i < 8; i++) if (mem[a][i] != mem[a][0]) return -1; return mem[a][0]; }
static void acquire(int t, int a, int w)
{
  ev("{\"e\":\"req\",\"t\":%d,\"a\":%d,\"w\":%d}", t, a, w);
  SASLock(addr[a], w ? SasUserLock__WRITE : SasUserLock__READ);
  int v = seen(a);
  ev("{\"e\":\"got\",\"t\":%d,\"a\":%d,\"w\":%d,\"v\":%d}", t, a, w, v);
  if (w) for (int i = 0; i < 8; i++) mem[a][i] = v + 1;
}
static void release(int t, int a)
{
  ev("{\"e\":\"rel\",\"t\":%d,\"a\":%d,\"v\":%d}", t, a, seen(a));
  SASUnlock(addr[a]);
}
static void program(int t, void *v)
{
  rg_t g = { seed0 * 31 + t * 7919 + 1 };
  struct { int a, w, n; } h[16]; int nh = 0;
  if (prof == 3 && t == 0) {            /* holds one address until everybody else, on other addresses, is through */
    acquire(t, 0, rg(&g, 2));
    WAIT(others_done, (void*)(long)(nthr - 1));
    release(t, 0);
    return;
  }
  int lo = prof == 3 ? 1 : 0;
  for (int i = 0; i < len; i++) {
    int top = lo - 1; for (int k = 0; k < nh; k++) if (h[k].a > top) top = h[k].a;
    int c = rg(&g, 6);
    if (nh && (c < 2 || top == naddr - 1 && c < 5)) {
      int k = rg(&g, nh);
      release(t, h[k].a);
      if (!--h[k].n) h[k] = h[--nh];
    } else if (nh && c == 5) {
      int k = rg(&g, nh);
      if (h[k].n > 4) continue;
      acquire(t, h[k].a, h[k].w ? rg(&g, 2) : 0); h[k].n++;
    } else if (top < naddr - 1) {
      int a = top + 1 + rg(&g, naddr - top - 1);
      int w = prof == 2 ? rg(&g, 8) == 0 : rg(&g, 2);
      acquire(t, a, w); h[nh].a = a; h[nh].w = w; h[nh].n = 1; nh++;
    }
  }
  while (nh) { int k = rg(&g, nh); release(t, h[k].a); if (!--h[k].n) h[k] = h[--nh]; }
  __atomic_fetch_add(&finished, 1, __ATOMIC_SEQ_CST);
}
/* addresses of all sorts: anywhere, next to each other, gigabytes apart; sharing a slot of the table, but for profile 4 */
static void choose_addresses(void)
{
  char *base = (char*)getMemLow();
  for (int i = 0; i < naddr; i++) {
    int kind = rnd(4);
    for (int tries = 0; ; tries++) {
      char *from = i ? (char*)addr[rnd(i)] : base + 4096;
      if (tries > 20000) kind = 3;
      switch (i ? kind : 3) {
      case 0: addr[i] = from + rnd(4096); break;                                    /* close by */
      case 1: addr[i] = from + ((unsigned long)rnd(1 << 14) << 32); break;            /* the same but for the upper half */
      case 2: addr[i] = base + (((unsigned long)rnd(1 << 24) << 20) | ((unsigned long)from & 0xfffff)); break;   /* the same lower part */
      default: addr[i] = base + 4096 + 16 * (unsigned long)rnd(1 << 28); break;
      }
      int ok = 1; for (int k = 0; k < i; k++) ok &= addr[k] != addr[i];
      if (ok && i && prof != 4) ok = lock_slot(addr[i]) == lock_slot(addr[0]);
      if (ok) break;
    }
  }
}
