/* One family of typed entry operations; instantiated for queue entries and for log entries. */
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#define OP(n) CAT(FAM, n)
static int NAME(add)(HANDLE *h, const item_t *x)
{
  switch (x->k) {
  case 'c': return OP(AddChar)(h, x->v.c);
  case 'h': return OP(AddShort)(h, x->v.h);
  case 'i': return OP(AddInt)(h, x->v.i);
  case 'l': return OP(AddLong)(h, x->v.l);
  case 'q': return OP(AddLongLong)(h, x->v.q);
  case 'p': return OP(AddPtr)(h, x->v.p);
  case 'f': return OP(AddFloat)(h, x->v.f);
  case 'd': return OP(AddDouble)(h, x->v.d);
  default: return OP(AddString)(h, x->s);
  }
}
static void NAME(get)(HANDLE *h, item_t *x)
{
  memset(&x->v, 0, sizeof x->v);
  switch (x->k) {
  case 'c': x->v.c = OP(GetNextChar)(h); break;
  case 'h': x->v.h = OP(GetNextShort)(h); break;
  case 'i': x->v.i = OP(GetNextInt)(h); break;
  case 'l': x->v.l = OP(GetNextLong)(h); break;
  case 'q': x->v.q = OP(GetNextLongLong)(h); break;
  case 'p': x->v.p = OP(GetNextPtr)(h); break;
  case 'f': x->v.f = OP(GetNextFloat)(h); break;
  case 'd': x->v.d = OP(GetNextDouble)(h); break;
  }
}
static char *NAME(take)(HANDLE *h, int sz, int al) { return (char*)OP(AllocStruct)(h, sz, al); }
static char *NAME(skip)(HANDLE *h, int sz, int al) { return (char*)OP(GetStructPtr)(h, sz, al); }
static char *NAME(gets)(HANDLE *h) { return OP(GetNextString)(h); }
static char *NAME(ptr)(HANDLE *h) { return (char*)PTR(h); }
static void NAME(run)(HANDLE *w, HANDLE *r, char *start, int lo, int hi, char *script, int len)
{
  memset(w, 0, sizeof *w); memset(r, 0, sizeof *r);
  w->next = r->next = start + lo; w->remaining = r->remaining = hi - lo; w->total_size = r->total_size = hi;
  base = start - ((uintptr_t)start & 63);
  int d = start - base;
  lo += d; hi += d;
  ev("{\"e\":\"entry\",\"lo\":%d,\"hi\":%d}", lo, hi);
  sop_t ops[64];
  int nops = script ? parse_script(script, ops, 64) : len;
  for (int i = 0; i < nops; i++) {
    item_t x; int what;
    memset(&x, 0, sizeof x);
    if (script) {
      char *o = ops[i].op;
      if (o[1] == 't') { x.k = 'S'; x.sz = 6; x.al = 2; }
      else if (o[1] == 'T') { x.k = 'S'; x.sz = 8; x.al = 16; }
      else { x.k = o[1]; if (x.k == 'l') x.k = "lqpd"[rnd(4)]; else if (x.k == 'i') x.k = "if"[rnd(2)]; }
      mkvalue(&x, x.k == 's' ? o[2] - '0' : 0);
      what = o[0] == 'A' ? 0 : 1;
    } else {
      x.k = "chilqpfdsS"[rnd(10)];
      mkvalue(&x, rnd(8) ? (int)rnd(12) : (int)rnd(hi - lo + 4));
      if (x.k == 'S') { x.sz = rnd(6) ? 1 + rnd(40) : 1 + rnd(hi - lo); x.al = 1 << rnd(7); }
      what = rnd(2);
      if (rnd(20) == 0) { ev("{\"e\":\"ptr\",\"w\":%ld,\"r\":%ld}", (long)(NAME(ptr)(w) - base), (long)(NAME(ptr)(r) - base)); continue; }
    }
    if (what == 0) {
      char *was = w->next;
      if (x.k == 'S') {
        char *p = NAME(take)(w, x.sz, x.al);
        if (!p) { ev("{\"e\":\"full\",\"rc\":-1,\"sz\":%d,\"al\":%d,\"nx\":%ld,\"rem\":%d}", x.sz, x.al, (long)(w->next - base), w->remaining); continue; }
        ev("{\"e\":\"take\",\"sz\":%d,\"al\":%d,\"at\":%ld,\"nx\":%ld,\"rem\":%d}", x.sz, x.al, (long)(p - base), (long)(w->next - base), w->remaining);
        if (p - base < lo || p + x.sz - base > hi) return;
        for (int k = 0; k < x.sz; k++) p[k] = rnd(256);
        ev("{\"e\":\"poke\",\"at\":%ld,\"b\":[%s]}", (long)(p - base), bytes(p, x.sz));
        continue;
      }
      int rc = NAME(add)(w, &x);
      if (rc == 0) ev("{\"e\":\"add\",\"k\":\"%c\",\"rc\":0,\"al\":%d,\"b\":[%s],\"nx\":%ld,\"rem\":%d}", x.k, x.al, bytes(x.k == 's' ? x.s : (char*)&x.v, x.sz), (long)(w->next - base), w->remaining);
      else ev("{\"e\":\"full\",\"k\":\"%c\",\"rc\":%d,\"sz\":%d,\"al\":%d,\"nx\":%ld,\"rem\":%d}", x.k, rc, x.sz, x.al, (long)(w->next - base), w->remaining);
      (void)was;
    } else {
      char *was = r->next;
      if (x.k == 'S') {
        char *p = NAME(skip)(r, x.sz, x.al);
        if (!p) ev("{\"e\":\"short\",\"zero\":1,\"sz\":%d,\"al\":%d,\"nx\":%ld,\"rem\":%d}", x.sz, x.al, (long)(r->next - base), r->remaining);
        else ev("{\"e\":\"skip\",\"sz\":%d,\"al\":%d,\"at\":%ld,\"nx\":%ld,\"rem\":%d}", x.sz, x.al, (long)(p - base), (long)(r->next - base), r->remaining);
        continue;
      }
      if (x.k == 's') {
        char *p = NAME(gets)(r);
        if (!p) ev("{\"e\":\"getsnone\",\"nx\":%ld,\"rem\":%d}", (long)(r->next - base), r->remaining);
        else ev("{\"e\":\"gets\",\"at\":%ld,\"n\":%ld,\"nx\":%ld,\"rem\":%d}", (long)(p - base), (long)strnlen(p, hi - (p - base)), (long)(r->next - base), r->remaining);
        continue;
      }
      NAME(get)(r, &x);
      if (r->next == was) { int z = 1; for (int k = 0; k < 8; k++) if (((char*)&x.v)[k]) z = 0;
        ev("{\"e\":\"short\",\"zero\":%d,\"sz\":%d,\"al\":%d,\"nx\":%ld,\"rem\":%d}", z, x.sz, x.al, (long)(r->next - base), r->remaining); }
      else ev("{\"e\":\"get\",\"k\":\"%c\",\"al\":%d,\"b\":[%s],\"nx\":%ld,\"rem\":%d}", x.k, x.al, bytes((char*)&x.v, x.sz), (long)(r->next - base), r->remaining);
    }
  }
}
#undef CAT_
#undef CAT
#undef OP
#undef FAM
#undef NAME
#undef HANDLE
#undef PTR
