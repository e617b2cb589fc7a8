/* Conformance driver for the typed contents of queue and log entries. */
#include "common.h"
#include "sphlfentry.h"
#include "sphlflogger.h"
#include "sphlflogentry.h"
#include "sphdirectpcqueue.h"
typedef struct { char k; int sz, al; char *s; union { char c; short h; int i; long l; long long q; void *p; float f; double d; char b[8]; } v; } item_t;
static char *base;
static char *bytes(const char *p, int n)
{
  static char o[1 << 17]; char *q = o;
  *q = 0;
  for (int i = 0; i < n; i++) q += sprintf(q, i ? ",%d" : "%d", (unsigned char)p[i]);
  return o;
}
static void mkvalue(item_t *x, int len)
{
  static char str[70000];
  static const struct { char k; int sz, al; } t[] = { {'c',1,1}, {'h',2,2}, {'i',4,4}, {'l',8,8}, {'q',8,8}, {'p',8,8}, {'f',4,4}, {'d',8,8} };
  for (int i = 0; i < 8; i++) if (t[i].k == x->k) { x->sz = t[i].sz; x->al = t[i].al; for (int j = 0; j < x->sz; j++) x->v.b[j] = rnd(4) ? rnd(256) : rnd(2) ? 255 : 0; }
  if (x->k == 'f') x->v.f = (int)rnd(100000) - 50000;      /* no NaN: their bits may change on the way */
  if (x->k == 'd') x->v.d = ((int)rnd(100000000) - 50000000) / 16.0;
  if (x->k == 's') { for (int i = 0; i < len; i++) str[i] = 1 + rnd(255); str[len] = 0; x->s = str; x->sz = len + 1; x->al = 1; }
}
#define FAM SPHLFEntry
#define HANDLE SPHLFEntryHandle_t
#define NAME(x) q_##x
#define PTR SPHLFEntryGetFreePtr
#include "codec_ops.h"
#define FAM SPHLFlogEntry
#define HANDLE SPHLFLoggerHandle_t
#define NAME(x) l_##x
#define PTR SPHLFLogEntryGetFreePtr
#include "codec_ops.h"
typedef struct { uint64_t seed; char *script; int lo, hi, len; } hist_t;
static void history(void *v)
{
  hist_t *x = (hist_t*)v;
  quiet();
  rnd_seed(x->seed, 17);
  int lo = x->lo, hi = x->hi, pages;
  if (!x->script) { lo = rnd(2) ? 4 : 16; hi = rnd(12) ? 16 * (2 + rnd(rnd(2) ? 8 : 30)) : 16 * (100 + rnd(400)); }
  pages = (hi + 256 + 4095) / 4096;
  char *m = (char*)mmap(NULL, (pages + 1) * 4096L, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0), *end = m + pages * 4096L;
  mprotect(end, 4096, PROT_NONE);
  int gap = x->script || rnd(2) ? 0 : 16 * rnd(8);         /* the entry ends at the end of the page, or shortly before */
  char *start = end - gap - hi, *front = start - 64;
  memset(m, rnd(2) ? 0 : rnd(2) ? 0xff : 0x5a, end - m);
  fill(front, 64 + lo, 9); fill(start + hi, gap, 8);
  int fam = rnd(2);
  if (fam) { SPHLFLoggerHandle_t w, r; l_run(&w, &r, start, lo, hi, x->script, x->len); }
  else { SPHLFEntryHandle_t w, r; q_run(&w, &r, start, lo, hi, x->script, x->len); }
  ev("{\"e\":\"dump\",\"out\":%d,\"b\":[%s]}", intact(front, 64 + lo, 9) && intact(start + hi, gap, 8), bytes(start + lo, hi - lo));
  for (int i = 0; i < 6; i++) {
    int p = 16 * rnd(40), inc = rnd(100), al = 1 << rnd(8);
    if (rnd(2)) ev("{\"e\":\"align\",\"p\":%d,\"inc\":4,\"al\":%d,\"r\":%ld}", p, al, (long)((char*)SPHLFEntryDirectGetPtrAligned((void*)(0x10000L + p), al) - (char*)0x10000));
    else ev("{\"e\":\"align\",\"p\":%d,\"inc\":%d,\"al\":%d,\"r\":%ld}", p, inc, al, (long)((char*)SPHLFEntryDirectIncAndAlign((void*)(0x10000L + p), inc, al) - (char*)0x10000));
  }
}
int main(int argc, char **argv)
{
  ev_init();
  if (argc < 4) return 3;
  if (!strcmp(argv[1], "script")) {
    FILE *f = fopen(argv[2], "r");
    static char line[65536];
    int part = atoi(argv[3]), parts = atoi(argv[4]);
    if (!f) return 3;
    for (uint64_t k = 0; fgets(line, sizeof(line), f); k++) {
      if ((int)(k % parts) != part) continue;
      ev("{\"e\":\"reset\",\"k\":\"script\"}");
      hist_t h = { k + 1, line, atoi(argv[5]), atoi(argv[6]), 0 };
      in_child(history, &h, 20);
    }
  } else {
    uint64_t seed = atoll(argv[2]); int count = atoi(argv[3]); int len = atoi(argv[4]);
    for (int i = 0; i < count; i++) {
      ev("{\"e\":\"reset\",\"k\":\"rand\"}");
      hist_t h = { seed * 1000003ULL + i, NULL, 0, 0, len };
      in_child(history, &h, 20);
    }
  }
  ev_write(argv[argc - 1]);
  return 0;
}
