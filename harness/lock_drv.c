/* Conformance driver for the lock manager: threads under the schedule controller. */
#define _GNU_SOURCE
#include "common.h"
#include "vsched.h"
#include "saslock.h"
#include "sassim.h"
#include "locktab.h"
typedef struct { uint64_t seed; int prof; } hist_t;
static void *addr[16]; static int naddr;
static int nthr, len, prof; static uint64_t seed0;
static volatile int finished;
static int others_done(void *v) { return finished >= (int)(long)v; }
#define WAIT(p, a) sched_wait(p, a)
#include "lockprog.h"
static volatile int words[16][8];
static void history(void *v)
{
  mem = words;
  hist_t *x = (hist_t*)v; sched_t s;
  quiet();
  if (SASJoinRegion()) _exit(97);
  rnd_seed(x->seed, 5);
  seed0 = x->seed; prof = x->prof; finished = 0;
  /* 0: one address; 1: addresses that share a slot of the table; 2: many readers; 3: one held all along; 4: any addresses */
  naddr = prof == 0 ? 1 : prof == 2 ? 1 + rnd(2) : 2 + rnd(3);
  nthr = prof == 2 ? 8 + rnd(7) : 2 + rnd(4);
  len = prof == 2 ? 2 + rnd(4) : 3 + rnd(8);
  choose_addresses();
  for (int round = 0; round < 3; round++) {     /* the table keeps what earlier rounds left in it */
    finished = 0; seed0 = x->seed * 5 + round;
    sched_random(&s, x->seed * 3 + round);
    int rc = sched_run(nthr, program, NULL, &s);
    if (rc) { ev("{\"e\":\"stuck\",\"why\":%d,\"who\":%d}", rc, sched_blocked_mask); _exit(0); }
    ev("{\"e\":\"end\"}");
  }
  SASRemove();
}
int main(int argc, char **argv)
{
  ev_init();
  if (argc < 4) return 3;
  uint64_t seed = atoll(argv[1]); int count = atoi(argv[2]);
  for (int i = 0; i < count; i++) {
    hist_t h = { seed * 1000003ULL + i, (int)((seed + i) % 5) };
    ev("{\"e\":\"reset\",\"n\":%d}", h.prof);
    store_make("lock"); in_child(history, &h, 120); store_drop();
  }
  ev_write(argv[argc - 1]);
  return 0;
}
