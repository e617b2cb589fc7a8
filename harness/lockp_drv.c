/* The lock manager under the system's own scheduling: several processes, each with several threads, on one store. */
#define _GNU_SOURCE
#include "common.h"
#include <pthread.h>
#include "saslock.h"
#include "sassim.h"
#include "locktab.h"
typedef struct { uint64_t seed; int prof; } hist_t;
static void *addr[16]; static int naddr;
static int nthr, len, prof, proc; static uint64_t seed0;
typedef struct { volatile int finished, at, joined, come; void * volatile block; } shm_t;
static shm_t *S;
#define finished (S->finished)
static int others_done(void *v) { return finished >= (int)(long)v; }
#define WAIT(p, a) while (!p(a)) usleep(50)
#include "lockprog.h"
static int per;
static void meet(volatile int *c, int n) { __atomic_fetch_add(c, 1, __ATOMIC_SEQ_CST); while (*c < n) usleep(20); }
static void *thread(void *v)
{
  int t = proc * per + (int)(long)v;
  meet(&S->at, nthr);
  program(t, NULL);
  return NULL;
}
static void history(void *v)
{
  hist_t *x = (hist_t*)v;
  quiet();
  rnd_seed(x->seed, 5);
  seed0 = x->seed; prof = x->prof;
  S = (shm_t*)mmap(NULL, 4096, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
  int np = prof == 2 ? 3 + rnd(2) : 2 + rnd(2);
  per = prof == 2 ? 3 : 1 + rnd(2); nthr = np * per;
  naddr = prof == 0 ? 1 : prof == 2 ? 1 + rnd(2) : 2 + rnd(3);
  len = prof == 2 ? 6 + rnd(10) : 20 + rnd(60);
  if (SASJoinRegion()) _exit(97);
  choose_addresses();
  SASCleanUp();
  pid_t c[16];
  unsigned long size = 4096UL << rnd(13), place = rnd(size / 64 - 16) * 64UL;   /* what the locks protect lies in a block that one of the processes gets */
  for (int p = 0; p < np; p++) {
    fflush(NULL);
    if (!(c[p] = fork())) {
      proc = p;
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      if (SASJoinRegion()) _exit(97);
      meet(&S->come, np);                /* everybody is there before the block is */
      if (!p) { char *b = (char*)SASBlockAlloc(size); if (!b) _exit(97); memset(b + place, 0, 16 * 32); S->block = b; }
      while (!S->block) usleep(20);
      mem = (volatile int (*)[8])((char*)S->block + place);
      pthread_t th[16];
      for (int t = 0; t < per; t++) pthread_create(&th[t], NULL, thread, (void*)(long)t);
      for (int t = 0; t < per; t++) pthread_join(th[t], NULL);
      meet(&S->joined, np);
      SASCleanUp();
      _exit(0);
    }
  }
  int bad = 0;
  for (int p = 0; p < np; p++) { int st; pid_t w = waitpid(-1, &st, 0); (void)w; if (st && !bad) { bad = 1; ev("{\"e\":\"crash\",\"st\":%d}", st); _exit(0); } }
  ev("{\"e\":\"end\"}");
  if (SASJoinRegion()) _exit(97);
  SASRemove();
}
int main(int argc, char **argv)
{
  ev_init();
  if (argc < 4) return 3;
  uint64_t seed = atoll(argv[1]); int count = atoi(argv[2]);
  for (int i = 0; i < count; i++) {
    hist_t h = { seed * 1000003ULL + i, (int)((seed + i) % 5) };
    ev("{\"e\":\"reset\",\"n\":%d}", h.prof);
    store_make("lockp"); in_child(history, &h, 60); store_drop();
  }
  ev_write(argv[argc - 1]);
  return 0;
}
