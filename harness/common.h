/* Shared harness code: event log in shared memory, one forked process per history, seeded randomness. */
#ifndef VERIF_COMMON_H
#define VERIF_COMMON_H
#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <errno.h>
#include <signal.h>
#include <time.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/prctl.h>
#include <sys/resource.h>

typedef struct { size_t len; size_t cap; volatile int mute; char data[]; } evbuf_t;
static evbuf_t *EVB;

static void ev_init(void)
{
  size_t cap = (size_t)1 << 30;
  EVB = (evbuf_t*)mmap(NULL, cap, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
  if (EVB == MAP_FAILED) { perror("mmap"); exit(3); }
  EVB->cap = cap - sizeof(evbuf_t);
}
/* Append one line; its position in the log is fixed when the space is reserved. */
static void __attribute__((format(printf,1,2),unused)) ev(const char *fmt, ...)
{
  static __thread char b[1 << 18];
  va_list ap;
  if (EVB->mute) return;
  va_start(ap, fmt);
  int n = vsnprintf(b, sizeof(b) - 1, fmt, ap);
  va_end(ap);
  if (n < 0 || n >= (int)sizeof(b) - 1) { fprintf(stderr, "event too long\n"); abort(); }
  b[n++] = '\n';
  size_t p = __atomic_fetch_add(&EVB->len, n, __ATOMIC_SEQ_CST);
  if (p + n > EVB->cap) { fprintf(stderr, "event log full\n"); _exit(3); }
  memcpy(EVB->data + p, b, n);
}
static void __attribute__((unused)) ev_write(const char *path)
{
  FILE *f = fopen(path, "w");
  if (!f) { perror(path); exit(3); }
  for (size_t i = 0; i < EVB->len; i++)
    if (EVB->data[i]) putc(EVB->data[i], f);
  fclose(f);
}
/* splitmix64 */
static uint64_t rng_state = 1;
static inline uint64_t rnd64(void)
{
  uint64_t z = (rng_state += 0x9E3779B97F4A7C15ULL);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
  return z ^ (z >> 31);
}
static inline unsigned rnd(unsigned n) { return n ? (unsigned)(rnd64() >> 11) % n : 0; }
static inline int rnd_in(int a, int b) { return a + (int)rnd((unsigned)(b - a + 1)); }
static void __attribute__((unused)) rnd_seed(uint64_t a, uint64_t b) { rng_state = a * 0x2545F4914F6CDD1DULL + b; rnd64(); rnd64(); }

/* Run one history in a child of its own. A death by signal, an exit the driver did not ask for or a hang becomes an
   event, which no specification admits. exit code 97 is "machinery problem in the driver". */
static double now_s(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static void store_drop(void);
static const char *ev_path;   /* where the trace goes: the last argument */
static void __attribute__((constructor)) ev_path_note(int argc, char **argv) { if (argc > 1) ev_path = argv[argc - 1]; prctl(PR_SET_PDEATHSIG, SIGKILL); }
static int in_child_bad;     /* histories that did not end well */
static int __attribute__((unused)) in_child_(void (*fn)(void*), void *arg, double timeout);
static int __attribute__((unused)) in_child(void (*fn)(void*), void *arg, double timeout)
{
  int r = in_child_(fn, arg, timeout);
  if (r && ++in_child_bad > 2 && ev_path) {    /* enough seen: more of the same could take for ever */
    store_drop();
    ev_write(ev_path);
    exit(0);
  }
  return r;
}
static int in_child_(void (*fn)(void*), void *arg, double timeout)
{
  fflush(NULL);
  pid_t p = fork();
  if (p < 0) { perror("fork"); exit(3); }
  if (p == 0) {
    setpgid(0, 0);
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    struct rlimit cpu = { (rlim_t)(timeout * 10) + 10, (rlim_t)(timeout * 10) + 10 };
    setrlimit(RLIMIT_CPU, &cpu);      /* nothing of it outlives the check for long */
    fn(arg);
    fflush(NULL);
    _exit(0);
  }
  double end = now_s() + timeout;
  int st;
  useconds_t nap = 50;
  for (;;) {
    pid_t w = waitpid(p, &st, WNOHANG);
    if (w == p) break;
    if (now_s() > end) {
      ev("{\"e\":\"hang\"}");
      kill(-p, SIGKILL); kill(p, SIGKILL);
      waitpid(p, &st, 0);
      return -1;
    }
    usleep(nap);
    if (nap < 5000) nap = nap * 3 / 2;
  }
  kill(-p, SIGKILL);   /* stragglers of its group */
  if (WIFSIGNALED(st)) { ev("{\"e\":\"crash\",\"sig\":%d}", WTERMSIG(st)); return -1; }
  if (WEXITSTATUS(st) == 97) { fprintf(stderr, "driver problem in history\n"); exit(97); }
  if (WEXITSTATUS(st)) { ev("{\"e\":\"exit\",\"code\":%d}", WEXITSTATUS(st)); return -1; }
  return 0;
}
/* keep the library's own chatter out of the way */
static void __attribute__((unused)) quiet(void)
{
  if (getenv("VERIF_NOISY")) return;
  int n = open("/dev/null", O_WRONLY);
  if (n >= 0) { dup2(n, 1); if (!getenv("VERIF_STDERR")) dup2(n, 2); close(n); }
}
/* content patterns: fill a live object, verify it later */
static inline unsigned char pat(unsigned id, size_t i) { return (unsigned char)(id * 131u + i * 7u + (i >> 8) * 3u + 1u); }
static void __attribute__((unused)) fill(void *p, size_t n, unsigned id)
{ unsigned char *c = (unsigned char*)p; for (size_t i = 0; i < n; i++) c[i] = pat(id, i); }
static int __attribute__((unused)) intact(const void *p, size_t n, unsigned id)
{ const unsigned char *c = (const unsigned char*)p; for (size_t i = 0; i < n; i++) if (c[i] != pat(id, i)) return 0; return 1; }

/* Private store: a fresh directory under the scratch directory whose SysV key is unused. */
#include <sys/ipc.h>
#include <sys/shm.h>
static char store_dir[512];
/* the library derives its keys from the directory and a project byte of its own choosing: all of them are ours */
static int store_ipc(int drop)
{
  int n = 0;
  for (int c = 1; c < 256; c++) {
    key_t k = ftok(store_dir, c);
    if (k == (key_t)-1) return n;
    int id = shmget(k, 0, 0);
    if (id >= 0) { n++; if (drop) shmctl(id, IPC_RMID, NULL); }
  }
  return n;
}
static void store_ipc_drop(void) { store_ipc(1); }
static void __attribute__((unused)) store_make(const char *tag)
{
  const char *s = getenv("VERIF_SCRATCH");
  static int n;
  if (!s) { fprintf(stderr, "no VERIF_SCRATCH\n"); exit(97); }
  for (int t = 0; t < 50; t++) {
    snprintf(store_dir, sizeof(store_dir), "%s/store.%s.%d.%d", s, tag, (int)getpid(), n++);
    if (mkdir(store_dir, 0700)) { perror(store_dir); exit(97); }
    if (!store_ipc(0)) {
      setenv("SASSTOREPATH", store_dir, 1);
      char fn[600]; snprintf(fn, sizeof(fn), "%s/ipc.%d", s, (int)getpid());
      FILE *f = fopen(fn, "a"); if (f) { fprintf(f, "%d\n", (int)(ftok(store_dir, 1) & 0xffffff)); fclose(f); }
      return;
    }
  }
  fprintf(stderr, "no free store key\n"); exit(97);
}
#include <dirent.h>
static void __attribute__((unused)) store_drop(void)
{
  if (!store_dir[0]) return;
  store_ipc_drop();
  DIR *d = opendir(store_dir);
  if (d) {
    struct dirent *e; char fn[1024];
    while ((e = readdir(d))) if (e->d_name[0] != '.') { snprintf(fn, sizeof(fn), "%s/%s", store_dir, e->d_name); unlink(fn); }
    closedir(d);
  }
  rmdir(store_dir);
}
static int __attribute__((unused)) store_files(void)
{
  int n = 0;
  DIR *d = opendir(store_dir);
  if (d) { struct dirent *e; while ((e = readdir(d))) if (e->d_name[0] != '.') n++; closedir(d); }
  return n;
}
/* Another thread that runs one job at a time (so that a lock left behind by one thread is noticed by the other). */
#include <pthread.h>
#include <semaphore.h>
typedef struct { pthread_t t; sem_t go, done; void (*fn)(void*); void *arg; } helper_t;
static void *helper_main(void *p)
{ helper_t *h = (helper_t*)p; for (;;) { sem_wait(&h->go); h->fn(h->arg); sem_post(&h->done); } return NULL; }
static void __attribute__((unused)) helper_start(helper_t *h)
{ sem_init(&h->go, 0, 0); sem_init(&h->done, 0, 0); if (pthread_create(&h->t, NULL, helper_main, h)) exit(97); }
static void __attribute__((unused)) helper_run(helper_t *h, void (*fn)(void*), void *arg)
{ h->fn = fn; h->arg = arg; sem_post(&h->go); sem_wait(&h->done); }

/* scripts printed by the specification: one per line, operations separated by ';', words by blanks */
typedef struct { char op[16]; int a[6]; int n; } sop_t;
static int __attribute__((unused)) parse_script(char *line, sop_t *ops, int max)
{
  int n = 0;
  char *save1, *o;
  for (o = strtok_r(line, ";\n", &save1); o && n < max; o = strtok_r(NULL, ";\n", &save1)) {
    char *save2, *w = strtok_r(o, " ", &save2);
    if (!w) continue;
    memset(&ops[n], 0, sizeof(sop_t));
    snprintf(ops[n].op, sizeof(ops[n].op), "%s", w);
    while ((w = strtok_r(NULL, " ", &save2)) && ops[n].n < 6) ops[n].a[ops[n].n++] = atoi(w);
    n++;
  }
  return n;
}
#endif
