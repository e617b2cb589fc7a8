/* Several processes on one store, each carrying out one command at a time for the history that drives them. */
#ifndef VERIF_PROCS_H
#define VERIF_PROCS_H
#include <sys/socket.h>
#include <poll.h>
#ifndef MSG_STR
#define MSG_STR 600
#endif
typedef struct { int op, a, b, c, r; unsigned long p, q, x, y; char s[MSG_STR], t[MSG_STR]; } msg_t;
typedef struct { pid_t pid; int fd; } proc_t;
static proc_t *proc_list[16]; static int proc_n;
static int io_all(int fd, void *b, size_t n, int wr)
{
  char *c = (char*)b;
  while (n) {
    ssize_t k = wr ? send(fd, c, n, MSG_NOSIGNAL) : recv(fd, c, n, 0);
    if (k < 0 && errno == EINTR) continue;
    if (k <= 0) return -1;
    c += k; n -= k;
  }
  return 0;
}
/* handler returns 0 to go on, 1 to leave */
static void proc_start(proc_t *p, int (*handler)(msg_t*))
{
  int sv[2];
  if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv)) _exit(97);
  fflush(NULL);
  pid_t c = fork();
  if (c < 0) _exit(97);
  if (c == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    close(sv[0]);
    for (int i = 0; i < proc_n; i++) close(proc_list[i]->fd);
    rnd_seed(rnd64(), getpid());
    static msg_t m;
    while (!io_all(sv[1], &m, sizeof(m), 0)) {
      int leave = handler(&m);
      if (io_all(sv[1], &m, sizeof(m), 1)) break;
      if (leave) break;
    }
    _exit(0);
  }
  close(sv[1]);
  p->pid = c; p->fd = sv[0];
  proc_list[proc_n++] = p;
}
/* one command; a process that dies or does not answer ends the history with an event no specification admits */
static void proc_call(proc_t *p, msg_t *m)
{
  if (io_all(p->fd, m, sizeof(*m), 1)) goto dead;
  struct pollfd f = { p->fd, POLLIN, 0 };
  int k;
  while ((k = poll(&f, 1, 30000)) < 0 && errno == EINTR);
  if (k == 0) { ev("{\"e\":\"hang\",\"op\":%d}", m->op); kill(p->pid, SIGKILL); _exit(0); }
  if (io_all(p->fd, m, sizeof(*m), 0)) goto dead;
  return;
dead:;
  int st = 0;
  waitpid(p->pid, &st, 0);
  ev("{\"e\":\"crash\",\"sig\":%d,\"op\":%d}", WIFSIGNALED(st) ? WTERMSIG(st) : 0, m->op);
  _exit(0);
}
static void __attribute__((unused)) proc_end(proc_t *p)
{
  close(p->fd);
  waitpid(p->pid, NULL, 0);
  for (int i = 0; i < proc_n; i++) if (proc_list[i] == p) { proc_list[i] = proc_list[--proc_n]; break; }
}
#endif
