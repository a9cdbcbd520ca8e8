/* Stands in for python, parallel, pv and, where a fault is planned, for other tools on the PATH of a simulated
   pipeline: hands its arguments, directory, environment and standard files to the simulator process, which runs the
   program, and ends as the simulator says. */
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <unistd.h>
extern char **environ;
static char *buf;
static size_t len, cap;
static void put(const char *s) {
  size_t n = strlen(s) + 1;
  while (len + n > cap) buf = realloc(buf, cap = cap ? cap * 2 : 65536);
  memcpy(buf + len, s, n);
  len += n;
}
int main(int argc, char **argv) {
  const char *path = getenv("SIM_ZY");
  if (!path) { fprintf(stderr, "stub: no simulator\n"); return 125; }
  char cwd[4096], num[32];
  if (!getcwd(cwd, sizeof cwd)) return 125;
  int s = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
  struct sockaddr_un a = {.sun_family = AF_UNIX};
  strncpy(a.sun_path, path, sizeof a.sun_path - 1);
  if (connect(s, (struct sockaddr *)&a, sizeof a)) { perror("stub: connect"); return 125; }
  int fds[32] = {0, 1, 2}, nf = 3;
  /* whatever else the shell left open for the program, such as a process substitution */
  for (int f = 3; f < 256 && nf < 32; f++) {
    int fl = f == s ? -1 : fcntl(f, F_GETFD);
    if (fl >= 0 && !(fl & FD_CLOEXEC)) fds[nf++] = f;
  }
  sprintf(num, "%d", nf);
  put(num);
  for (int i = 0; i < nf; i++) { sprintf(num, "%d", fds[i]); put(num); }
  put(cwd);
  sprintf(num, "%d", argc);
  put(num);
  for (int i = 0; i < argc; i++) put(argv[i]);
  for (char **e = environ; *e; e++) put(*e);
  uint32_t n = len;
  union { char b[CMSG_SPACE(sizeof fds)]; struct cmsghdr h; } c;
  memset(&c, 0, sizeof c);
  struct iovec io = {&n, 4};
  struct msghdr m = {.msg_iov = &io, .msg_iovlen = 1, .msg_control = c.b, .msg_controllen = CMSG_SPACE(nf * sizeof(int))};
  struct cmsghdr *h = CMSG_FIRSTHDR(&m);
  h->cmsg_level = SOL_SOCKET; h->cmsg_type = SCM_RIGHTS; h->cmsg_len = CMSG_LEN(nf * sizeof(int));
  memcpy(CMSG_DATA(h), fds, nf * sizeof(int));
  if (sendmsg(s, &m, 0) != 4) { perror("stub: sendmsg"); return 125; }
  for (size_t o = 0; o < len;) {
    ssize_t w = write(s, buf + o, len - o);
    if (w <= 0) { perror("stub: write"); return 125; }
    o += w;
  }
  for (int i = 0; i < nf; i++) if (fds[i] != 2) close(fds[i]);
  int32_t st;
  size_t got = 0;
  while (got < 4) {
    ssize_t r = read(s, (char *)&st + got, 4 - got);
    if (r < 0 && errno == EINTR) continue;
    if (r <= 0) { st = -SIGKILL; break; }
    got += r;
  }
  if (st < 0) { signal(-st, SIG_DFL); kill(getpid(), -st); pause(); }
  return st;
}
