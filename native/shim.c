/* LD_PRELOAD shim: makes the reads of the sample and the writes of the output of one process follow
 * a plan.  VP_IN=path or "stdin", VP_READ=acts, VP_OPEN_IN=errno, VP_OUTDIR=directory or "stdout",
 * VP_WRITE=acts, VP_OPEN_OUT=errno, VP_LOG=file.  acts: comma separated, N = at most N bytes,
 * EN = fail with errno N; when they are used up, calls go through.  The log has one character per
 * call: r/w data, R/W failure, i interruption, o/O open. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

static int in_fd = -1, out_fd = -1, started, log_fd = -1;
static char *rp, *wp;

static void start(void) {
  if (started) return;
  started = 1;
  char *s = getenv("VP_IN");
  if (s && !strcmp(s, "stdin")) in_fd = 0;
  s = getenv("VP_OUTDIR");
  if (s && !strcmp(s, "stdout")) out_fd = 1;
  rp = getenv("VP_READ");
  wp = getenv("VP_WRITE");
  s = getenv("VP_LOG");
  if (s) log_fd = syscall(SYS_open, s, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
}
static void note(char c) {
  if (log_fd >= 0) syscall(SYS_write, log_fd, &c, 1);
}
/* next act: errno (>0) or limit (<=0, negated); INT_MIN when used up */
static int next(char **p) {
  if (!*p || !**p) return INT_MIN;
  int e = **p == 'E';
  if (e) ++*p;
  int n = strtol(*p, p, 10);
  if (**p == ',') ++*p;
  return e ? n : -n;
}
static long act(char **p, int w, long n) {
  int a = next(p);
  if (a == INT_MIN) { note(w ? 'w' : 'r'); return n; }
  if (a > 0) { note(a == EINTR ? 'i' : w ? 'W' : 'R'); errno = a; return -1; }
  note(w ? 'w' : 'r');
  return n < -a ? n : -a;
}
ssize_t read(int fd, void *b, size_t n) {
  start();
  if (fd == in_fd) {
    long k = act(&rp, 0, n);
    if (k < 0) return -1;
    n = k;
  }
  return syscall(SYS_read, fd, b, n);
}
ssize_t readv(int fd, const struct iovec *v, int c) {
  start();
  if (fd == in_fd && c > 0) {
    for (int i = 0; i < c; i++)
      if (v[i].iov_len) return read(fd, v[i].iov_base, v[i].iov_len);
  }
  return syscall(SYS_readv, fd, v, c);
}
ssize_t write(int fd, const void *b, size_t n) {
  start();
  if (fd == out_fd) {
    long k = act(&wp, 1, n);
    if (k < 0) return -1;
    if (k == 0 && n) return 0;
    n = k;
  }
  return syscall(SYS_write, fd, b, n);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
  start();
  if (fd == out_fd && c > 0) {
    for (int i = 0; i < c; i++)
      if (v[i].iov_len) return write(fd, v[i].iov_base, v[i].iov_len);
  }
  return syscall(SYS_writev, fd, v, c);
}
static int opened(const char *path, int flags, int mode) {
  start();
  char *in = getenv("VP_IN"), *out = getenv("VP_OUTDIR"), *e;
  int wr = (flags & O_ACCMODE) != O_RDONLY;
  if (in && !wr && !strcmp(in, path)) {
    e = getenv("VP_OPEN_IN");
    if (e) { note('O'); errno = atoi(e); return -1; }
    note('o');
    return in_fd = syscall(SYS_openat, AT_FDCWD, path, flags, mode);
  }
  if (out && wr && *out == '/' && !strncmp(out, path, strlen(out))) {
    e = getenv("VP_OPEN_OUT");
    if (e) { note('O'); errno = atoi(e); return -1; }
    note('o');
    return out_fd = syscall(SYS_openat, AT_FDCWD, path, flags, mode);
  }
  return syscall(SYS_openat, AT_FDCWD, path, flags, mode);
}
int open64(const char *path, int flags, ...) {
  va_list a; va_start(a, flags); int m = va_arg(a, int); va_end(a);
  return opened(path, flags, m);
}
int open(const char *path, int flags, ...) {
  va_list a; va_start(a, flags); int m = va_arg(a, int); va_end(a);
  return opened(path, flags, m);
}
int close(int fd) {
  if (fd == in_fd && fd > 0) in_fd = -1;
  if (fd == out_fd && fd > 1) out_fd = -1;
  return syscall(SYS_close, fd);
}
