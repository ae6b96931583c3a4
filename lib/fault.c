/* Preloaded into the program under test: makes reads fail or come in pieces.
   S2P_FAIL=NAME:K  reads of the file whose name ends in /NAME (or is NAME)
                    fail with EIO from byte K on
   S2P_PIECES=N|i   reads and writes of regular files do at most N bytes at a
                    time; i: every other one is interrupted
   S2P_TICK=T:D     the clock says T the first time and D seconds more every
                    time after that */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

static ssize_t (*rread)(int, void *, size_t);
static ssize_t (*rwrite)(int, const void *, size_t);
static ssize_t (*rwritev)(int, const struct iovec *, int);
static ssize_t (*rreadv)(int, const struct iovec *, int);
static const char *fail_name, *pieces;
static long fail_at;
static unsigned turn;
static const char *tick;
static int (*rclock)(clockid_t, struct timespec *);
static long ticks;

__attribute__((constructor)) static void init(void) {
  rread = dlsym(RTLD_NEXT, "read");
  rwrite = dlsym(RTLD_NEXT, "write");
  rwritev = dlsym(RTLD_NEXT, "writev");
  rreadv = dlsym(RTLD_NEXT, "readv");
  const char *f = getenv("S2P_FAIL");
  if (f) {
    char *c = strdup(f), *k = strrchr(c, ':');
    if (k) { *k = 0; fail_at = atol(k + 1); fail_name = c; }
  }
  pieces = getenv("S2P_PIECES");
  tick = getenv("S2P_TICK");
  rclock = dlsym(RTLD_NEXT, "clock_gettime");
}

static int regular(int fd) {
  struct stat st;
  return fd > 2 && fstat(fd, &st) == 0 && S_ISREG(st.st_mode);
}

static int is_failing(int fd) {
  if (!fail_name || !regular(fd)) return 0;
  char link[64], path[4096];
  snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
  ssize_t n = readlink(link, path, sizeof path - 1);
  if (n < 0) return 0;
  path[n] = 0;
  size_t m = strlen(fail_name);
  return (size_t)n > m && strcmp(path + n - m, fail_name) == 0 && path[n - m - 1] == '/';
}

/* how many bytes to do; -1: interrupted */
static ssize_t part(int fd, size_t n) {
  if (!pieces || !regular(fd)) return n;
  if (*pieces == 'i') return (turn++ % 2 == 0) ? -1 : (ssize_t)n;
  size_t k = atol(pieces);
  return n < k ? n : k;
}

ssize_t read(int fd, void *b, size_t n) {
  if (!rread) init();
  if (is_failing(fd)) {
    off_t at = lseek(fd, 0, SEEK_CUR);
    if (at >= fail_at) { errno = EIO; return -1; }
    if (at + (off_t)n > fail_at) n = fail_at - at;
  }
  if (n) {
    ssize_t k = part(fd, n);
    if (k < 0) { errno = EINTR; return -1; }
    n = k;
  }
  return rread(fd, b, n);
}

ssize_t readv(int fd, const struct iovec *v, int c) {
  for (int i = 0; i < c; i++)
    if (v[i].iov_len) return read(fd, v[i].iov_base, v[i].iov_len);
  return 0;
}

ssize_t write(int fd, const void *b, size_t n) {
  if (!rwrite) init();
  if (n) {
    ssize_t k = part(fd, n);
    if (k < 0) { errno = EINTR; return -1; }
    n = k;
  }
  return rwrite(fd, b, n);
}

ssize_t writev(int fd, const struct iovec *v, int c) {
  if (!pieces || !regular(fd)) return rwritev(fd, v, c);
  for (int i = 0; i < c; i++)
    if (v[i].iov_len) return write(fd, v[i].iov_base, v[i].iov_len);
  return 0;
}

static time_t now(void) {
  const char *c = strchr(tick, ':');
  return atol(tick) + (c ? atol(c + 1) : 0) * __atomic_fetch_add(&ticks, 1, __ATOMIC_SEQ_CST);
}

int clock_gettime(clockid_t id, struct timespec *t) {
  if (!rclock) init();
  if (!tick || id != CLOCK_REALTIME) return rclock(id, t);
  t->tv_sec = now();
  t->tv_nsec = 0;
  return 0;
}

int gettimeofday(struct timeval *restrict t, void *restrict z) {
  struct timespec s;
  clock_gettime(CLOCK_REALTIME, &s);
  t->tv_sec = s.tv_sec;
  t->tv_usec = s.tv_nsec / 1000;
  return 0;
}

time_t time(time_t *o) {
  struct timespec s;
  clock_gettime(CLOCK_REALTIME, &s);
  if (o) *o = s.tv_sec;
  return s.tv_sec;
}
