// Counts the calls which change files under a directory and makes the n-th one fail or end the process.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>
enum { BEFORE = 1, MID = 2, ERR = 3, POWER = 4, SHORT = 5, AFTER = 6, NOSPC = 7 };
static char dir[4096];
static volatile int armed = 0, target = 0, mode = 0, count = 0, hit = 0;
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
#define MAXF 1024
static char *fdpath[MAXF];
static struct { char path[512]; int dirty; } files[256];
static int nfiles = 0;
static int *dirty_of(const char *p) {
  for (int i = 0; i < nfiles; i++) if (!strcmp(files[i].path, p)) return &files[i].dirty;
  if (nfiles == 256) return &files[0].dirty;
  snprintf(files[nfiles].path, 512, "%s", p); files[nfiles].dirty = 0; return &files[nfiles++].dirty;
}
void fault_arm(const char *d, int n, int m) { snprintf(dir, sizeof dir, "%s", d); target = n; mode = m; count = 0; hit = 0; armed = 1; }
int fault_disarm(void) { armed = 0; return hit ? -count : count; }
static int under(const char *p) { return armed && p && dir[0] && !strncmp(p, dir, strlen(dir)); }
static const char *pathof(int fd) { return fd >= 0 && fd < MAXF ? fdpath[fd] : 0; }
static void die(void) {
  if (mode == POWER) for (int i = 0; i < nfiles; i++) if (files[i].dirty) { int (*o)(const char *, int, ...) = dlsym(RTLD_NEXT, "open"); int fd = o(files[i].path, O_WRONLY | O_TRUNC); if (fd >= 0) close(fd); }
  _exit(77);
}
// 0: go on; 1: return an error; 2: do half of it and end; 3: do half of it; 4: do it and end
static int event(void) {
  pthread_mutex_lock(&mu); int n = ++count; pthread_mutex_unlock(&mu);
  if (n != target) return 0;
  hit = 1;
  switch (mode) {
  case BEFORE: case POWER: die();
  case MID: return 2;
  case SHORT: return 3;
  case AFTER: return 4;
  case NOSPC: errno = ENOSPC; return 1;
  default: errno = EIO; return 1;
  }
}
#define REAL(t, name, ...) static t (*real)(__VA_ARGS__); if (!real) real = dlsym(RTLD_NEXT, #name)
static void opened(int fd, const char *p) { if (fd >= 0 && fd < MAXF) { fdpath[fd] = under(p) ? strdup(p) : 0; } }
#define OPENBODY(NAME) \
  mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); m = va_arg(a, mode_t); va_end(a); } \
  REAL(int, NAME, const char *, int, ...); \
  int e = 0; if (under(p) && (flags & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC))) { e = event(); if (e == 1) return -1; if (e == 2) die(); } \
  int fd = real(p, flags, m); int sv = errno; opened(fd, p); if (fd >= 0 && under(p) && (flags & O_TRUNC)) *dirty_of(p) = 1; if (e == 4) die(); errno = sv; return fd;
int open(const char *p, int flags, ...) { OPENBODY(open) }
int open64(const char *p, int flags, ...) { OPENBODY(open64) }
int close(int fd) { REAL(int, close, int); if (fd >= 0 && fd < MAXF) fdpath[fd] = 0; return real(fd); }
ssize_t write(int fd, const void *b, size_t n) {
  REAL(ssize_t, write, int, const void *, size_t);
  const char *p = pathof(fd); int e = 0;
  if (p && under(p)) { e = event(); if (e == 1) return -1; *dirty_of(p) = 1; if (e == 2) { real(fd, b, n / 2); die(); } if (e == 3 && n > 1) return real(fd, b, n / 2); }
  ssize_t r = real(fd, b, n); if (e == 4) die(); return r;
}
ssize_t writev(int fd, const struct iovec *v, int c) {
  REAL(ssize_t, writev, int, const struct iovec *, int);
  const char *p = pathof(fd); int e = 0;
  if (p && under(p)) { e = event(); if (e == 1) return -1; *dirty_of(p) = 1; if (e == 2) { write(fd, v[0].iov_base, v[0].iov_len / 2); die(); } }
  ssize_t r = real(fd, v, c); if (e == 4) die(); return r;
}
static int simple(const char *p) { return under(p) ? event() : 0; }
#define CLEAN(NAME) int NAME(int fd) { REAL(int, NAME, int); const char *p = pathof(fd); int e = 0; if (p && under(p)) { e = event(); if (e == 1) return -1; if (e == 2) die(); *dirty_of(p) = 0; } int r = real(fd); if (e == 4) die(); return r; }
CLEAN(fsync)
CLEAN(fdatasync)
int rename(const char *a, const char *b) {
  REAL(int, rename, const char *, const char *);
  int e = 0; if (under(a) || under(b)) { e = event(); if (e == 1) return -1; if (e == 2) die(); }
  int r = real(a, b); int sv = errno;
  if (r == 0 && (under(a) || under(b))) { int d = *dirty_of(a); *dirty_of(a) = 0; *dirty_of(b) = d; }
  if (e == 4) die(); errno = sv; return r;
}
int unlink(const char *p) { REAL(int, unlink, const char *); int e = simple(p); if (e == 1) return -1; if (e == 2) die(); int r = real(p); int sv = errno; if (under(p)) *dirty_of(p) = 0; if (e == 4) die(); errno = sv; return r; }
int mkdir(const char *p, mode_t m) { REAL(int, mkdir, const char *, mode_t); int e = simple(p); if (e == 1) return -1; if (e == 2) die(); int r = real(p, m); int sv = errno; if (e == 4) die(); errno = sv; return r; }
int link(const char *a, const char *b) { REAL(int, link, const char *, const char *); int e = simple(b); if (e == 1) return -1; if (e == 2) die(); int r = real(a, b); int sv = errno; if (e == 4) die(); errno = sv; return r; }
int ftruncate64(int fd, off_t l) { REAL(int, ftruncate64, int, off_t); const char *p = pathof(fd); int e = 0; if (p && under(p)) { e = event(); if (e == 1) return -1; if (e == 2) die(); *dirty_of(p) = 1; } int r = real(fd, l); if (e == 4) die(); return r; }
ssize_t copy_file_range(int a, off64_t *x, int b, off64_t *y, size_t n, unsigned f) {
  REAL(ssize_t, copy_file_range, int, off64_t *, int, off64_t *, size_t, unsigned);
  const char *p = pathof(b); int e = 0;
  if (p && under(p)) { e = event(); if (e == 1) return -1; *dirty_of(p) = 1; if (e == 2) { real(a, x, b, y, 3, f); die(); } if (n > 64 && e == 3) n = 3; }
  ssize_t r = real(a, x, b, y, n, f); if (e == 4) die(); return r;
}
