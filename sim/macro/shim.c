/* Preloaded into the compiler: faults on system calls for the schema files, and seeded randomness.
   SIM_PKG: directory whose *.xsd files are simulated. SIM_LOG: log of the calls. SIM_SEED: randomness.
   SIM_PLAN: comma separated CALL:NTH:ACTION; CALL is o(pen) r(ead) s(tat) p(ath); ACTION is e<errno>,
   s<bytes> (short), z (end of file), n<size> (wrong size). */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <unistd.h>

#define FDS 4096
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static char *names[FDS];
static char eof[FDS];
static unsigned nth[4];
static unsigned long long seed;
static int seeded;

static const char *pkg(void) { const char *p = getenv("SIM_PKG"); return p && *p ? p : 0; }

static void note(const char *fmt, ...) {
  const char *l = getenv("SIM_LOG");
  if (!l) return;
  char b[PATH_MAX + 200];
  va_list a;
  va_start(a, fmt);
  int n = vsnprintf(b, sizeof b, fmt, a);
  va_end(a);
  int fd = syscall(SYS_openat, AT_FDCWD, l, O_WRONLY | O_APPEND | O_CREAT | O_CLOEXEC, 0644);
  if (fd < 0) return;
  syscall(SYS_write, fd, b, (size_t)n);
  syscall(SYS_close, fd);
}

/* Schema files only: *.xsd below the watched directory, also by another spelling of the path. */
static int watched(const char *path) {
  const char *d = pkg();
  size_t n = path ? strlen(path) : 0;
  return d && n > 4 && !strcmp(path + n - 4, ".xsd");
}

/* 'kind' 0 open, 1 read, 2 stat, 3 path */
static char action(int kind, long *val) {
  const char *p = getenv("SIM_PLAN");
  unsigned n = nth[kind]++;
  while (p && *p) {
    char k = p[0];
    unsigned at = strtoul(p + 2, (char **)&p, 10);
    char a = p[1];
    long v = strtol(p + 2, (char **)&p, 10);
    if (*p == ',') p++;
    if (k == "orsp"[kind] && at == n) {
      *val = v;
      return a;
    }
  }
  return 0;
}

static int do_open(const char *path, int flags, mode_t mode) {
  if (watched(path)) {
    pthread_mutex_lock(&mu);
    long v;
    char a = action(0, &v);
    if (a == 'e') {
      note("open e%ld %#x %s\n", v, flags, path);
      pthread_mutex_unlock(&mu);
      errno = (int)v;
      return -1;
    }
    int fd = syscall(SYS_openat, AT_FDCWD, path, flags | O_LARGEFILE, mode);
    int e = errno;
    note("open %s%d %#x %s\n", fd < 0 ? "E" : "f", fd < 0 ? e : fd, flags, path);
    if (fd >= 0 && fd < FDS) {
      names[fd] = strdup(path);
      eof[fd] = 0;
    }
    pthread_mutex_unlock(&mu);
    errno = e;
    return fd;
  }
  return syscall(SYS_openat, AT_FDCWD, path, flags, mode);
}
int open(const char *path, int flags, ...) {
  va_list a; va_start(a, flags); mode_t m = va_arg(a, mode_t); va_end(a);
  return do_open(path, flags, m);
}
int open64(const char *path, int flags, ...) {
  va_list a; va_start(a, flags); mode_t m = va_arg(a, mode_t); va_end(a);
  return do_open(path, flags, m);
}

ssize_t read(int fd, void *buf, size_t n) {
  if (fd >= 0 && fd < FDS && names[fd]) {
    pthread_mutex_lock(&mu);
    long v;
    char a = eof[fd] ? 'z' : action(1, &v);
    ssize_t r = 0;
    if (a == 'e') {
      note("read e%ld %s\n", v, names[fd]);
      pthread_mutex_unlock(&mu);
      errno = (int)v;
      return -1;
    }
    if (a == 's' && v > 0 && n > (size_t)v) n = (size_t)v;
    if (a == 'z') eof[fd] = 1;
    else r = syscall(SYS_read, fd, buf, n);
    int e = errno;
    note("read %c%ld %s\n", a ? a : 'f', (long)r, names[fd]);
    pthread_mutex_unlock(&mu);
    errno = e;
    return r;
  }
  return syscall(SYS_read, fd, buf, n);
}
int close(int fd) {
  if (fd >= 0 && fd < FDS && names[fd]) {
    pthread_mutex_lock(&mu);
    note("close f%d %s\n", fd, names[fd]);
    free(names[fd]);
    names[fd] = 0;
    pthread_mutex_unlock(&mu);
  }
  return syscall(SYS_close, fd);
}
int statx(int dir, const char *restrict path, int flags, unsigned mask, struct statx *restrict st) {
  /* the standard library probes with no path at all */
  const char *volatile vp = path;
  const char *name = vp;
  if (!name) return syscall(SYS_statx, dir, name, flags, mask, st);
  int by_fd = !*name && dir >= 0 && dir < FDS && names[dir];
  int r = syscall(SYS_statx, dir, path, flags, mask, st);
  if (by_fd || watched(name)) {
    int e = errno;
    pthread_mutex_lock(&mu);
    long v;
    char a = action(2, &v);
    note("stat %c %s\n", a ? a : 'f', by_fd ? names[dir] : name);
    pthread_mutex_unlock(&mu);
    if (a == 'e') {
      errno = (int)v;
      return -1;
    }
    if (a == 'n' && r == 0 && by_fd) st->stx_size = (unsigned long long)v;
    errno = e;
  }
  return r;
}
char *realpath(const char *restrict path, char *restrict out) {
  static char *(*next)(const char *, char *);
  if (!next) next = (char *(*)(const char *, char *))dlsym(RTLD_NEXT, "realpath");
  if (watched(path)) {
    pthread_mutex_lock(&mu);
    long v;
    char a = action(3, &v);
    note("path %c%ld %s\n", a ? a : 'f', a ? v : 0, path);
    pthread_mutex_unlock(&mu);
    if (a == 'e') {
      errno = (int)v;
      return 0;
    }
  }
  return next(path, out);
}
ssize_t getrandom(void *buf, size_t n, unsigned flags) {
  const char *s = getenv("SIM_SEED");
  if (!s) return syscall(SYS_getrandom, buf, n, flags);
  pthread_mutex_lock(&mu);
  if (!seeded) {
    seeded = 1;
    seed = strtoull(s, 0, 10);
  }
  for (size_t i = 0; i < n; i++) {
    seed += 0x9e3779b97f4a7c15ull;
    unsigned long long z = seed;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    ((unsigned char *)buf)[i] = (unsigned char)(z ^ (z >> 31));
  }
  pthread_mutex_unlock(&mu);
  return (ssize_t)n;
}
