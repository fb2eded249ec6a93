/* Interposes the libc calls that change files. While armed, operations on paths below a
 * prefix are counted, and the chosen one crashes the process or fails. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static int armed, count, mode, target, err, busy, norename;
static char prefix[PATH_MAX], device[PATH_MAX];
static unsigned char fds[4096];
static char trace[1 << 16];
static int traced;

enum { COUNT = 0, CRASH = 1, CRASH_AFTER = 2, FAIL_ONCE = 3, FAIL_FROM = 4, FULL_FROM = 5 };
enum { GROW = 1, OTHER = 0 };

void shim_arm(const char *p, const char *dev, int m, int n, int e) {
  snprintf(prefix, sizeof prefix, "%s", p);
  snprintf(device, sizeof device, "%s", dev ? dev : "");
  mode = m; target = n; err = e; count = 0; traced = 0; trace[0] = 0;
  memset(fds, 0, sizeof fds);
  armed = 1;
}
/* From now on every rename fails with this error (0: none does), whatever else happens. */
void shim_norename(int e) { norename = e; }
int shim_disarm(void) { armed = 0; norename = 0; return count; }
const char *shim_trace(void) { return trace; }

static int under(const char *path, const char *p) {
  size_t n = strlen(p);
  return n && strncmp(path, p, n) == 0 && (path[n] == '/' || path[n] == 0);
}

static int mine(int dirfd, const char *path) {
  if (!armed || busy || !path) return 0;
  if (path[0] == '/') return under(path, prefix);
  if (dirfd == AT_FDCWD) {
    char cwd[PATH_MAX];
    return getcwd(cwd, sizeof cwd) && under(cwd, prefix);
  }
  return dirfd >= 0 && dirfd < 4096 && fds[dirfd];
}

static void note(const char *what, const char *path) {
  if (traced < (int)sizeof trace - 300)
    traced += snprintf(trace + traced, 300, "%s %.200s\n", what, path ? path : "");
}

/* 0: go on; 1: fail with errno set; 2: partial write, then die */
static int hit(const char *what, const char *path, int grows) {
  int n = count++;
  note(what, path);
  switch (mode) {
  case CRASH:
    if (n == target) _exit(77);
    break;
  case CRASH_AFTER:
    if (n == target) return 2;
    break;
  case FAIL_ONCE:
    if (n == target) { errno = err; return 1; }
    break;
  case FAIL_FROM:
    if (n >= target) { errno = err; return 1; }
    break;
  case FULL_FROM:
    if (n >= target && grows) { errno = err; return 1; }
    break;
  }
  return 0;
}

#define REAL(ret, name, ...) \
  static ret (*real)(__VA_ARGS__); \
  if (!real) real = (ret(*)(__VA_ARGS__))dlsym(RTLD_NEXT, #name)

/* Calls without a natural half: the crash comes right after the call. */
#define GUARD(what, path, cond, grows, bad, call) \
  do { \
    if (cond) { \
      int h_ = hit(what, path, grows); \
      if (h_ == 1) return bad; \
      if (h_ == 2) { (void)!(call); _exit(77); } \
    } \
    return call; \
  } while (0)

static int writes(int flags) { return (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC)); }

static int opened(int fd) { if (fd >= 0 && fd < 4096) fds[fd] = 1; return fd; }

#define OPEN(name) \
  int name(const char *path, int flags, ...) { \
    REAL(int, name, const char *, int, mode_t); \
    va_list ap; va_start(ap, flags); mode_t m = va_arg(ap, int); va_end(ap); \
    if (!mine(AT_FDCWD, path)) return real(path, flags, m); \
    if (writes(flags)) { \
      int h = hit("open", path, GROW); \
      if (h == 1) return -1; \
      if (h == 2) { real(path, flags, m); _exit(77); } \
    } \
    return opened(real(path, flags, m)); \
  }
OPEN(open)
OPEN(open64)

#define OPENAT(name) \
  int name(int d, const char *path, int flags, ...) { \
    REAL(int, name, int, const char *, int, mode_t); \
    va_list ap; va_start(ap, flags); mode_t m = va_arg(ap, int); va_end(ap); \
    if (!mine(d, path)) return real(d, path, flags, m); \
    if (writes(flags)) { \
      int h = hit("openat", path, GROW); \
      if (h == 1) return -1; \
      if (h == 2) { real(d, path, flags, m); _exit(77); } \
    } \
    return opened(real(d, path, flags, m)); \
  }
OPENAT(openat)
OPENAT(openat64)

int close(int fd) {
  REAL(int, close, int);
  if (fd >= 0 && fd < 4096) fds[fd] = 0;
  return real(fd);
}

static int fdmine(int fd) { return armed && !busy && fd >= 0 && fd < 4096 && fds[fd]; }

ssize_t write(int fd, const void *b, size_t n) {
  REAL(ssize_t, write, int, const void *, size_t);
  if (fdmine(fd)) {
    int h = hit("write", "", GROW);
    if (h == 1) return -1;
    if (h == 2) { if (n > 1) (void)!real(fd, b, n / 2); _exit(77); }
  }
  return real(fd, b, n);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) {
  REAL(ssize_t, pwrite64, int, const void *, size_t, off_t);
  if (fdmine(fd)) {
    int h = hit("pwrite", "", GROW);
    if (h == 1) return -1;
    if (h == 2) { if (n > 1) (void)!real(fd, b, n / 2, o); _exit(77); }
  }
  return real(fd, b, n, o);
}
ssize_t writev(int fd, const struct iovec *v, int n) {
  REAL(ssize_t, writev, int, const struct iovec *, int);
  GUARD("writev", "", fdmine(fd), GROW, -1, real(fd, v, n));
}
ssize_t sendfile(int o, int i, off_t *p, size_t n) {
  REAL(ssize_t, sendfile, int, int, off_t *, size_t);
  if (fdmine(o)) {
    int h = hit("sendfile", "", GROW);
    if (h == 1) return -1;
    if (h == 2) { (void)!real(o, i, p, 7); _exit(77); }
  }
  return real(o, i, p, n);
}
ssize_t sendfile64(int o, int i, off_t *p, size_t n) {
  REAL(ssize_t, sendfile64, int, int, off_t *, size_t);
  if (fdmine(o)) {
    int h = hit("sendfile", "", GROW);
    if (h == 1) return -1;
    if (h == 2) { (void)!real(o, i, p, 7); _exit(77); }
  }
  return real(o, i, p, n);
}
int mkdir(const char *p, mode_t m) {
  REAL(int, mkdir, const char *, mode_t);
  GUARD("mkdir", p, mine(AT_FDCWD, p), GROW, -1, real(p, m));
}
int mkdirat(int d, const char *p, mode_t m) {
  REAL(int, mkdirat, int, const char *, mode_t);
  GUARD("mkdirat", p, mine(d, p), GROW, -1, real(d, p, m));
}
int unlink(const char *p) {
  REAL(int, unlink, const char *);
  GUARD("unlink", p, mine(AT_FDCWD, p), OTHER, -1, real(p));
}
int remove(const char *p) {
  REAL(int, remove, const char *);
  GUARD("remove", p, mine(AT_FDCWD, p), OTHER, -1, real(p));
}
int unlinkat(int d, const char *p, int f) {
  REAL(int, unlinkat, int, const char *, int);
  GUARD("unlinkat", p, mine(d, p), OTHER, -1, real(d, p, f));
}
int rmdir(const char *p) {
  REAL(int, rmdir, const char *);
  GUARD("rmdir", p, mine(AT_FDCWD, p), OTHER, -1, real(p));
}
static int crosses(const char *a, const char *b) {
  return armed && device[0] && under(a, device) != under(b, device);
}
int rename(const char *a, const char *b) {
  REAL(int, rename, const char *, const char *);
  if (crosses(a, b)) { errno = EXDEV; return -1; }
  if (norename && (mine(AT_FDCWD, a) || mine(AT_FDCWD, b))) { if (!hit("rename", b, OTHER)) errno = norename; return -1; }
  GUARD("rename", b, mine(AT_FDCWD, a) || mine(AT_FDCWD, b), OTHER, -1, real(a, b));
}
int renameat(int d, const char *a, int e, const char *b) {
  REAL(int, renameat, int, const char *, int, const char *);
  if (crosses(a, b)) { errno = EXDEV; return -1; }
  if (norename && (mine(d, a) || mine(e, b))) { if (!hit("renameat", b, OTHER)) errno = norename; return -1; }
  GUARD("renameat", b, mine(d, a) || mine(e, b), OTHER, -1, real(d, a, e, b));
}
int link(const char *a, const char *b) {
  REAL(int, link, const char *, const char *);
  if (crosses(a, b)) { errno = EXDEV; return -1; }
  GUARD("link", b, mine(AT_FDCWD, b), GROW, -1, real(a, b));
}
int linkat(int d, const char *a, int e, const char *b, int f) {
  REAL(int, linkat, int, const char *, int, const char *, int);
  if (crosses(a, b)) { errno = EXDEV; return -1; }
  GUARD("linkat", b, mine(e, b), GROW, -1, real(d, a, e, b, f));
}
int symlink(const char *a, const char *b) {
  REAL(int, symlink, const char *, const char *);
  GUARD("symlink", b, mine(AT_FDCWD, b), GROW, -1, real(a, b));
}
int symlinkat(const char *a, int d, const char *b) {
  REAL(int, symlinkat, const char *, int, const char *);
  GUARD("symlinkat", b, mine(d, b), GROW, -1, real(a, d, b));
}
int ftruncate64(int fd, off_t n) {
  REAL(int, ftruncate64, int, off_t);
  GUARD("ftruncate", "", fdmine(fd), GROW, -1, real(fd, n));
}
int truncate64(const char *p, off_t n) {
  REAL(int, truncate64, const char *, off_t);
  GUARD("truncate", p, mine(AT_FDCWD, p), GROW, -1, real(p, n));
}
/* chmod and utimes are crash points, but shutil copes with their failure in its own ways */
int chmod(const char *p, mode_t m) {
  REAL(int, chmod, const char *, mode_t);
  GUARD("chmod", p, mine(AT_FDCWD, p), OTHER, -1, real(p, m));
}
int utimensat(int d, const char *p, const struct timespec t[2], int f) {
  REAL(int, utimensat, int, const char *, const struct timespec *, int);
  GUARD("utimensat", p, mine(d, p), OTHER, -1, real(d, p, t, f));
}
