/* LD_PRELOAD monitor and fault injector for file-system calls.

   Unarmed it only forwards. iotrap_arm(root, log_fd, n, action, err, delay_us, seed) makes it number every call that changes (or opens for
   writing, locks, syncs) something below root, write one line per call to log_fd, sleep a random time up to delay_us before it, and at the
   n-th call take the action:
     1 kill the process before the call      2 fail the call with err      3 make a write short, then kill (before the call if not a write)
     4 kill the process right after the call
   Calls that change something outside root are logged with an "OUT" mark and always forwarded. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

static atomic_int armed;
static char root[PATH_MAX];
static size_t root_len;
static int log_fd = -1, fault_at, fault_action, fault_err, delay_us;
static atomic_int sequence;
static atomic_uint rng;

#define REAL(type, name, ...) static type (*real)(__VA_ARGS__); if (!real) real = dlsym(RTLD_NEXT, name)

int iotrap_arm(const char* r, int fd, int n, int action, int err, int delay, unsigned seed) {
  strncpy(root, r, sizeof root - 1);
  root_len = strlen(root);
  log_fd = fd;
  fault_at = n;
  fault_action = action;
  fault_err = err;
  delay_us = delay;
  sequence = 0;
  rng = seed;
  armed = 1;
  return 1;
}

int iotrap_disarm(void) {
  armed = 0;
  return sequence;
}

static void die(void) {
  syscall(SYS_kill, syscall(SYS_getpid), SIGKILL);
  for (;;) pause();
}

static void absolute(int dirfd, const char* path, char* out) {
  char base[PATH_MAX];
  out[0] = 0;
  if (path && path[0] == '/') {
    snprintf(out, PATH_MAX, "%s", path);
    return;
  }
  ssize_t k;
  if (dirfd == AT_FDCWD) {
    if (!getcwd(base, sizeof base)) return;
  } else {
    char link[64];
    snprintf(link, sizeof link, "/proc/self/fd/%d", dirfd);
    k = syscall(SYS_readlinkat, AT_FDCWD, link, base, sizeof base - 1);
    if (k < 0) return;
    base[k] = 0;
  }
  if (path && path[0]) snprintf(out, PATH_MAX, "%.2000s/%.2000s", base, path);
  else snprintf(out, PATH_MAX, "%s", base);
}

static int inside(const char* p) { return strncmp(p, root, root_len) == 0 && (p[root_len] == '/' || p[root_len] == 0); }

static int boring(const char* p) {
  return p[0] != '/' || !strncmp(p, "/dev/", 5) || !strncmp(p, "/proc/", 6);  /* pipes, sockets, devices */
}

/* 0: forward; 1: forward, then call after(); -1: fail with errno set; 2: short write then die */
static int note(const char* op, const char* path, const char* path2) {
  if (!armed) return 0;
  if (boring(path)) return 0;
  int in = inside(path) || (path2 && inside(path2));
  int wholly = inside(path) && (!path2 || inside(path2));
  int n = in ? ++sequence : 0;
  if (log_fd >= 0) {
    char line[2 * PATH_MAX + 64];
    int k = snprintf(line, sizeof line, "%d\t%d\t%s\t%s\t%s\t%s\n", (int)syscall(SYS_getpid), n, wholly ? "IN" : "OUT", op, path, path2 ? path2 : "");
    if (k > 0) syscall(SYS_write, log_fd, line, (size_t)k);
  }
  if (!in) return 0;
  if (delay_us) {
    unsigned x = (rng = rng * 1103515245u + 12345u);
    x = (x >> 8) % 16;
    if (x < 6) {
      struct timespec t = {0, (long)(x + 1) * delay_us / 6 * 1000};
      nanosleep(&t, 0);
    }
  }
  if (n != fault_at) return 0;
  switch (fault_action) {
    case 1: die(); break;
    case 2: errno = fault_err; return -1;
    case 3: if (!strncmp(op, "write", 5)) return 2; die(); break;
    case 4: return 1;
  }
  return 0;
}

static int done(int k, long r) {
  if (k == 1) die();
  return (int)r;
}

#define PATHOP(name, op, decl, args, dirfd, path)          \
  int name decl {                                          \
    static int (*real) decl;                               \
    if (!real) real = dlsym(RTLD_NEXT, #name);             \
    if (!armed) return real args;                          \
    char p[PATH_MAX];                                      \
    absolute(dirfd, path, p);                              \
    int k = note(op, p, NULL);                             \
    if (k < 0) return -1;                                  \
    return done(k, real args);                             \
  }

PATHOP(mkdir, "mkdir", (const char* path, mode_t m), (path, m), AT_FDCWD, path)
PATHOP(mkdirat, "mkdir", (int d, const char* path, mode_t m), (d, path, m), d, path)
PATHOP(unlink, "unlink", (const char* path), (path), AT_FDCWD, path)
PATHOP(unlinkat, "unlink", (int d, const char* path, int f), (d, path, f), d, path)
PATHOP(rmdir, "rmdir", (const char* path), (path), AT_FDCWD, path)
PATHOP(chmod, "chmod", (const char* path, mode_t m), (path, m), AT_FDCWD, path)
PATHOP(fchmodat, "chmod", (int d, const char* path, mode_t m, int f), (d, path, m, f), d, path)
PATHOP(truncate, "truncate", (const char* path, off_t n), (path, n), AT_FDCWD, path)
PATHOP(truncate64, "truncate", (const char* path, off64_t n), (path, n), AT_FDCWD, path)
PATHOP(utimensat, "utime", (int d, const char* path, const struct timespec t[2], int f), (d, path, t, f), d, path)
PATHOP(remove, "unlink", (const char* path), (path), AT_FDCWD, path)
PATHOP(fchmod, "chmod", (int fd, mode_t m), (fd, m), fd, "")
PATHOP(ftruncate, "truncate", (int fd, off_t n), (fd, n), fd, "")
PATHOP(ftruncate64, "truncate", (int fd, off64_t n), (fd, n), fd, "")
PATHOP(fsync, "fsync", (int fd), (fd), fd, "")
PATHOP(fdatasync, "fsync", (int fd), (fd), fd, "")
PATHOP(flock, "flock", (int fd, int how), (fd, how), fd, "")

#define TWOPATH(name, op, decl, args, d1, p1, d2, p2)      \
  int name decl {                                          \
    static int (*real) decl;                               \
    if (!real) real = dlsym(RTLD_NEXT, #name);             \
    if (!armed) return real args;                          \
    char a[PATH_MAX], b[PATH_MAX];                         \
    absolute(d1, p1, a);                                   \
    absolute(d2, p2, b);                                   \
    int k = note(op, a, b);                                \
    if (k < 0) return -1;                                  \
    return done(k, real args);                             \
  }

TWOPATH(rename, "rename", (const char* x, const char* y), (x, y), AT_FDCWD, x, AT_FDCWD, y)
TWOPATH(renameat, "rename", (int c, const char* x, int d, const char* y), (c, x, d, y), c, x, d, y)
TWOPATH(renameat2, "rename", (int c, const char* x, int d, const char* y, unsigned f), (c, x, d, y, f), c, x, d, y)
TWOPATH(link, "link", (const char* x, const char* y), (x, y), AT_FDCWD, x, AT_FDCWD, y)
TWOPATH(linkat, "link", (int c, const char* x, int d, const char* y, int f), (c, x, d, y, f), c, x, d, y)

int symlink(const char* x, const char* y) {
  REAL(int, "symlink", const char*, const char*);
  if (!armed) return real(x, y);
  char b[PATH_MAX];
  absolute(AT_FDCWD, y, b);
  int k = note("symlink", b, NULL);
  if (k < 0) return -1;
  return done(k, real(x, y));
}

static int opening(int d, const char* path, int flags) {
  if (!armed || !(flags & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC))) return 0;
  char p[PATH_MAX];
  absolute(d, path, p);
  return note(flags & O_TRUNC ? "open+trunc" : "open", p, NULL);
}

#define OPENER(name, dirdecl, dirarg, dirfd)                                        \
  int name(dirdecl const char* path, int flags, ...) {                              \
    static int (*real)(dirdecl const char*, int, ...);                              \
    if (!real) real = dlsym(RTLD_NEXT, #name);                                      \
    mode_t m = 0;                                                                   \
    if (flags & (O_CREAT | __O_TMPFILE)) {                                          \
      va_list ap;                                                                   \
      va_start(ap, flags);                                                          \
      m = va_arg(ap, int);                                                          \
      va_end(ap);                                                                   \
    }                                                                               \
    int k = opening(dirfd, path, flags);                                            \
    if (k < 0) return -1;                                                           \
    return done(k, real(dirarg path, flags, m));                                    \
  }
#define NOTHING
#define COMMA ,
OPENER(open, NOTHING, NOTHING, AT_FDCWD)
OPENER(open64, NOTHING, NOTHING, AT_FDCWD)
OPENER(openat, int d COMMA, d COMMA, d)
OPENER(openat64, int d COMMA, d COMMA, d)

static int fopening(const char* path, const char* mode) {
  if (!armed || !(strchr(mode, 'w') || strchr(mode, 'a') || strchr(mode, '+'))) return 0;
  char p[PATH_MAX];
  absolute(AT_FDCWD, path, p);
  return note(strchr(mode, 'w') ? "open+trunc" : "open", p, NULL);
}

FILE* fopen(const char* path, const char* mode) {
  REAL(FILE*, "fopen", const char*, const char*);
  int k = fopening(path, mode);
  if (k < 0) return NULL;
  FILE* f = real(path, mode);
  if (k == 1) die();
  return f;
}

FILE* fopen64(const char* path, const char* mode) {
  REAL(FILE*, "fopen64", const char*, const char*);
  int k = fopening(path, mode);
  if (k < 0) return NULL;
  FILE* f = real(path, mode);
  if (k == 1) die();
  return f;
}

ssize_t write(int fd, const void* data, size_t n) {
  REAL(ssize_t, "write", int, const void*, size_t);
  if (!armed || fd == log_fd) return real(fd, data, n);
  char p[PATH_MAX];
  absolute(fd, "", p);
  int k = note("write", p, NULL);
  if (k < 0) return -1;
  if (k == 2) {
    real(fd, data, n / 2);
    die();
  }
  ssize_t r = real(fd, data, n);
  if (k == 1) die();
  return r;
}

ssize_t writev(int fd, const struct iovec* v, int c) {
  REAL(ssize_t, "writev", int, const struct iovec*, int);
  if (!armed) return real(fd, v, c);
  char p[PATH_MAX];
  absolute(fd, "", p);
  int k = note("writev", p, NULL);
  if (k < 0) return -1;
  if (k == 2) {
    if (c > 0) syscall(SYS_write, fd, v[0].iov_base, v[0].iov_len / 2);
    die();
  }
  ssize_t r = real(fd, v, c);
  if (k == 1) die();
  return r;
}

ssize_t pwrite64(int fd, const void* data, size_t n, off64_t at) {
  REAL(ssize_t, "pwrite64", int, const void*, size_t, off64_t);
  if (!armed) return real(fd, data, n, at);
  char p[PATH_MAX];
  absolute(fd, "", p);
  int k = note("write", p, NULL);
  if (k < 0) return -1;
  ssize_t r = real(fd, data, k == 2 ? n / 2 : n, at);
  if (k) die();
  return r;
}
