/* Interposed on the calls with which a program does its input and output: counts and logs them, and
 * makes some of them fail or do less, by a plan.
 *
 * MC_FAULT_LOG: a file to which a line is appended for every call.
 * MC_FAULT_PLAN: items separated by commas, "N:K" for call number N and "N+:K" for that call and all later
 * ones on the same object. K is an errno, or 1001 (transfer one byte), 1002 (half of the bytes), 1003
 * (nothing), or 2000 (the process is killed there). */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

struct item { int n, sticky, k, hit; char object[96]; };
static struct item plan[16];
static int items, calls, ready, logfd = -1;
static char names[1024][80]; /* of descriptors */

static void init(void) {
  if (ready) return;
  ready = 1;
  const char *p = getenv("MC_FAULT_PLAN"), *log = getenv("MC_FAULT_LOG");
  if (log && *log) {
    int fd = syscall(SYS_openat, AT_FDCWD, log, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
    /* Out of the way, so that the program gets the descriptors which it would get anyway. */
    logfd = syscall(SYS_fcntl, fd, F_DUPFD_CLOEXEC, 700);
    syscall(SYS_close, fd);
  }
  while (p && *p && items < 16) {
    struct item *i = &plan[items++];
    i->n = strtol(p, (char **)&p, 10);
    if (*p == '+') { i->sticky = 1; p++; }
    if (*p == ':') p++;
    i->k = strtol(p, (char **)&p, 10);
    if (*p == ',') p++;
  }
  strcpy(names[0], "stdin"); strcpy(names[1], "stdout"); strcpy(names[2], "stderr");
}
static const char *fdname(int fd) {
  init();
  return fd >= 0 && fd < 1024 && names[fd][0] ? names[fd] : "?";
}
/* Count the call, log it, and return what the plan has for it. */
static int step(const char *what, const char *object, long size) {
  init();
  int n = ++calls, k = 0;
  char key[160];
  snprintf(key, sizeof key, "%s %s", what, object);
  key[95] = 0;
  for (int j = 0; j < items; j++) {
    struct item *i = &plan[j];
    if (i->n == n) { k = i->k; i->hit = 1; strcpy(i->object, key); }
    else if (i->sticky && i->hit && n > i->n && !strcmp(i->object, key)) k = i->k;
  }
  if (logfd >= 0) {
    char line[512];
    int len = snprintf(line, sizeof line, "%d %s %ld %d %s\n", n, what, size, k, object);
    if (len > (int)sizeof line) len = sizeof line;
    syscall(SYS_write, logfd, line, len);
  }
  if (k == 2000) { syscall(SYS_kill, syscall(SYS_getpid), SIGKILL); for (;;) syscall(SYS_pause); }
  return k;
}
#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__); if (!real) real = (ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, name)
#define FAIL(k) do { if ((k) > 0 && (k) < 1000) { errno = (k); return -1; } } while (0)

static int opened(const char *path, int fd) {
  if (fd >= 0 && fd < 1024) snprintf(names[fd], sizeof names[fd], "%s", path);
  return fd;
}
static const char *open_kind(int flags) { return (flags & O_ACCMODE) == O_RDONLY ? "open_r" : "open_w"; }
#define OPEN(name) int name(const char *path, int flags, ...) { \
  va_list a; va_start(a, flags); int mode = va_arg(a, int); va_end(a); \
  int k = step(open_kind(flags), path, 0); FAIL(k); \
  REAL(int, #name, const char *, int, ...); return opened(path, real(path, flags, mode)); }
OPEN(open)
OPEN(open64)
#define OPENAT(name) int name(int dir, const char *path, int flags, ...) { \
  va_list a; va_start(a, flags); int mode = va_arg(a, int); va_end(a); \
  int k = step(open_kind(flags), path, 0); FAIL(k); \
  REAL(int, #name, int, const char *, int, ...); return opened(path, real(dir, path, flags, mode)); }
OPENAT(openat)
OPENAT(openat64)
static size_t less(int k, size_t n) {
  return k == 1001 ? (n > 1 ? 1 : n) : k == 1002 ? (n + 1) / 2 : k == 1003 ? 0 : n;
}
ssize_t read(int fd, void *b, size_t n) {
  int k = step("read", fdname(fd), n); FAIL(k);
  REAL(ssize_t, "read", int, void *, size_t); return real(fd, b, less(k, n));
}
ssize_t write(int fd, const void *b, size_t n) {
  int k = step("write", fdname(fd), n); FAIL(k);
  if (k == 1003) return 0;
  REAL(ssize_t, "write", int, const void *, size_t); return real(fd, b, less(k, n));
}
ssize_t writev(int fd, const struct iovec *v, int n) {
  int k = step("write", fdname(fd), n); FAIL(k);
  if (k == 1003) return 0;
  if (k > 1000 && n > 0) return syscall(SYS_write, fd, v[0].iov_base, less(k, v[0].iov_len));
  REAL(ssize_t, "writev", int, const struct iovec *, int); return real(fd, v, n);
}
ssize_t readv(int fd, const struct iovec *v, int n) {
  int k = step("read", fdname(fd), n); FAIL(k);
  if (k > 1000 && n > 0) return syscall(SYS_read, fd, v[0].iov_base, less(k, v[0].iov_len));
  REAL(ssize_t, "readv", int, const struct iovec *, int); return real(fd, v, n);
}
#define PATH1(name, type) int name(const char *path, type x) { \
  int k = step(#name, path, 0); FAIL(k); REAL(int, #name, const char *, type); return real(path, x); }
PATH1(mkdir, mode_t)
PATH1(stat64, struct stat64 *)
PATH1(lstat64, struct stat64 *)
PATH1(stat, struct stat *)
PATH1(lstat, struct stat *)
PATH1(chmod, mode_t)
PATH1(access, int)
PATH1(truncate64, off64_t)
#define FD1(name, type) int name(int fd, type x) { \
  int k = step(#name, fdname(fd), 0); FAIL(k); REAL(int, #name, int, type); return real(fd, x); }
FD1(fstat64, struct stat64 *)
FD1(fstat, struct stat *)
FD1(ftruncate64, off64_t)
FD1(ftruncate, off_t)
/* The header promises that the path is never null, but it is. */
int my_statx(int, const char *, int, unsigned, void *) __asm__("statx");
int my_statx(int dir, const char *path, int flags, unsigned mask, void *b) {
  if (!path) return syscall(SYS_statx, dir, path, flags, mask, b); /* a probe */
  int k = step("statx", path && *path ? path : fdname(dir), 0); FAIL(k);
  REAL(int, "statx", int, const char *, int, unsigned, void *); return real(dir, path, flags, mask, b);
}
char *realpath(const char *restrict path, char *restrict out) {
  int k = step("realpath", path, 0); if (k > 0 && k < 1000) { errno = k; return NULL; }
  REAL(char *, "realpath", const char *, char *); return real(path, out);
}
char *getcwd(char *b, size_t n) {
  int k = step("getcwd", ".", 0); if (k > 0 && k < 1000) { errno = k; return NULL; }
  REAL(char *, "getcwd", char *, size_t); return real(b, n);
}
ssize_t readlink(const char *restrict path, char *restrict b, size_t n) {
  int k = step("readlink", path, 0); FAIL(k);
  REAL(ssize_t, "readlink", const char *, char *, size_t); return real(path, b, n);
}
off64_t lseek64(int fd, off64_t o, int w) {
  int k = step("lseek", fdname(fd), 0); FAIL(k);
  REAL(off64_t, "lseek64", int, off64_t, int); return real(fd, o, w);
}
int rename(const char *a, const char *b) {
  int k = step("rename", b, 0); FAIL(k); REAL(int, "rename", const char *, const char *); return real(a, b);
}
int link(const char *a, const char *b) {
  int k = step("link", b, 0); FAIL(k); REAL(int, "link", const char *, const char *); return real(a, b);
}
int unlink(const char *a) {
  int k = step("unlink", a, 0); FAIL(k); REAL(int, "unlink", const char *); return real(a);
}
int rmdir(const char *a) {
  int k = step("rmdir", a, 0); FAIL(k); REAL(int, "rmdir", const char *); return real(a);
}
int fsync(int fd) {
  int k = step("fsync", fdname(fd), 0); FAIL(k); REAL(int, "fsync", int); return real(fd);
}
int fdatasync(int fd) {
  int k = step("fsync", fdname(fd), 0); FAIL(k); REAL(int, "fdatasync", int); return real(fd);
}
