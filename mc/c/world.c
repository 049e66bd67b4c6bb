/* Interposed on what a program can learn about the world besides its files: random numbers, the time, the
 * identity of the process, and the environment (whose names are logged).
 *
 * MC_WORLD_SEED: what random numbers, the time and the identity are derived from.
 * MC_WORLD_LOG: a file to which the names are appended which the program looks up in its environment. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/random.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

extern char **environ;
static const char *look_up(const char *name) {
  size_t n = strlen(name);
  for (char **e = environ; e && *e; e++)
    if (!strncmp(*e, name, n) && (*e)[n] == '=') return *e + n + 1;
  return 0;
}
static uint64_t seed(void) {
  const char *s = look_up("MC_WORLD_SEED");
  return s ? strtoull(s, 0, 10) : 0;
}
static uint64_t next(uint64_t *x) { /* splitmix64 */
  uint64_t z = (*x += 0x9e3779b97f4a7c15u);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9u;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebu;
  return z ^ (z >> 31);
}
static uint64_t state;
static int started;
static void fill(void *to, size_t n) {
  if (!started) { started = 1; state = seed() * 0x2545f4914f6cdd1du; }
  for (size_t i = 0; i < n; i++) ((unsigned char *)to)[i] = next(&state);
}
static void note(const char *name) {
  const char *log = look_up("MC_WORLD_LOG");
  if (!log || !*log) return;
  int fd = syscall(SYS_openat, AT_FDCWD, log, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
  if (fd < 0) return;
  char line[256];
  size_t n = strlen(name);
  if (n > 250) n = 250;
  memcpy(line, name, n);
  line[n] = '\n';
  if (syscall(SYS_write, fd, line, n + 1)) {}
  syscall(SYS_close, fd);
}

ssize_t getrandom(void *to, size_t n, unsigned flags) { note("=random"); fill(to, n); return n; }
int getentropy(void *to, size_t n) { fill(to, n); return 0; }
uint32_t arc4random(void) { uint32_t x; fill(&x, 4); return x; }
void arc4random_buf(void *to, size_t n) { fill(to, n); }

char *getenv(const char *name) {
  if (strncmp(name, "MC_WORLD_", 9)) note(name);
  return (char *)look_up(name);
}
char *secure_getenv(const char *name) { return getenv(name); }

/* The time passes as usual, from a starting point which depends on the seed. */
static long shift(void) { static const long by[] = {0, 86400 * 45, 31536000L * 9, -86400L * 200, 3600 * 11, 59, 31536000L * 70, -31536000L * 20}; return by[seed() % 8]; }
int clock_gettime(clockid_t id, struct timespec *t) {
  int r = syscall(SYS_clock_gettime, id, t);
  if (!r && (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE)) t->tv_sec += shift();
  return r;
}
time_t time(time_t *to) {
  struct timespec t;
  clock_gettime(CLOCK_REALTIME, &t);
  if (to) *to = t.tv_sec;
  return t.tv_sec;
}
int gettimeofday(struct timeval *to, void *zone) {
  struct timespec t;
  clock_gettime(CLOCK_REALTIME, &t);
  to->tv_sec = t.tv_sec;
  to->tv_usec = t.tv_nsec / 1000;
  return 0;
}
pid_t getpid(void) { return 1000 + seed() * 7919 % 30000; }
uid_t getuid(void) { return seed() % 3 * 1000; }
uid_t geteuid(void) { return seed() % 3 * 1000; }
int gethostname(char *to, size_t n) {
  static const char *names[] = {"alpha", "beta.example.org", "localhost"};
  strncpy(to, names[seed() % 3], n);
  return 0;
}
