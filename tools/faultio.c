/* C29: preloaded into the program. Watches its file I/O and, as told by
 * environment variables, makes transfers short, interrupts them, refuses
 * writes to one file, or kills the program at a chosen point.
 *   FAULT_LOG    file receiving one line per watched call
 *   FAULT_SHORT  seed: reads and writes of files transfer less, or fail with EINTR
 *   FAULT_KILL   kill (SIGKILL) before the k-th watched call
 *   FAULT_TEAR   write half of the k-th write, then kill
 *   FAULT_FULL   path part: writes to such files fail with ENOSPC from FAULT_FROM on */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

#define MAXFD 1024
static char kind[MAXFD]; /* 1: a file of the test, 2: also one that is full */
static long calls, writes, full_writes;
static uint64_t rng;
static const char *log_path, *full_part, *root;
static long kill_at = -1, tear_at = -1, full_from = 0;
static int ready;

static void setup(void) {
  if (ready) return;
  ready = 1;
  const char* s;
  if ((s = getenv("FAULT_SHORT"))) rng = strtoull(s, 0, 10) * 2654435761u + 88172645463325252ull;
  if ((s = getenv("FAULT_KILL"))) kill_at = atol(s);
  if ((s = getenv("FAULT_TEAR"))) tear_at = atol(s);
  if ((s = getenv("FAULT_FROM"))) full_from = atol(s);
  full_part = getenv("FAULT_FULL");
  log_path = getenv("FAULT_LOG");
  root = getenv("FAULT_ROOT");
}
static void note(const char* what, const char* extra, long n) {
  if (!log_path) return;
  char b[700];
  int k = snprintf(b, sizeof b, "%s %s %ld\n", what, extra ? extra : "-", n);
  int fd = syscall(SYS_openat, AT_FDCWD, log_path, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
  if (fd >= 0) {
    if (syscall(SYS_write, fd, b, k) < 0) { }
    syscall(SYS_close, fd);
  }
}
static uint64_t rnd(void) {
  rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
  return rng;
}
static void die(void) {
  syscall(SYS_kill, getpid(), SIGKILL);
  for (;;) pause();
}
static void point(const char* what, const char* extra, long n) {
  if (++calls == kill_at) { note("killed-before", what, n); die(); }
  note(what, extra, n);
}
static int mine(int fd) { return fd > 2 && fd < MAXFD && kind[fd]; }
static void opened(const char* path, int fd) {
  if (fd <= 2 || fd >= MAXFD || !path) return;
  char full[4200];
  const char* p = path;
  if (path[0] != '/' && getcwd(full, 4000)) {
    strncat(full, "/", 2);
    strncat(full, path, 4100 - strlen(full));
    p = full;
  }
  if (root && strncmp(p, root, strlen(root)) == 0) kind[fd] = full_part && strstr(p, full_part) ? 2 : 1;
}
static void opening(const char* path) {
  setup();
  if (path && (!root || path[0] != '/' || strncmp(path, root, strlen(root)) == 0)) point("open", path, 0);
}
#define REAL(name, type) static type real; if (!real) real = (type)dlsym(RTLD_NEXT, name)

typedef FILE* (*fopen_t)(const char*, const char*);
FILE* fopen(const char* p, const char* m) {
  REAL("fopen", fopen_t);
  opening(p);
  FILE* f = real(p, m);
  if (f) opened(p, fileno(f));
  return f;
}
FILE* fopen64(const char* p, const char* m) {
  REAL("fopen64", fopen_t);
  opening(p);
  FILE* f = real(p, m);
  if (f) opened(p, fileno(f));
  return f;
}
typedef int (*open_t)(const char*, int, ...);
#define OPEN(name) \
int name(const char* p, int flags, ...) { \
  REAL(#name, open_t); \
  int mode = 0; \
  if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); mode = va_arg(a, int); va_end(a); } \
  opening(p); \
  int fd = real(p, flags, mode); \
  opened(p, fd); \
  return fd; \
}
OPEN(open)
OPEN(open64)
typedef int (*fclose_t)(FILE*);
int fclose(FILE* f) {
  REAL("fclose", fclose_t);
  setup();
  const int fd = fileno(f);
  if (mine(fd)) point("close", 0, 0);
  if (fd > 2 && fd < MAXFD) kind[fd] = 0;
  return real(f);
}
typedef int (*close_t)(int);
int close(int fd) {
  REAL("close", close_t);
  setup();
  if (mine(fd)) point("close", 0, 0);
  if (fd > 2 && fd < MAXFD) kind[fd] = 0;
  return real(fd);
}
ssize_t read(int fd, void* b, size_t n) {
  setup();
  if (mine(fd)) {
    point("read", 0, n);
    if (rng && n) {
      const uint64_t r = rnd() % 10;
      if (r == 0) { note("eintr", "read", n); errno = EINTR; return -1; }
      if (r < 6) { n = 1 + rnd() % n; note("short", "read", n); }
    }
  }
  return syscall(SYS_read, fd, b, n);
}
static int spoil(int fd, const void* b, size_t n) { /* 1: fail */
  ++writes;
  if (kind[fd] == 2 && ++full_writes > full_from) { note("enospc", 0, n); errno = ENOSPC; return 1; }
  if (writes == tear_at) {
    note("torn", 0, n);
    if (n > 1 && syscall(SYS_write, fd, b, n / 2) < 0) { }
    die();
  }
  return 0;
}
ssize_t write(int fd, const void* b, size_t n) {
  setup();
  if (mine(fd)) {
    point("write", 0, n);
    if (spoil(fd, b, n)) return -1;
    if (rng && n) {
      const uint64_t r = rnd() % 10;
      if (r == 0) { note("eintr", "write", n); errno = EINTR; return -1; }
      if (r < 6) { n = 1 + rnd() % n; note("short", "write", n); }
    }
  }
  return syscall(SYS_write, fd, b, n);
}
ssize_t writev(int fd, const struct iovec* v, int c) {
  setup();
  if (mine(fd)) {
    size_t n = 0;
    for (int i = 0; i < c; i++) n += v[i].iov_len;
    point("writev", 0, n);
    if (spoil(fd, c > 0 ? v[0].iov_base : 0, c > 0 ? v[0].iov_len : 0)) return -1;
    if (rng && n) {
      const uint64_t r = rnd() % 10;
      if (r == 0) { note("eintr", "writev", n); errno = EINTR; return -1; }
      if (r < 6)
        for (int i = 0; i < c; i++)
          if (v[i].iov_len) { note("short", "writev", 0); return syscall(SYS_write, fd, v[i].iov_base, 1 + rnd() % v[i].iov_len); }
    }
  }
  return syscall(SYS_writev, fd, v, c);
}
