// Counts the operations that change the filesystem below one directory and
// makes the n-th one fail or end the process.  Loaded with LD_PRELOAD; idle
// until verif_fs_arm() is called.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/sendfile.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { BEFORE = 0, HALF = 1, FAIL = 2, LATE = 3 };
static char root[PATH_MAX];
static size_t rootlen;
static long target = -1, count;
static int flavour, armed, logfd = -1;
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;

#define REAL(name) \
  static __typeof__(name)* real; \
  if (!real) real = (__typeof__(name)*)dlsym(RTLD_NEXT, #name)

void verif_fs_arm(const char* dir, long n, int fl, int fd) {
  snprintf(root, sizeof root, "%s", dir);
  rootlen = strlen(root);
  target = n;
  flavour = fl;
  count = 0;
  logfd = fd;
  armed = 1;
}
void verif_fs_disarm(void) { armed = 0; }
long verif_fs_count(void) { return count; }

static int below(const char* p) {
  return p && !strncmp(p, root, rootlen) && (p[rootlen] == 0 || p[rootlen] == '/');
}
static int at(int dirfd, const char* p, char* buf) {
  if (!armed || !p) return 0;
  if (p[0] == '/') { snprintf(buf, PATH_MAX, "%s", p); return below(buf); }
  char link[64], dir[PATH_MAX];
  ssize_t n;
  if (dirfd == AT_FDCWD) {
    if (!getcwd(dir, sizeof dir)) return 0;
  } else {
    snprintf(link, sizeof link, "/proc/self/fd/%d", dirfd);
    n = readlink(link, dir, sizeof dir - 1);
    if (n < 0) return 0;
    dir[n] = 0;
  }
  if (snprintf(buf, PATH_MAX, "%s/%s", dir, p) >= PATH_MAX) return 0;
  return below(buf);
}
static int fdpath(int fd, char* buf) {
  if (!armed) return 0;
  char link[64];
  snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
  ssize_t n = readlink(link, buf, PATH_MAX - 1);
  if (n < 0) return 0;
  buf[n] = 0;
  return below(buf);
}
// Returns the flavour if the fault is due at this operation, else -1.
static int step(const char* op, const char* path) {
  pthread_mutex_lock(&mu);
  long me = ++count;
  int due = me == target ? flavour : -1;
  if (logfd >= 0) {
    char line[PATH_MAX + 64];
    int n = snprintf(line, sizeof line, "%ld %s %s\n", me, op, path);
    static ssize_t (*w)(int, const void*, size_t);
    if (!w) w = dlsym(RTLD_NEXT, "write");
    if (w(logfd, line, n) < 0) {}
  }
  pthread_mutex_unlock(&mu);
  if (due == BEFORE) _exit(77);
  return due;
}
#define GUARD(op, path, call)            \
  int due_ = step(op, path);             \
  if (due_ == FAIL) { errno = EIO; return -1; } \
  __typeof__(call) r_ = call;            \
  if (due_ == HALF) _exit(77);           \
  if (due_ == LATE) { errno = EIO; return -1; } \
  return r_

int rename(const char* a, const char* b) {
  REAL(rename);
  char p[PATH_MAX];
  if (!at(AT_FDCWD, a, p) && !at(AT_FDCWD, b, p)) return real(a, b);
  GUARD("rename", p, real(a, b));
}
int renameat(int da, const char* a, int db, const char* b) {
  REAL(renameat);
  char p[PATH_MAX];
  if (!at(da, a, p) && !at(db, b, p)) return real(da, a, db, b);
  GUARD("rename", p, real(da, a, db, b));
}
int renameat2(int da, const char* a, int db, const char* b, unsigned fl) {
  REAL(renameat2);
  char p[PATH_MAX];
  if (!at(da, a, p) && !at(db, b, p)) return real(da, a, db, b, fl);
  GUARD("rename", p, real(da, a, db, b, fl));
}
int unlink(const char* a) {
  REAL(unlink);
  char p[PATH_MAX];
  if (!at(AT_FDCWD, a, p)) return real(a);
  GUARD("unlink", p, real(a));
}
int unlinkat(int d, const char* a, int fl) {
  REAL(unlinkat);
  char p[PATH_MAX];
  if (!at(d, a, p)) return real(d, a, fl);
  GUARD("unlink", p, real(d, a, fl));
}
int remove(const char* a) {
  REAL(remove);
  char p[PATH_MAX];
  if (!at(AT_FDCWD, a, p)) return real(a);
  GUARD("unlink", p, real(a));
}
int rmdir(const char* a) {
  REAL(rmdir);
  char p[PATH_MAX];
  if (!at(AT_FDCWD, a, p)) return real(a);
  GUARD("rmdir", p, real(a));
}
int mkdir(const char* a, mode_t m) {
  REAL(mkdir);
  char p[PATH_MAX];
  if (!at(AT_FDCWD, a, p)) return real(a, m);
  GUARD("mkdir", p, real(a, m));
}
int mkdirat(int d, const char* a, mode_t m) {
  REAL(mkdirat);
  char p[PATH_MAX];
  if (!at(d, a, p)) return real(d, a, m);
  GUARD("mkdir", p, real(d, a, m));
}
#define OPENMODE mode_t m = 0; if (fl & O_CREAT) { va_list ap; va_start(ap, fl); m = va_arg(ap, int); va_end(ap); }
int open(const char* a, int fl, ...) {
  REAL(open); OPENMODE
  char p[PATH_MAX];
  if (!(fl & (O_CREAT | O_TRUNC)) || !at(AT_FDCWD, a, p)) return real(a, fl, m);
  GUARD("open", p, real(a, fl, m));
}
int open64(const char* a, int fl, ...) {
  REAL(open64); OPENMODE
  char p[PATH_MAX];
  if (!(fl & (O_CREAT | O_TRUNC)) || !at(AT_FDCWD, a, p)) return real(a, fl, m);
  GUARD("open", p, real(a, fl, m));
}
int openat(int d, const char* a, int fl, ...) {
  REAL(openat); OPENMODE
  char p[PATH_MAX];
  if (!(fl & (O_CREAT | O_TRUNC)) || !at(d, a, p)) return real(d, a, fl, m);
  GUARD("open", p, real(d, a, fl, m));
}
int openat64(int d, const char* a, int fl, ...) {
  REAL(openat64); OPENMODE
  char p[PATH_MAX];
  if (!(fl & (O_CREAT | O_TRUNC)) || !at(d, a, p)) return real(d, a, fl, m);
  GUARD("open", p, real(d, a, fl, m));
}
#define FOPEN(name)                                                      \
  FILE* name(const char* a, const char* m) {                             \
    REAL(name);                                                          \
    char p[PATH_MAX];                                                    \
    if (m[0] == 'r' || !at(AT_FDCWD, a, p)) return real(a, m);           \
    int due = step("open", p);                                           \
    if (due == FAIL) { errno = EIO; return NULL; }                       \
    FILE* f = real(a, m);                                                \
    if (due == HALF) _exit(77);                                          \
    if (due == LATE) { if (f) fclose(f); errno = EIO; return NULL; }     \
    return f;                                                            \
  }
FOPEN(fopen)
FOPEN(fopen64)
size_t fwrite(const void* d, size_t s, size_t n, FILE* f) {
  REAL(fwrite);
  char p[PATH_MAX];
  if (!armed || s * n == 0 || !fdpath(fileno(f), p)) return real(d, s, n, f);
  int due = step("write", p);
  if (due == FAIL) { errno = EIO; return 0; }
  if (due == HALF) { real(d, 1, s * n / 2, f); fflush(f); _exit(77); }
  size_t r = real(d, s, n, f);
  if (due == LATE) { fflush(f); errno = EIO; return 0; }
  return r;
}
#define WRITES(name, args, call, half)                                   \
  ssize_t name args {                                                    \
    REAL(name);                                                          \
    char p[PATH_MAX];                                                    \
    if (!armed || fd == logfd || n == 0 || !fdpath(fd, p)) return call;  \
    int due = step("write", p);                                          \
    if (due == FAIL) { errno = EIO; return -1; }                         \
    if (due == HALF) { if (half < 0) {} _exit(77); }                     \
    ssize_t r = call;                                                    \
    if (due == LATE) { errno = EIO; return -1; }                         \
    return r;                                                            \
  }
WRITES(write, (int fd, const void* d, size_t n), real(fd, d, n), real(fd, d, n / 2))
WRITES(pwrite, (int fd, const void* d, size_t n, off_t o), real(fd, d, n, o), real(fd, d, n / 2, o))
WRITES(pwrite64, (int fd, const void* d, size_t n, off64_t o), real(fd, d, n, o), real(fd, d, n / 2, o))
WRITES(sendfile, (int fd, int in, off_t* o, size_t n), real(fd, in, o, n), real(fd, in, o, n / 2))
WRITES(sendfile64, (int fd, int in, off64_t* o, size_t n), real(fd, in, o, n), real(fd, in, o, n / 2))
WRITES(copy_file_range, (int in, off64_t* oi, int fd, off64_t* oo, size_t n, unsigned fl), real(in, oi, fd, oo, n, fl), real(in, oi, fd, oo, n / 2, fl))
