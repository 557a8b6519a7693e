/*
 * Storage seam: an LD_PRELOAD library which owns every libc call that the
 * system under simulation (CPython, and the GDAL copies inside fiona and
 * rasterio) makes on files below one scratch directory, plus the clock and the
 * entropy source.  It is inert until vs_arm_root() is called, and files outside
 * the scratch directory are never touched.
 *
 * A fault plan is a list of entries (kind, n, fault, arg): "at the n-th
 * operation of this kind, do this".  Nothing in here is random: the simulator
 * decides the plan from its seed and the shim only carries it out, so one plan
 * is one execution.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <dirent.h>
#include <sys/file.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

enum { K_OPEN, K_READ, K_WRITE, K_CLOSE, K_MKDIR, K_RENAME, K_UNLINK, K_TRUNC,
       K_SYNC, K_STAT, K_N };
enum { F_NONE, F_ERR, F_SHORT, F_CRASH, F_TORN, F_STICKY, F_AFTER };

#define MAXP 64
#define MAXFD 4096
#define LOGN 65536

static char root[4096];
static size_t rootlen;
static volatile int armed;
static struct { int kind; long n; int fault; long arg; int fired; } plan[MAXP];
static int nplan;
static long count[K_N];
static int sticky[K_N];            /* errno that every later op of this kind gets */
static unsigned char watched[MAXFD];
static long fired[K_N][8];
static unsigned char lg[LOGN][2];
static long nlog;
static long bytes_lost;

/* ---------------------------------------------------------------- control */
void vs_arm_root(const char *r) {
  snprintf(root, sizeof root, "%s", r); rootlen = strlen(root);
  memset(count, 0, sizeof count); memset(sticky, 0, sizeof sticky);
  memset(fired, 0, sizeof fired); nplan = 0; nlog = 0; bytes_lost = 0;
  armed = 1;
}
void vs_disarm(void) { armed = 0; }
void vs_plan(int kind, long n, int fault, long arg) {
  if (nplan < MAXP) {
    plan[nplan].kind = kind; plan[nplan].n = n; plan[nplan].fault = fault;
    plan[nplan].arg = arg; plan[nplan].fired = 0; nplan++;
  }
}
long vs_count(int kind) { return count[kind]; }
long vs_fired(int kind, int fault) { return fired[kind][fault]; }
int vs_entry_fired(int i) { return plan[i].fired; }
long vs_log(unsigned char *out, long max) {
  long n = nlog < LOGN ? nlog : LOGN; if (n > max) n = max;
  memcpy(out, lg, (size_t)n * 2); return n;
}

/* ------------------------------------------------------------------ clock */
static volatile int clock_on;
static long long clock_base, clock_tick, clock_now;
void vs_clock(long long base, long long tick) {
  clock_base = base; clock_tick = tick; clock_now = base; clock_on = 1;
}
void vs_clock_jump(long long d) { clock_now += d; }
void vs_clock_off(void) { clock_on = 0; }
static volatile int ent_on;
static unsigned long long ent_s;
static long ent_calls, clock_calls;
void vs_entropy(unsigned long long s) { ent_s = s | 1; ent_on = 1; }
void vs_entropy_off(void) { ent_on = 0; }
long vs_clock_calls(void) { return clock_calls; }
long vs_entropy_calls(void) { return ent_calls; }

#define REAL(ret, name, ...) \
  static ret (*real_##name)(__VA_ARGS__); \
  if (!real_##name) real_##name = (ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, #name)

int clock_gettime(clockid_t id, struct timespec *ts) {
  REAL(int, clock_gettime, clockid_t, struct timespec *);
  if (!clock_on) return real_clock_gettime(id, ts);
  clock_calls++; clock_now += clock_tick;
  ts->tv_sec = clock_now / 1000000000LL; ts->tv_nsec = clock_now % 1000000000LL;
  return 0;
}
int gettimeofday(struct timeval *tv, void *tz) {
  REAL(int, gettimeofday, struct timeval *, void *);
  if (!clock_on) return real_gettimeofday(tv, tz);
  clock_calls++; clock_now += clock_tick;
  tv->tv_sec = clock_now / 1000000000LL; tv->tv_usec = clock_now % 1000000000LL / 1000;
  return 0;
}
static int asleep(const struct timespec *rq, int abs);
int nanosleep(const struct timespec *rq, struct timespec *rm) {
  REAL(int, nanosleep, const struct timespec *, struct timespec *);
  return asleep(rq, 0) ? 0 : real_nanosleep(rq, rm);
}
int clock_nanosleep(clockid_t id, int fl, const struct timespec *rq, struct timespec *rm) {
  REAL(int, clock_nanosleep, clockid_t, int, const struct timespec *, struct timespec *);
  return asleep(rq, fl & TIMER_ABSTIME) ? 0 : real_clock_nanosleep(id, fl, rq, rm);
}
time_t time(time_t *t) {
  REAL(time_t, time, time_t *);
  if (!clock_on) return real_time(t);
  clock_calls++; clock_now += clock_tick;
  time_t v = clock_now / 1000000000LL; if (t) *t = v; return v;
}
static void fill(void *p, size_t n) {
  unsigned char *b = p; ent_calls++;
  for (size_t i = 0; i < n; i++) {
    ent_s ^= ent_s << 13; ent_s ^= ent_s >> 7; ent_s ^= ent_s << 17; b[i] = ent_s >> 24;
  }
}
ssize_t getrandom(void *p, size_t n, unsigned f) {
  REAL(ssize_t, getrandom, void *, size_t, unsigned);
  if (!ent_on) return real_getrandom(p, n, f);
  fill(p, n); return (ssize_t)n;
}
int getentropy(void *p, size_t n) {
  REAL(int, getentropy, void *, size_t);
  if (!ent_on) return real_getentropy(p, n);
  fill(p, n); return 0;
}

/* ---------------------------------------------------------------- matching */
static int under(const char *path) {
  if (!armed || !path) return 0;
  char buf[8192];
  if (path[0] != '/') {
    if (!getcwd(buf, 4096)) return 0;
    size_t l = strlen(buf);
    if (l + strlen(path) + 2 > sizeof buf) return 0;
    buf[l] = '/'; strcpy(buf + l + 1, path); path = buf;
  }
  return strncmp(path, root, rootlen) == 0 && (path[rootlen] == '/' || !path[rootlen]);
}
static void note(int kind, int f) {
  if (nlog < LOGN) { lg[nlog][0] = kind; lg[nlog][1] = f; }
  nlog++;
}
/* Baton: with several processes in one simulated world, announce the
 * operation and wait until the scheduler lets this process go on. */
static int baton_r = -1, baton_w = -1;
void vs_baton(int r, int w) { baton_r = r; baton_w = w; }
static void baton(int kind) {
  if (baton_r < 0) return;
  char c = (char)('a' + kind);
  static ssize_t (*wr)(int, const void *, size_t); static ssize_t (*rd)(int, void *, size_t);
  if (!wr) { wr = (ssize_t (*)(int, const void *, size_t))dlsym(RTLD_NEXT, "write");
             rd = (ssize_t (*)(int, void *, size_t))dlsym(RTLD_NEXT, "read"); }
  while (wr(baton_w, &c, 1) < 0 && errno == EINTR) ;
  ssize_t r;
  while ((r = rd(baton_r, &c, 1)) < 0 && errno == EINTR) ;
  if (r <= 0 || c == 'K') _exit(77);
}
/* Sleeping takes simulated time, and lets the other processes go on. */
static int asleep(const struct timespec *rq, int abs) {
  if (!clock_on && baton_r < 0) return 0;
  if (clock_on) {
    long long t = rq->tv_sec * 1000000000LL + rq->tv_nsec;
    if (!abs) clock_now += t; else if (t > clock_now) clock_now = t;
  }
  if (armed) baton(K_STAT);
  return 1;
}
/* which fault, if any, hits this operation */
static int hit(int kind, long *arg) {
  int saved = errno; baton(kind); errno = saved;
  long n = count[kind]++;
  for (int i = 0; i < nplan; i++)
    if (plan[i].kind == kind && plan[i].n == n) {
      *arg = plan[i].arg; plan[i].fired = 1;
      int f = plan[i].fault;
      fired[kind][f]++; note(kind, f);
      if (f == F_STICKY) { sticky[kind] = (int)*arg; return F_ERR; }
      if (f == F_CRASH) _exit(77);
      return f;
    }
  if (sticky[kind]) { *arg = sticky[kind]; note(kind, F_STICKY); fired[kind][F_STICKY]++; return F_ERR; }
  note(kind, 0);
  return F_NONE;
}
static void setw(int fd, int v) { if (fd >= 0 && fd < MAXFD) watched[fd] = v; }
static int isw(int fd) { return armed && fd >= 0 && fd < MAXFD && watched[fd]; }

/* -------------------------------------------------------------------- open */
#define OPENBODY(name, callreal, path) \
  long a = 0; int w = under(path); int f = F_NONE; \
  if (w) { f = hit(K_OPEN, &a); if (f == F_ERR) { errno = (int)a; return -1; } } \
  int fd = callreal; setw(fd, w && fd >= 0); \
  if (w && f == F_AFTER) _exit(77); \
  return fd;

int open(const char *p, int fl, ...) {
  REAL(int, open, const char *, int, ...);
  va_list ap; va_start(ap, fl); mode_t m = va_arg(ap, int); va_end(ap);
  OPENBODY(open, real_open(p, fl, m), p)
}
int open64(const char *p, int fl, ...) {
  REAL(int, open64, const char *, int, ...);
  va_list ap; va_start(ap, fl); mode_t m = va_arg(ap, int); va_end(ap);
  OPENBODY(open64, real_open64(p, fl, m), p)
}
int openat(int d, const char *p, int fl, ...) {
  REAL(int, openat, int, const char *, int, ...);
  va_list ap; va_start(ap, fl); mode_t m = va_arg(ap, int); va_end(ap);
  OPENBODY(openat, real_openat(d, p, fl, m), p)
}
int openat64(int d, const char *p, int fl, ...) {
  REAL(int, openat64, int, const char *, int, ...);
  va_list ap; va_start(ap, fl); mode_t m = va_arg(ap, int); va_end(ap);
  OPENBODY(openat64, real_openat64(d, p, fl, m), p)
}
#define FOPENBODY(callreal, path) \
  long a = 0; int w = under(path); int f = F_NONE; \
  if (w) { f = hit(K_OPEN, &a); if (f == F_ERR) { errno = (int)a; return NULL; } } \
  FILE *fp = callreal; if (fp) setw(fileno(fp), w); \
  if (w && f == F_AFTER) _exit(77); \
  return fp;
FILE *fopen(const char *p, const char *m) {
  REAL(FILE *, fopen, const char *, const char *);
  FOPENBODY(real_fopen(p, m), p)
}
FILE *fopen64(const char *p, const char *m) {
  REAL(FILE *, fopen64, const char *, const char *);
  FOPENBODY(real_fopen64(p, m), p)
}
int dup(int fd) {
  REAL(int, dup, int); int r = real_dup(fd); if (r >= 0) setw(r, isw(fd)); return r;
}

/* -------------------------------------------------------------- read/write */
static size_t cut(size_t n, long arg) {       /* a strict, non-empty part of n bytes */
  if (n <= 1) return n;
  return 1 + (size_t)((unsigned long)arg % (n - 1));
}
ssize_t write(int fd, const void *b, size_t n) {
  REAL(ssize_t, write, int, const void *, size_t);
  if (!isw(fd)) return real_write(fd, b, n);
  long a = 0; int f = hit(K_WRITE, &a);
  if (f == F_ERR) { errno = (int)a; return -1; }
  if (f == F_SHORT) return real_write(fd, b, cut(n, a));
  if (f == F_TORN) { ssize_t r = real_write(fd, b, cut(n, a)); (void)r; _exit(77); }
  ssize_t r = real_write(fd, b, n);
  if (f == F_AFTER) _exit(77);
  return r;
}
#define PW(name, off_t_) \
ssize_t name(int fd, const void *b, size_t n, off_t_ o) { \
  REAL(ssize_t, name, int, const void *, size_t, off_t_); \
  if (!isw(fd)) return real_##name(fd, b, n, o); \
  long a = 0; int f = hit(K_WRITE, &a); \
  if (f == F_ERR) { errno = (int)a; return -1; } \
  if (f == F_SHORT) return real_##name(fd, b, cut(n, a), o); \
  if (f == F_TORN) { ssize_t r = real_##name(fd, b, cut(n, a), o); (void)r; _exit(77); } \
  ssize_t r = real_##name(fd, b, n, o); \
  if (f == F_AFTER) _exit(77); \
  return r; }
PW(pwrite, off_t)
PW(pwrite64, off64_t)
size_t fwrite(const void *b, size_t s, size_t n, FILE *fp) {
  REAL(size_t, fwrite, const void *, size_t, size_t, FILE *);
  if (!armed || !isw(fileno(fp))) return real_fwrite(b, s, n, fp);
  long a = 0; int f = hit(K_WRITE, &a);
  if (f == F_ERR) { errno = (int)a; return 0; }
  if (f == F_SHORT || f == F_TORN) {
    size_t k = cut(s * n, a); size_t r = real_fwrite(b, 1, k, fp) / (s ? s : 1);
    if (f == F_TORN) { fflush(fp); _exit(77); }
    errno = ENOSPC; return r;
  }
  size_t r = real_fwrite(b, s, n, fp);
  if (f == F_AFTER) _exit(77);
  return r;
}
ssize_t read(int fd, void *b, size_t n) {
  REAL(ssize_t, read, int, void *, size_t);
  if (!isw(fd)) return real_read(fd, b, n);
  long a = 0; int f = hit(K_READ, &a);
  if (f == F_ERR) { errno = (int)a; return -1; }
  if (f == F_SHORT) return real_read(fd, b, cut(n, a));
  ssize_t r = real_read(fd, b, n);
  if (f == F_AFTER || f == F_TORN) _exit(77);
  return r;
}
#define PR(name, off_t_) \
ssize_t name(int fd, void *b, size_t n, off_t_ o) { \
  REAL(ssize_t, name, int, void *, size_t, off_t_); \
  if (!isw(fd)) return real_##name(fd, b, n, o); \
  long a = 0; int f = hit(K_READ, &a); \
  if (f == F_ERR) { errno = (int)a; return -1; } \
  if (f == F_SHORT) return real_##name(fd, b, cut(n, a), o); \
  ssize_t r = real_##name(fd, b, n, o); \
  if (f == F_AFTER || f == F_TORN) _exit(77); \
  return r; }
PR(pread, off_t)
PR(pread64, off64_t)
size_t fread(void *b, size_t s, size_t n, FILE *fp) {
  REAL(size_t, fread, void *, size_t, size_t, FILE *);
  if (!armed || !isw(fileno(fp))) return real_fread(b, s, n, fp);
  long a = 0; int f = hit(K_READ, &a);
  if (f == F_ERR) { errno = (int)a; return 0; }
  size_t r = real_fread(b, s, n, fp);
  if (f == F_AFTER || f == F_TORN) _exit(77);
  return r;
}

/* ------------------------------------------------------------- the others */
int close(int fd) {
  REAL(int, close, int);
  if (!isw(fd)) return real_close(fd);
  long a = 0; int f = hit(K_CLOSE, &a);
  setw(fd, 0);
  int r = real_close(fd);
  if (f == F_AFTER) _exit(77);
  if (f == F_ERR) { errno = (int)a; return -1; }
  return r;
}
int fclose(FILE *fp) {
  REAL(int, fclose, FILE *);
  if (!armed || !isw(fileno(fp))) return real_fclose(fp);
  long a = 0; int fd = fileno(fp); int f = hit(K_CLOSE, &a);
  setw(fd, 0);
  int r = real_fclose(fp);
  if (f == F_AFTER) _exit(77);
  if (f == F_ERR) { errno = (int)a; return EOF; }
  return r;
}
#define SIMPLE(ret, name, kind, watch, decl, call, ...) \
ret name decl { REAL(ret, name, __VA_ARGS__); \
  if (!(watch)) return real_##name call; \
  long a = 0; int f = hit(kind, &a); \
  if (f == F_ERR) { errno = (int)a; return -1; } \
  ret r = real_##name call; \
  if (f == F_AFTER) _exit(77); \
  return r; }
SIMPLE(int, mkdir, K_MKDIR, under(p), (const char *p, mode_t m), (p, m), const char *, mode_t)
SIMPLE(int, rename, K_RENAME, under(p) || under(q), (const char *p, const char *q), (p, q), const char *, const char *)
SIMPLE(int, unlink, K_UNLINK, under(p), (const char *p), (p), const char *)
SIMPLE(int, ftruncate, K_TRUNC, isw(fd), (int fd, off_t o), (fd, o), int, off_t)
SIMPLE(int, ftruncate64, K_TRUNC, isw(fd), (int fd, off64_t o), (fd, o), int, off64_t)
SIMPLE(int, fsync, K_SYNC, isw(fd), (int fd), (fd), int)
SIMPLE(int, fdatasync, K_SYNC, isw(fd), (int fd), (fd), int)
int renameat(int a1, const char *p, int b1, const char *q) {
  REAL(int, renameat, int, const char *, int, const char *);
  if (!(under(p) || under(q))) return real_renameat(a1, p, b1, q);
  long a = 0; int f = hit(K_RENAME, &a);
  if (f == F_ERR) { errno = (int)a; return -1; }
  int r = real_renameat(a1, p, b1, q);
  if (f == F_AFTER) _exit(77);
  return r;
}

/* Looking at a file is a step of its own (another process may act between the
 * look and the use). */
#define LOOK(name, decl, call, ...) \
int name decl { REAL(int, name, __VA_ARGS__); \
  if (!under(p)) return real_##name call; \
  long a = 0; int f = hit(K_STAT, &a); \
  if (f == F_ERR) { errno = (int)a; return -1; } \
  return real_##name call; }
LOOK(stat, (const char *p, struct stat *b), (p, b), const char *, struct stat *)
LOOK(stat64, (const char *p, struct stat64 *b), (p, b), const char *, struct stat64 *)
LOOK(lstat, (const char *p, struct stat *b), (p, b), const char *, struct stat *)
LOOK(lstat64, (const char *p, struct stat64 *b), (p, b), const char *, struct stat64 *)
LOOK(access, (const char *p, int m), (p, m), const char *, int)
LOOK(fstatat, (int d, const char *p, struct stat *b, int fl), (d, p, b, fl), int, const char *, struct stat *, int)
LOOK(fstatat64, (int d, const char *p, struct stat64 *b, int fl), (d, p, b, fl), int, const char *, struct stat64 *, int)
SIMPLE(int, rmdir, K_UNLINK, under(p), (const char *p), (p), const char *)
SIMPLE(int, truncate, K_TRUNC, under(p), (const char *p, off_t o), (p, o), const char *, off_t)
SIMPLE(int, link, K_RENAME, under(p) || under(q), (const char *p, const char *q), (p, q), const char *, const char *)

/* Copies inside the kernel are writes, and listing a folder is a look. */
static ssize_t part(int f, long a, size_t n, size_t *m) { *m = (f == F_SHORT || f == F_TORN) ? cut(n, a) : n; return 0; }
#define COPY(name, out, n, decl, callpart, ...) \
ssize_t name decl { REAL(ssize_t, name, __VA_ARGS__); size_t m = n; \
  if (!isw(out)) return real_##name callpart; \
  long a = 0; int f = hit(K_WRITE, &a); \
  if (f == F_ERR) { errno = (int)a; return -1; } \
  part(f, a, n, &m); \
  ssize_t r = real_##name callpart; \
  if (f == F_TORN || f == F_AFTER) _exit(77); \
  return r; }
COPY(sendfile, o, n, (int o, int i, off_t *p, size_t n), (o, i, p, m), int, int, off_t *, size_t)
COPY(sendfile64, o, n, (int o, int i, off64_t *p, size_t n), (o, i, p, m), int, int, off64_t *, size_t)
COPY(copy_file_range, o, n, (int i, off64_t *p, int o, off64_t *q, size_t n, unsigned fl), (i, p, o, q, m, fl),
     int, off64_t *, int, off64_t *, size_t, unsigned)
ssize_t writev(int fd, const struct iovec *v, int k) {
  REAL(ssize_t, writev, int, const struct iovec *, int);
  if (!isw(fd)) return real_writev(fd, v, k);
  long a = 0; int f = hit(K_WRITE, &a);
  if (f == F_ERR) { errno = (int)a; return -1; }
  ssize_t r = (f == F_SHORT || f == F_TORN) ? real_writev(fd, v, 1) : real_writev(fd, v, k);
  if (f == F_TORN || f == F_AFTER) _exit(77);
  return r;
}
DIR *opendir(const char *p) {
  REAL(DIR *, opendir, const char *);
  if (!under(p)) return real_opendir(p);
  long a = 0; int f = hit(K_STAT, &a);
  if (f == F_ERR) { errno = (int)a; return NULL; }
  return real_opendir(p);
}
int renameat2(int a1, const char *p, int b1, const char *q, unsigned fl) {
  REAL(int, renameat2, int, const char *, int, const char *, unsigned);
  if (!(under(p) || under(q))) return real_renameat2(a1, p, b1, q, fl);
  long a = 0; int f = hit(K_RENAME, &a);
  if (f == F_ERR) { errno = (int)a; return -1; }
  int r = real_renameat2(a1, p, b1, q, fl);
  if (f == F_AFTER) _exit(77);
  return r;
}
SIMPLE(int, symlink, K_RENAME, under(q), (const char *p, const char *q), (p, q), const char *, const char *)

/* Waiting for a lock lets the other processes go on. */
int flock(int fd, int op) {
  REAL(int, flock, int, int);
  if (!armed || baton_r < 0 || (op & LOCK_NB)) return real_flock(fd, op);
  for (;;) {
    baton(K_SYNC);
    int r = real_flock(fd, op | LOCK_NB);
    if (r == 0 || errno != EWOULDBLOCK) return r;
  }
}
#define LOCKING(name) \
int name(int fd, int cmd, ...) { \
  REAL(int, name, int, int, ...); \
  va_list ap; va_start(ap, cmd); void *x = va_arg(ap, void *); va_end(ap); \
  int try = cmd == F_SETLKW ? F_SETLK : cmd == F_OFD_SETLKW ? F_OFD_SETLK : 0; \
  if (try && armed && baton_r >= 0) \
    for (;;) { \
      baton(K_SYNC); \
      int r = real_##name(fd, try, x); \
      if (r == 0 || (errno != EAGAIN && errno != EACCES)) return r; \
    } \
  int r = real_##name(fd, cmd, x); \
  if (r >= 0 && (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC)) setw(r, isw(fd)); \
  return r; }
LOCKING(fcntl)
LOCKING(fcntl64)
