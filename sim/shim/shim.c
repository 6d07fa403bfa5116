/* Preloaded into the command line program: its files, its standard output,
 * its clock and its randomness go through here and do what the plan says.
 * Everything it does is written to a log. Without SIM_DIR it does nothing.
 *
 * SIM_DIR   scratch directory: files in it are watched
 * SIM_IN    the input path as given to the program
 * SIM_LOG   where the log goes
 * SIM_KEY   seed of getrandom
 * SIM_CLOCK nanoseconds since 1970 at the start; every call takes some time
 * SIM_TICKS allocations allowed
 * SIM_PLAN  class:index:action:arg;... index counts the calls of the class
 *   classes: oi ri si = open, read, stat/seek of the input
 *            oo w ox  = open, write, other calls on outputs (and fd 1)
 *            g c m    = getrandom, clock, allocations after the input is open
 *   actions: err:<errno> short:<n> zero kill torn:<n> full:<bytes> jump:<ns>
 */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>

extern char **environ;
void *__libc_malloc(size_t);
void *__libc_calloc(size_t, size_t);
void *__libc_realloc(void *, size_t);
void *__libc_memalign(size_t, size_t);

static long raw(long n, long a, long b, long c, long d, long e, long f) {
  long r;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return r;
}
static long self(void) { return raw(SYS_getpid, 0, 0, 0, 0, 0, 0); }
#define R(n, ...) R_(n, ##__VA_ARGS__, 0, 0, 0, 0, 0, 0)
#define R_(n, a, b, c, d, e, f, ...) raw(n, (long)(a), (long)(b), (long)(c), (long)(d), (long)(e), (long)(f))
static long fin(long r) {
  if (r < 0) {
    errno = -r;
    return -1;
  }
  return r;
}

enum { OI, RI, SI, OO, W, OX, G, C, M, NC };
static const char *names[NC] = {"oi", "ri", "si", "oo", "w", "ox", "g", "c", "m"};
enum { NONE, ERR, SHORT, ZERO, KILL, TORN, FULL, JUMP };
static const char *acts[] = {"", "err", "short", "zero", "kill", "torn", "full", "jump"};
struct fault { int cls; long idx; int act; long arg; };
static struct fault plan[64];
static int nplan, on, opened;
static long count[NC], written;
static int logfd = -1;
static const char *dir, *in;
static uint64_t key, clk, ticks, maxticks;
static unsigned char kind[1024]; /* 1 input, 2 output */

static const char *env(const char *k) {
  size_t n = strlen(k);
  for (char **e = environ; e && *e; e++)
    if (!strncmp(*e, k, n) && (*e)[n] == '=') return *e + n + 1;
  return 0;
}
static long num(const char **s) {
  long v = 0;
  int neg = **s == '-';
  if (neg) (*s)++;
  while (**s >= '0' && **s <= '9') v = v * 10 + (*(*s)++ - '0');
  return neg ? -v : v;
}
static void note(const char *what, long a, long b, const char *act) {
  char buf[160];
  int n = 0;
  for (const char *p = what; *p; p++) buf[n++] = *p;
  long v[2] = {a, b};
  for (int k = 0; k < 2; k++) {
    char t[24];
    int m = 0;
    unsigned long u = v[k] < 0 ? -v[k] : v[k];
    do t[m++] = '0' + u % 10; while (u /= 10);
    buf[n++] = ' ';
    if (v[k] < 0) buf[n++] = '-';
    while (m) buf[n++] = t[--m];
  }
  if (act) {
    buf[n++] = ' ';
    for (const char *p = act; *p; p++) buf[n++] = *p;
  }
  buf[n++] = '\n';
  if (logfd >= 0) R(SYS_write, logfd, buf, n);
}
static uint64_t mixed(uint64_t *x) {
  uint64_t z = (*x += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}

__attribute__((constructor)) static void start(void) {
  dir = env("SIM_DIR");
  in = env("SIM_IN");
  const char *l = env("SIM_LOG"), *p = env("SIM_PLAN"), *s;
  if (!dir || !in || !l) return;
  long fd = R(SYS_open, l, O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0600);
  if (fd < 0) return;
  logfd = R(SYS_fcntl, fd, F_DUPFD_CLOEXEC, 200);
  R(SYS_close, fd);
  if ((s = env("SIM_KEY"))) key = (uint64_t)num(&s);
  if ((s = env("SIM_CLOCK"))) clk = (uint64_t)num(&s);
  maxticks = ~0ull;
  if ((s = env("SIM_TICKS"))) maxticks = (uint64_t)num(&s);
  while (p && *p && nplan < 64) {
    struct fault f = {-1, 0, NONE, 0};
    for (int k = 0; k < NC; k++) {
      size_t n = strlen(names[k]);
      if (!strncmp(p, names[k], n) && p[n] == ':') {
        f.cls = k;
        p += n + 1;
        break;
      }
    }
    f.idx = num(&p);
    if (*p == ':') p++;
    for (int k = 1; k <= JUMP; k++) {
      size_t n = strlen(acts[k]);
      if (!strncmp(p, acts[k], n)) {
        f.act = k;
        p += n;
        break;
      }
    }
    if (*p == ':') {
      p++;
      f.arg = num(&p);
    }
    if (*p == ';') p++;
    if (f.cls < 0 || f.act == NONE) {
      note("badplan", 0, 0, 0);
      R(SYS_exit_group, 97);
    }
    plan[nplan++] = f;
  }
  on = 1;
}

static struct fault *due(int cls) {
  long n = count[cls]++;
  clk += 1000 + (key >> 7) % 4000 + (uint64_t)cls * 700; /* simulated time passes */
  for (int k = 0; k < nplan; k++)
    if (plan[k].cls == cls && plan[k].idx == n && plan[k].act != FULL) return &plan[k];
  return 0;
}
static void die(int cls) {
  note(names[cls], count[cls] - 1, 0, "kill");
  R(SYS_kill, self(), SIGKILL);
  for (;;) R(SYS_pause);
}

static int inside(const char *p) {
  size_t n = strlen(dir);
  if (p[0] != '/') return 1; /* the program runs in the scratch directory */
  return !strncmp(p, dir, n);
}
static int do_open(int at, const char *path, int flags, mode_t mode) {
  int k = 0;
  if (on && path) {
    if (!strcmp(path, in)) k = 1;
    else if ((flags & O_ACCMODE) != O_RDONLY && inside(path)) k = 2;
  }
  if (k) {
    int cls = k == 1 ? OI : OO;
    struct fault *f = due(cls);
    if (f && f->act == KILL) die(cls);
    if (f && f->act == ERR) {
      note(names[cls], count[cls] - 1, -f->arg, "err");
      errno = f->arg;
      return -1;
    }
    if (k == 1) opened = 1;
  }
  long r = R(SYS_openat, at, path, flags, mode);
  if (k) {
    note(names[k == 1 ? OI : OO], count[k == 1 ? OI : OO] - 1, r < 0 ? r : 0, 0);
    if (r >= 0 && r < 1024) kind[r] = k;
  }
  return fin(r);
}
static mode_t modearg(int flags, va_list *ap) {
  return (flags & (O_CREAT | __O_TMPFILE)) ? va_arg(*ap, mode_t) : 0;
}
#define OPEN(name)                           \
  int name(const char *path, int flags, ...) { \
    va_list ap;                              \
    va_start(ap, flags);                     \
    mode_t m = modearg(flags, &ap);          \
    va_end(ap);                              \
    return do_open(AT_FDCWD, path, flags, m); \
  }
OPEN(open)
OPEN(open64)
#define OPENAT(name)                                 \
  int name(int at, const char *path, int flags, ...) { \
    va_list ap;                                      \
    va_start(ap, flags);                             \
    mode_t m = modearg(flags, &ap);                  \
    va_end(ap);                                      \
    return do_open(at, path, flags, m);              \
  }
OPENAT(openat)
OPENAT(openat64)
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *p, mode_t m) { return creat(p, m); }

static int is_in(int fd) { return on && fd >= 0 && fd < 1024 && kind[fd] == 1; }
static int is_out(int fd) { return on && (fd == 1 || (fd >= 0 && fd < 1024 && kind[fd] == 2)); }

/* one transfer of at most n bytes under the plan; -2: n stays as it is */
static long before_read(size_t *n) {
  struct fault *f = due(RI);
  if (!f) return -2;
  if (f->act == KILL) die(RI);
  if (f->act == ERR) {
    note("ri", count[RI] - 1, -f->arg, "err");
    errno = f->arg;
    return -1;
  }
  if (f->act == ZERO) {
    note("ri", count[RI] - 1, 0, "zero");
    return 0;
  }
  if (f->act == SHORT && *n > (size_t)f->arg && f->arg > 0) {
    note("ri", count[RI] - 1, f->arg, "short");
    *n = f->arg;
  }
  return -2;
}
ssize_t read(int fd, void *b, size_t n) {
  if (is_in(fd) && n) {
    long k = before_read(&n);
    if (k != -2) return k;
    long r = R(SYS_read, fd, b, n);
    note("ri", count[RI] - 1, r, 0);
    return fin(r);
  }
  return fin(R(SYS_read, fd, b, n));
}
ssize_t pread64(int fd, void *b, size_t n, off_t o) {
  if (is_in(fd) && n) {
    long k = before_read(&n);
    if (k != -2) return k;
  }
  return fin(R(SYS_pread64, fd, b, n, o));
}
ssize_t pread(int fd, void *b, size_t n, off_t o) { return pread64(fd, b, n, o); }
ssize_t readv(int fd, const struct iovec *v, int c) {
  for (int k = 0; k < c; k++)
    if (v[k].iov_len) return read(fd, v[k].iov_base, v[k].iov_len);
  return 0;
}

static long before_write(int fd, const void *b, size_t *n) {
  struct fault *f = due(W);
  for (int k = 0; k < nplan; k++)
    if (plan[k].cls == W && plan[k].act == FULL && written + (long)*n > plan[k].arg) {
      long room = plan[k].arg - written;
      if (room <= 0) {
        note("w", count[W] - 1, -ENOSPC, "full");
        errno = ENOSPC;
        return -1;
      }
      *n = room;
    }
  if (!f) return -2;
  if (f->act == KILL) die(W);
  if (f->act == TORN) {
    long k = f->arg < (long)*n ? f->arg : (long)*n;
    R(SYS_write, fd, b, k);
    note("w", count[W] - 1, k, "torn");
    R(SYS_kill, self(), SIGKILL);
    for (;;) R(SYS_pause);
  }
  if (f->act == ERR) {
    note("w", count[W] - 1, -f->arg, "err");
    errno = f->arg;
    return -1;
  }
  if (f->act == ZERO) {
    note("w", count[W] - 1, 0, "zero");
    return 0;
  }
  if (f->act == SHORT && *n > (size_t)f->arg && f->arg > 0) {
    note("w", count[W] - 1, f->arg, "short");
    *n = f->arg;
  }
  return -2;
}
ssize_t write(int fd, const void *b, size_t n) {
  if (is_out(fd) && n) {
    long k = before_write(fd, b, &n);
    if (k != -2) return k;
    long r = R(SYS_write, fd, b, n);
    if (r > 0) written += r;
    note("w", count[W] - 1, r, 0);
    return fin(r);
  }
  return fin(R(SYS_write, fd, b, n));
}
ssize_t writev(int fd, const struct iovec *v, int c) {
  if (!is_out(fd)) return fin(R(SYS_writev, fd, v, c));
  for (int k = 0; k < c; k++)
    if (v[k].iov_len) return write(fd, v[k].iov_base, v[k].iov_len);
  return 0;
}
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) {
  if (is_out(fd) && n) {
    long k = before_write(fd, b, &n);
    if (k != -2) return k;
  }
  return fin(R(SYS_pwrite64, fd, b, n, o));
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return pwrite64(fd, b, n, o); }

/* other calls */
static int other(int cls) {
  struct fault *f = due(cls);
  if (f && f->act == KILL) die(cls);
  if (f && f->act == ERR) {
    note(names[cls], count[cls] - 1, -f->arg, "err");
    errno = f->arg;
    return -1;
  }
  note(names[cls], count[cls] - 1, 0, 0);
  return 0;
}
int close(int fd) {
  if (on && fd >= 0 && fd < 1024 && kind[fd]) {
    int k = kind[fd];
    kind[fd] = 0;
    if (k == 2) {
      struct fault *f = due(OX);
      if (f && f->act == KILL) die(OX);
    }
  }
  return fin(R(SYS_close, fd));
}
int fsync(int fd) {
  if (is_out(fd) && other(OX)) return -1;
  return fin(R(SYS_fsync, fd));
}
int fdatasync(int fd) {
  if (is_out(fd) && other(OX)) return -1;
  return fin(R(SYS_fdatasync, fd));
}
int ftruncate64(int fd, off_t n) {
  if (is_out(fd) && other(OX)) return -1;
  return fin(R(SYS_ftruncate, fd, n));
}
int ftruncate(int fd, off_t n) { return ftruncate64(fd, n); }
int rename(const char *a, const char *b) {
  if (on && inside(b) && other(OX)) return -1;
  return fin(R(SYS_rename, a, b));
}
int renameat(int x, const char *a, int y, const char *b) {
  if (on && inside(b) && other(OX)) return -1;
  return fin(R(SYS_renameat, x, a, y, b));
}
int renameat2(int x, const char *a, int y, const char *b, unsigned f) {
  if (on && inside(b) && other(OX)) return -1;
  return fin(R(SYS_renameat2, x, a, y, b, f));
}
int unlink(const char *a) {
  if (on && inside(a) && other(OX)) return -1;
  return fin(R(SYS_unlink, a));
}
int statx(int at, const char *restrict p, int fl, unsigned m, struct statx *restrict s) {
  const char *volatile q = p; /* std probes with null pointers */
  if (on && q && ((!*q && is_in(at)) || !strcmp(q, in)) && other(SI)) return -1;
  return fin(R(SYS_statx, at, q, fl, m, s));
}
off_t lseek64(int fd, off_t o, int w) {
  if (is_in(fd) && other(SI)) return -1;
  return fin(R(SYS_lseek, fd, o, w));
}
off_t lseek(int fd, off_t o, int w) { return lseek64(fd, o, w); }

/* clock */
int clock_gettime(clockid_t id, struct timespec *t) {
  if (!on) return fin(R(SYS_clock_gettime, id, t));
  struct fault *f = due(C);
  if (f && f->act == KILL) die(C);
  if (f && f->act == JUMP) {
    clk += (uint64_t)f->arg;
    note("jump", count[C] - 1, f->arg, "jump");
  }
  t->tv_sec = clk / 1000000000ull;
  t->tv_nsec = clk % 1000000000ull;
  note("clock", id, (long)clk, 0);
  return 0;
}

/* randomness */
ssize_t getrandom(void *b, size_t n, unsigned fl) {
  if (!on) return fin(R(SYS_getrandom, b, n, fl));
  if (!n) return 0;
  struct fault *f = due(G);
  if (f && f->act == KILL) die(G);
  if (f && f->act == ERR) {
    note("g", count[G] - 1, -f->arg, "err");
    errno = f->arg;
    return -1;
  }
  if (f && f->act == SHORT && n > (size_t)f->arg && f->arg > 0) {
    note("g", count[G] - 1, f->arg, "short");
    n = f->arg;
  }
  unsigned char *p = b;
  for (size_t k = 0; k < n; k++) p[k] = (unsigned char)mixed(&key);
  return n;
}
long syscall(long n, ...) {
  va_list ap;
  va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (on && n == SYS_getrandom) return getrandom((void *)a, b, c);
  if (on && n == SYS_clock_gettime) return clock_gettime(a, (struct timespec *)b);
  return fin(raw(n, a, b, c, d, e, f));
}

/* memory: the simulated work done, and allocations that fail */
static int refused(void) {
  if (!on) return 0;
  if (++ticks > maxticks) {
    note("ticks", (long)ticks, 0, 0);
    R(SYS_exit_group, 98);
  }
  if (!opened) return 0;
  long n = count[M]++;
  for (int k = 0; k < nplan; k++)
    if (plan[k].cls == M && plan[k].idx == n) {
      note("m", n, 0, "err");
      return 1;
    }
  return 0;
}
void *malloc(size_t n) { return refused() ? 0 : __libc_malloc(n); }
void *calloc(size_t a, size_t b) { return refused() ? 0 : __libc_calloc(a, b); }
void *realloc(void *p, size_t n) { return refused() ? 0 : __libc_realloc(p, n); }
int posix_memalign(void **r, size_t a, size_t n) {
  if (refused()) return ENOMEM;
  void *p = __libc_memalign(a, n);
  if (!p) return ENOMEM;
  *r = p;
  return 0;
}
void *aligned_alloc(size_t a, size_t n) { return refused() ? 0 : __libc_memalign(a, n); }

__attribute__((destructor)) static void end(void) {
  if (on) note("end", (long)ticks, (long)clk, 0);
}
