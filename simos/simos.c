/* simos: the operating system seen by a simulated process (preloaded). */
#define _GNU_SOURCE
#include "simos.h"
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>
#include <limits.h>

static struct sim *S;
static int8_t file_of[256]; /* fd -> file index + 1 */

static long raw6(long n, long a, long b, long c, long d, long e, long f) {
  long r;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return r;
}
#define raw3(n, a, b, c) raw6(n, (long)(a), (long)(b), (long)(c), 0, 0, 0)
static long ret(long r) {
  if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
  return r;
}

static void die(void) { raw3(SYS_kill, raw3(SYS_getpid, 0, 0, 0), SIGKILL, 0); for (;;) raw3(SYS_exit_group, 137, 0, 0); }
static void trace(int what, int stream, int err, uint32_t req, int64_t res) {
  /* The last entries are kept for faults. */
  int fault = (err && err != EINTR) || what == 'K' || (what == 'w' && !res && req);
  if (S->n_trace < MAX_TRACE - (fault ? 0 : 256)) {
    struct trace *t = &S->tr[S->n_trace++];
    t->what = what; t->stream = stream; t->err = err; t->req = req; t->res = res;
  } else S->trace_lost++;
}
static void tick(void) {
  S->calls++;
  if (S->crash_call && S->calls == S->crash_call) { S->crashed = 1; trace('K', 0, 0, 0, 0); die(); }
  if (S->call_budget && S->calls > S->call_budget) { S->over_budget = 2; die(); }
}

__attribute__((constructor)) static void init(void) {
  const char *e = getenv("SIMOS_FD");
  if (!e) return;
  int fd = 0;
  for (; *e >= '0' && *e <= '9'; e++) fd = fd * 10 + (*e - '0');
  void *p = (void *)raw6(SYS_mmap, 0, sizeof(struct sim), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  if ((long)p < 0 && (long)p > -4096) return;
  if (((struct sim *)p)->magic != SIM_MAGIC) return;
  raw3(SYS_close, fd, 0, 0);
  unsetenv("SIMOS_FD");
  unsetenv("LD_PRELOAD");
  struct rlimit rl;
  uint64_t cpu = ((struct sim *)p)->cpu_seconds;
  if (cpu) { rl.rlim_cur = rl.rlim_max = cpu; setrlimit(RLIMIT_CPU, &rl); }
  rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
  if (((struct sim *)p)->heap_shift) { volatile char *q = malloc(((struct sim *)p)->heap_shift); if (q) q[0] = 1; }
  S = p;
  S->started = 1;
}
__attribute__((destructor)) static void fini(void) { if (S) S->finished = 1; }

/* ---- streams ---- */

/* Decides one transfer. Returns the number of bytes allowed, or -errno; *crash is set to die after. */
static long decide(struct stream *s, struct op *ops, size_t want, int *crash) {
  *crash = 0;
  s->calls++;
  size_t max = want;
  if (s->pos < s->n_ops) {
    struct op o = ops[s->pos++];
    switch (o.kind) {
    case OP_ERR: s->faults++; return -(long)o.arg;
    case OP_ZERO: s->faults++; return 0;
    case OP_CRASH: s->faults++; S->crashed = 1; trace('K', 0, 0, 0, 0); die();
    case OP_CRASH_AFTER: s->faults++; *crash = 1; __attribute__((fallthrough));
    default:
      if (o.arg && o.arg < max) { max = o.arg; s->faults++; }
    }
  } else if (s->chunk && s->chunk < max) { max = s->chunk; s->faults++; }
  if (s->fail_errno && want > 0) {
    if (s->moved >= s->fail_at) { s->faults++; return -(long)s->fail_errno; }
    if (s->moved + max > s->fail_at) max = s->fail_at - s->moved;
  }
  return (long)max;
}

static ssize_t do_stdin(const struct iovec *v, int n) {
  tick();
  size_t want = 0;
  for (int i = 0; i < n; i++) want += v[i].iov_len;
  int crash;
  long r = decide(&S->s_in, S->o_in, want, &crash);
  if (r > 0) {
    size_t left = S->stdin_len - S->s_in.moved;
    if ((size_t)r > left) r = (long)left;
    size_t done = 0;
    for (int i = 0; i < n && done < (size_t)r; i++) {
      size_t k = v[i].iov_len < r - done ? v[i].iov_len : r - done;
      memcpy(v[i].iov_base, S->stdin_data + S->s_in.moved, k);
      S->s_in.moved += k; done += k;
    }
  }
  trace('r', 0, r < 0 ? -r : 0, want, r);
  if (crash) { S->crashed = 1; trace('K', 0, 0, 0, 0); die(); }
  return ret(r);
}

static ssize_t do_out(int fd, const struct iovec *v, int n) {
  tick();
  struct stream *s = fd == 1 ? &S->s_out : &S->s_err;
  size_t want = 0;
  for (int i = 0; i < n; i++) want += v[i].iov_len;
  int crash;
  long r = decide(s, fd == 1 ? S->o_out : S->o_err, want, &crash);
  if (r > 0) {
    uint8_t *buf = fd == 1 ? S->stdout_data : S->stderr_data;
    uint64_t *len = fd == 1 ? &S->stdout_len : &S->stderr_len;
    uint64_t cap = fd == 1 ? STDOUT_CAP : STDERR_CAP;
    size_t done = 0;
    for (int i = 0; i < n && done < (size_t)r; i++) {
      size_t k = v[i].iov_len < r - done ? v[i].iov_len : r - done;
      if (*len + k > cap) { S->over_budget = 4; die(); }
      memcpy(buf + *len, v[i].iov_base, k);
      *len += k; s->moved += k; done += k;
    }
  }
  trace('w', fd, r < 0 ? -r : 0, want, r);
  if (crash) { S->crashed = 1; trace('K', 0, 0, 0, 0); die(); }
  return ret(r);
}

static ssize_t do_file(int idx, int fd, const struct iovec *v, int n) {
  tick();
  struct stream *s = &S->s_file[idx];
  size_t want = 0;
  for (int i = 0; i < n; i++) want += v[i].iov_len;
  int crash;
  long r = decide(s, S->o_file[idx], want, &crash);
  if (r > 0) {
    size_t max = (size_t)r;
    size_t done = 0;
    for (int i = 0; i < n && done < max; i++) {
      size_t k = v[i].iov_len < max - done ? v[i].iov_len : max - done;
      if (!k) continue;
      long q = raw3(SYS_read, fd, v[i].iov_base, k);
      if (q < 0) { if (!done) { done = 0; r = q; goto out; } break; }
      done += q; s->moved += q;
      if ((size_t)q < k) break;
    }
    r = (long)done;
  }
out:
  trace('f', 16 + idx, r < 0 ? -r : 0, want, r);
  if (crash) { S->crashed = 1; trace('K', 0, 0, 0, 0); die(); }
  return ret(r);
}

ssize_t readv(int fd, const struct iovec *v, int n) {
  if (S) {
    if (fd == 0) return do_stdin(v, n);
    if (fd > 0 && fd < 256 && file_of[fd]) return do_file(file_of[fd] - 1, fd, v, n);
  }
  return ret(raw3(SYS_readv, fd, v, n));
}
ssize_t read(int fd, void *b, size_t n) {
  if (S) {
    struct iovec v = {b, n};
    if (fd == 0) return do_stdin(&v, 1);
    if (fd > 0 && fd < 256 && file_of[fd]) return do_file(file_of[fd] - 1, fd, &v, 1);
  }
  return ret(raw3(SYS_read, fd, b, n));
}
ssize_t __read_chk(int fd, void *b, size_t n, size_t m) { (void)m; return read(fd, b, n); }
ssize_t pread64(int fd, void *b, size_t n, off64_t o) {
  return ret(raw6(SYS_pread64, fd, (long)b, n, o, 0, 0));
}
ssize_t writev(int fd, const struct iovec *v, int n) {
  if (S && (fd == 1 || fd == 2)) return do_out(fd, v, n);
  return ret(raw3(SYS_writev, fd, v, n));
}
ssize_t write(int fd, const void *b, size_t n) {
  if (S && (fd == 1 || fd == 2)) { struct iovec v = {(void *)b, n}; return do_out(fd, &v, 1); }
  return ret(raw3(SYS_write, fd, b, n));
}

/* ---- files ---- */

static void mutation(const char *what, const char *path) {
  S->other_mutations++;
  if (!S->mutated[0]) {
    size_t i = 0;
    while (*what && i < 40) S->mutated[i++] = *what++;
    S->mutated[i++] = ' ';
    while (path && *path && i < 250) S->mutated[i++] = *path++;
    S->mutated[i] = 0;
  }
}

static int do_open(int dir, const char *path, int flags, mode_t mode) {
  if (!S) return (int)ret(raw6(SYS_openat, dir, (long)path, flags, mode, 0, 0));
  if ((flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC))) {
    if (strncmp(path, "/dev/null", 10) && strncmp(path, "/dev/tty", 8) && strncmp(path, "/proc/self/", 11)) {
      S->write_opens++; mutation("open-for-writing", path);
      trace('M', 0, EROFS, 0, -1);
      errno = EROFS; return -1;
    }
  }
  size_t pl = strlen(S->prefix);
  if (pl && !strncmp(path, S->prefix, pl)) {
    tick();
    int idx = S->n_files < MAX_FILES ? (int)S->n_files : MAX_FILES - 1;
    S->n_files++;
    struct stream *s = &S->s_file[idx];
    s->opened = 1;
    if (s->open_errno) {
      s->faults++;
      trace('o', 16 + idx, s->open_errno, 0, -1);
      errno = s->open_errno; return -1;
    }
    long fd = raw6(SYS_openat, dir, (long)path, flags, mode, 0, 0);
    trace('o', 16 + idx, fd < 0 ? -fd : 0, 0, fd < 0 ? -1 : 0);
    if (fd >= 0 && fd < 256) file_of[fd] = idx + 1;
    return (int)ret(fd);
  }
  return (int)ret(raw6(SYS_openat, dir, (long)path, flags, mode, 0, 0));
}
#define MODE(flags) mode_t mode = 0; if ((flags) & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); }
int open(const char *p, int flags, ...) { MODE(flags) return do_open(AT_FDCWD, p, flags, mode); }
int open64(const char *p, int flags, ...) { MODE(flags) return do_open(AT_FDCWD, p, flags, mode); }
int openat(int d, const char *p, int flags, ...) { MODE(flags) return do_open(d, p, flags, mode); }
int openat64(int d, const char *p, int flags, ...) { MODE(flags) return do_open(d, p, flags, mode); }
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int close(int fd) {
  if (fd >= 0 && fd < 256) file_of[fd] = 0;
  return (int)ret(raw3(SYS_close, fd, 0, 0));
}
/* Nothing a simulated process does may change the real file system. */
#define REFUSE(name, path) do { if (S) { mutation(name, path); errno = EROFS; return -1; } } while (0)
int unlink(const char *p) { REFUSE("unlink", p); return (int)ret(raw3(SYS_unlink, p, 0, 0)); }
int unlinkat(int d, const char *p, int f) { REFUSE("unlink", p); return (int)ret(raw3(SYS_unlinkat, d, p, f)); }
int rename(const char *a, const char *b) { REFUSE("rename", a); return (int)ret(raw3(SYS_rename, a, b, 0)); }
int renameat(int x, const char *a, int y, const char *b) { REFUSE("rename", a); return (int)ret(raw6(SYS_renameat, x, (long)a, y, (long)b, 0, 0)); }
int mkdir(const char *p, mode_t m) { REFUSE("mkdir", p); return (int)ret(raw3(SYS_mkdir, p, m, 0)); }
int rmdir(const char *p) { REFUSE("rmdir", p); return (int)ret(raw3(SYS_rmdir, p, 0, 0)); }
int truncate64(const char *p, off64_t o) { REFUSE("truncate", p); return (int)ret(raw3(SYS_truncate, p, o, 0)); }
int chmod(const char *p, mode_t m) { REFUSE("chmod", p); return (int)ret(raw3(SYS_chmod, p, m, 0)); }

/* ---- randomness, clock, identity ---- */

static uint64_t rng;
static uint64_t splitmix(void) {
  uint64_t z = (rng += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
static ssize_t fill(void *b, size_t n) {
  if (!S->rand_calls) rng = S->rand_seed;
  S->rand_calls++;
  uint8_t *p = b;
  for (size_t i = 0; i < n; i++) p[i] = (uint8_t)splitmix();
  return (ssize_t)n;
}
ssize_t getrandom(void *b, size_t n, unsigned f) {
  if (S) return fill(b, n);
  return ret(raw3(SYS_getrandom, b, n, f));
}
int getentropy(void *b, size_t n) {
  if (S) { fill(b, n); return 0; }
  return (int)(ret(raw3(SYS_getrandom, b, n, 0)) < 0 ? -1 : 0);
}
int clock_gettime(clockid_t c, struct timespec *t) {
  if (S) {
    S->clock_calls++;
    S->clock_ns += S->clock_step;
    t->tv_sec = S->clock_ns / 1000000000ull; t->tv_nsec = S->clock_ns % 1000000000ull;
    return 0;
  }
  return (int)ret(raw3(SYS_clock_gettime, c, t, 0));
}
time_t time(time_t *t) { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); if (t) *t = ts.tv_sec; return ts.tv_sec; }
int gettimeofday(struct timeval *tv, void *z) { (void)z; struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; }
/* Sleeping only moves the simulated clock. */
static void slept(const struct timespec *t) { S->clock_ns += (uint64_t)t->tv_sec * 1000000000ull + (uint64_t)t->tv_nsec; tick(); }
int nanosleep(const struct timespec *t, struct timespec *r) { if (S) { slept(t); return 0; } return (int)ret(raw3(SYS_nanosleep, t, r, 0)); }
int clock_nanosleep(clockid_t c, int f, const struct timespec *t, struct timespec *r) { if (S) { slept(t); return 0; } return (int)-raw6(SYS_clock_nanosleep, c, f, (long)t, (long)r, 0, 0); }
pid_t getpid(void) { return S ? (pid_t)S->pid : (pid_t)raw3(SYS_getpid, 0, 0, 0); }
pid_t gettid(void) { return S ? (pid_t)S->pid : (pid_t)raw3(SYS_gettid, 0, 0, 0); }
long syscall(long n, ...) {
  va_list ap; va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (S) {
    if (n == SYS_getrandom) return fill((void *)a, b);
    if (n == SYS_gettid || n == SYS_getpid) return (long)S->pid;
    if (n == SYS_read) return read((int)a, (void *)b, c);
    if (n == SYS_write) return write((int)a, (void *)b, c);
  }
  return ret(raw6(n, a, b, c, d, e, f));
}

/* ---- allocator ---- */

extern void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void *, size_t), *__libc_memalign(size_t, size_t);
static int alloc_fails(size_t n) {
  if (!S) return 0;
  S->allocs++; S->alloc_bytes += n;
  if (S->alloc_budget && S->allocs > S->alloc_budget) { S->over_budget = 1; die(); }
  if (S->bytes_budget && S->alloc_bytes > S->bytes_budget) { S->over_budget = 3; die(); }
  if (S->alloc_fail_at && n >= S->alloc_fail_size && S->alloc_failed == 0) {
    if (--S->alloc_fail_at == 0) { S->alloc_failed = 1; return 1; }
  }
  return 0;
}
void *malloc(size_t n) { if (alloc_fails(n)) { errno = ENOMEM; return 0; } return __libc_malloc(n); }
void *calloc(size_t n, size_t m) { if (alloc_fails(n * m)) { errno = ENOMEM; return 0; } return __libc_calloc(n, m); }
void *realloc(void *p, size_t n) { if (alloc_fails(n)) { errno = ENOMEM; return 0; } return __libc_realloc(p, n); }
int posix_memalign(void **p, size_t a, size_t n) { if (alloc_fails(n)) return ENOMEM; void *q = __libc_memalign(a, n); if (!q) return ENOMEM; *p = q; return 0; }
void *aligned_alloc(size_t a, size_t n) { if (alloc_fails(n)) { errno = ENOMEM; return 0; } return __libc_memalign(a, n); }
