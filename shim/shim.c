/* LD_PRELOAD seam: every source of nondeterminism and every fault point of the compiler process
 * (randomness, clocks, files, pipes, child processes, threads, allocation) goes through here.
 *
 * SIM_MODE=local : only randomness and the clocks are simulated (seed in SIM_SEED).
 * SIM_MODE=rpc   : every operation parks the calling thread until the simulator, connected on the
 *                  unix socket SIM_SOCK, decides when it runs and what happens to it.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <pthread.h>
#include <signal.h>
#include <spawn.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/un.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include "proto.h"

extern void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void *, size_t),
    *__libc_memalign(size_t, size_t);

static int mode; /* 0 = off, 1 = local, 2 = rpc */
static int ready;
static uint64_t rnd_state = 1;
static int64_t clock_ns = 1700000000LL * 1000000000LL;
static volatile int64_t alloc_count, alloc_fail_at; /* fail allocation number alloc_fail_at */
static char sim_root[256], sim_sock[108], sim_confstr[232];
static size_t sim_root_len;
static __thread int conn = -1;
static __thread int off; /* interception disabled on this thread */
static __thread int64_t prev_ret;
static __thread int32_t prev_err;
static unsigned char fdcls[1024];

static long raw6(long n, long a, long b, long c, long d, long e, long f) {
  register long r10 __asm__("r10") = d, r8 __asm__("r8") = e, r9 __asm__("r9") = f;
  long r;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  if (r < 0 && r > -4096) { errno = -r; return -1; }
  return r;
}
static long raw(long n, long a, long b, long c) { return raw6(n, a, b, c, 0, 0, 0); }
static long futex_wait(long n, long *a);

#define REAL(ret, name, ...)                                   \
  static ret (*real_##name)(__VA_ARGS__);                      \
  static void load_##name(void) {                              \
    if (!real_##name) real_##name = dlsym(RTLD_NEXT, #name);   \
  }
REAL(int, posix_spawn, pid_t *, const char *, const posix_spawn_file_actions_t *, const posix_spawnattr_t *, char *const[], char *const[])
REAL(int, posix_spawnp, pid_t *, const char *, const posix_spawn_file_actions_t *, const posix_spawnattr_t *, char *const[], char *const[])
REAL(int, pidfd_spawnp, int *, const char *, const posix_spawn_file_actions_t *, const posix_spawnattr_t *, char *const[], char *const[])
REAL(int, pthread_create, pthread_t *, const pthread_attr_t *, void *(*)(void *), void *)
REAL(int, pthread_join, pthread_t, void **)

static void die(const char *m) {
  raw(SYS_write, 2, (long)m, strlen(m));
  raw(SYS_exit_group, 97, 0, 0);
}

static void xsend(const void *p, size_t n) {
  while (n) {
    long r = raw(SYS_write, conn, (long)p, n);
    if (r < 0 && errno == EINTR) continue;
    if (r <= 0) raw(SYS_exit_group, 98, 0, 0);
    p = (const char *)p + r; n -= r;
  }
}
static void xrecv(void *p, size_t n) {
  while (n) {
    long r = raw(SYS_read, conn, (long)p, n);
    if (r < 0 && errno == EINTR) continue;
    if (r <= 0) raw(SYS_exit_group, 98, 0, 0);
    p = (char *)p + r; n -= r;
  }
}

static void fill(struct sim_req *q, uint32_t op, uint32_t cls, int64_t arg, const char *path) {
  memset(q, 0, sizeof *q);
  q->op = op; q->cls = cls; q->arg = arg;
  q->pid = raw(SYS_getpid, 0, 0, 0); q->tid = raw(SYS_gettid, 0, 0, 0);
  q->prev_ret = prev_ret; q->prev_err = prev_err;
  if (path) { strncpy(q->path, path, sizeof q->path - 1); }
}

static void do_act(struct sim_rep *r) {
  if (r->act == ACT_KILL) {
    raw(SYS_kill, raw(SYS_getpid, 0, 0, 0), SIGKILL, 0);
    for (;;) pause();
  }
  if (r->act == ACT_EXIT) raw(SYS_exit_group, r->n, 0, 0);
}

extern char *program_invocation_short_name;
static void hello(void) {
  struct sockaddr_un a;
  memset(&a, 0, sizeof a);
  a.sun_family = AF_UNIX;
  strncpy(a.sun_path, sim_sock, sizeof a.sun_path - 1);
  int s = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
  if (s < 0 || connect(s, (struct sockaddr *)&a, sizeof a) < 0) die("sim: cannot reach the simulator\n");
  int hi = fcntl(s, F_DUPFD_CLOEXEC, 900);
  raw(SYS_close, s, 0, 0);
  conn = hi;
  struct sim_req q;
  char who[216];
  const char *role = getenv("SIM_ROLE");
  snprintf(who, sizeof who, "%s|%s", role ? role : "?", program_invocation_short_name);
  fill(&q, OP_HELLO, 0, 0, who);
  xsend(&q, sizeof q);
  struct sim_hello_rep h;
  xrecv(&h, sizeof h);
  if (!ready) {
    rnd_state = h.seed; alloc_fail_at = h.alloc_fail; clock_ns = h.clock;
    memcpy(sim_confstr, h.conf, sizeof sim_confstr);
  }
}

/* one request/reply; returns the reply */
static struct sim_rep rpc(uint32_t op, uint32_t cls, int64_t arg, const char *path) {
  struct sim_req q;
  struct sim_rep r;
  int e = errno;
  if (conn < 0) hello();
  fill(&q, op, cls, arg, path);
  xsend(&q, sizeof q);
  xrecv(&r, sizeof r);
  do_act(&r);
  errno = e;
  return r;
}
static int live(void) { return mode == 2 && ready && !off; }
static long done(long ret) {
  prev_ret = ret; prev_err = ret < 0 ? errno : 0;
  return ret;
}

static void child_after_fork(void) { conn = -1; }

static void __attribute__((constructor)) init(void) {
  const char *m = getenv("SIM_MODE");
  if (!m) return;
  const char *s = getenv("SIM_SEED");
  if (s) rnd_state = strtoull(s, 0, 16);
  if (!strcmp(m, "local")) { mode = 1; ready = 1; return; }
  if (strcmp(m, "rpc")) return;
  mode = 2;
  const char *root = getenv("SIM_ROOT"), *sock = getenv("SIM_SOCK");
  if (!root || !sock) die("sim: SIM_ROOT/SIM_SOCK missing\n");
  strncpy(sim_root, root, sizeof sim_root - 1);
  sim_root_len = strlen(sim_root);
  strncpy(sim_sock, sock, sizeof sim_sock - 1);
  for (int i = 0; i < 3; i++) fdcls[i] = CLS_STDIO;
  for (int i = 0; i < 3; i++) { struct stat st; if (!fstat(i, &st) && S_ISFIFO(st.st_mode)) fdcls[i] = CLS_PIPE; }
  pthread_atfork(0, 0, child_after_fork);
  hello();
  alloc_count = 0;
  ready = 1;
}
static void __attribute__((destructor)) fini(void) {
  if (live() && conn >= 0) rpc(OP_BYE, 0, alloc_count, 0);
}

/* simcpp's interface */
void sim_passthrough(int on) { off = on; }
const char *sim_conf(void) { return sim_confstr; }

/* ---------- randomness and clocks ---------- */
static uint64_t next_rnd(void) {
  uint64_t z = __atomic_add_fetch(&rnd_state, 0x9e3779b97f4a7c15ull, __ATOMIC_SEQ_CST);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
ssize_t getrandom(void *buf, size_t n, unsigned fl) {
  if (!mode) return raw(SYS_getrandom, (long)buf, n, fl);
  unsigned char *p = buf;
  for (size_t i = 0; i < n; i += 8) {
    uint64_t v = next_rnd();
    memcpy(p + i, &v, n - i < 8 ? n - i : 8);
  }
  return n;
}
int getentropy(void *buf, size_t n) { getrandom(buf, n, 0); return 0; }
static int64_t tick(void) { return __atomic_add_fetch(&clock_ns, 1000, __ATOMIC_SEQ_CST); }
int clock_gettime(clockid_t c, struct timespec *ts) {
  if (!mode) return raw(SYS_clock_gettime, c, (long)ts, 0);
  int64_t t = tick();
  ts->tv_sec = t / 1000000000; ts->tv_nsec = t % 1000000000;
  return 0;
}
int gettimeofday(struct timeval *tv, void *tz) {
  (void)tz;
  if (!mode) return raw(SYS_gettimeofday, (long)tv, 0, 0);
  int64_t t = tick();
  tv->tv_sec = t / 1000000000; tv->tv_usec = t % 1000000000 / 1000;
  return 0;
}
time_t time(time_t *o) {
  if (!mode) { struct timespec ts; raw(SYS_clock_gettime, 0, (long)&ts, 0); if (o) *o = ts.tv_sec; return ts.tv_sec; }
  time_t t = tick() / 1000000000;
  if (o) *o = t;
  return t;
}
int nanosleep(const struct timespec *r, struct timespec *m) {
  if (!mode) return raw(SYS_nanosleep, (long)r, (long)m, 0);
  __atomic_add_fetch(&clock_ns, r->tv_sec * 1000000000LL + r->tv_nsec, __ATOMIC_SEQ_CST);
  if (live()) { rpc(OP_SLEEP, 0, r->tv_sec, 0); done(0); }
  return 0;
}
int clock_nanosleep(clockid_t c, int f, const struct timespec *r, struct timespec *m) {
  if (!mode || f) return raw6(SYS_clock_nanosleep, c, f, (long)r, (long)m, 0, 0) < 0 ? errno : 0;
  return nanosleep(r, m);
}

/* ---------- allocation ---------- */
static int alloc_fails(void) {
  if (mode != 2 || !ready || off) return 0;
  int64_t n = __atomic_add_fetch(&alloc_count, 1, __ATOMIC_SEQ_CST);
  return alloc_fail_at && n == alloc_fail_at;
}
void *malloc(size_t n) { if (alloc_fails()) { errno = ENOMEM; return 0; } return __libc_malloc(n); }
void *calloc(size_t a, size_t b) { if (alloc_fails()) { errno = ENOMEM; return 0; } return __libc_calloc(a, b); }
void *realloc(void *p, size_t n) { if (alloc_fails()) { errno = ENOMEM; return 0; } return __libc_realloc(p, n); }
int posix_memalign(void **o, size_t al, size_t n) {
  if (alloc_fails()) return ENOMEM;
  void *p = __libc_memalign(al, n);
  if (!p) return ENOMEM;
  *o = p;
  return 0;
}
void *aligned_alloc(size_t al, size_t n) { if (alloc_fails()) { errno = ENOMEM; return 0; } return __libc_memalign(al, n); }

/* ---------- files ---------- */
static int interesting(const char *p, int fl) {
  if (p[0] != '/') return 1;
  if (sim_root_len && !strncmp(p, sim_root, sim_root_len)) return 1;
  if (!strncmp(p, "/dev/", 5) || !strncmp(p, "/proc/", 6)) return 0;
  return (fl & (O_WRONLY | O_RDWR | O_CREAT)) != 0 || !strncmp(p, "/tmp/", 5);
}
static int cls_of(int fd) { return fd >= 0 && fd < 1024 ? fdcls[fd] : 0; }
static void set_cls(int fd, int c) { if (fd >= 0 && fd < 1024) fdcls[fd] = c; }

static int open_common(int dir, const char *p, int fl, mode_t md) {
  int lv = live() && interesting(p, fl);
  int c = (fl & (O_WRONLY | O_RDWR | O_CREAT)) ? CLS_OUT : CLS_SRC;
  if (lv) {
    struct sim_rep r = rpc(OP_OPEN, c, fl, p);
    if (r.act == ACT_ERR) { errno = r.err; return done(-1); }
  }
  int fd = raw6(SYS_openat, dir, (long)p, fl, md, 0, 0);
  if (lv) { if (fd >= 0) set_cls(fd, c); done(fd < 0 ? -1 : 0); }
  return fd;
}
#define MODE_ARG mode_t md = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); md = va_arg(ap, int); va_end(ap); }
int open(const char *p, int fl, ...) { MODE_ARG return open_common(AT_FDCWD, p, fl, md); }
int open64(const char *p, int fl, ...) { MODE_ARG return open_common(AT_FDCWD, p, fl, md); }
int openat(int d, const char *p, int fl, ...) { MODE_ARG return open_common(d, p, fl, md); }
int openat64(int d, const char *p, int fl, ...) { MODE_ARG return open_common(d, p, fl, md); }
int creat(const char *p, mode_t md) { return open_common(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, md); }
int creat64(const char *p, mode_t md) { return open_common(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, md); }

int close(int fd) {
  int c = cls_of(fd);
  set_cls(fd, 0);
  if (conn >= 0 && fd == conn) { errno = EBADF; return -1; }
  if (c && live()) rpc(OP_CLOSE, c, 0, 0); /* never failed; a scheduling point */
  int r = raw(SYS_close, fd, 0, 0);
  if (c && live()) done(r);
  return r;
}

static int blocking(int fd) { return !(fcntl(fd, F_GETFL) & O_NONBLOCK); }
static int ready_now(int fd, short ev) {
  struct pollfd p = {fd, ev, 0};
  return raw(SYS_poll, (long)&p, 1, 0) != 0;
}

static ssize_t read_common(int fd, void *b, size_t n, off_t o, int pos) {
  int c = cls_of(fd);
  if (!c || !live()) return pos ? raw6(SYS_pread64, fd, (long)b, n, o, 0, 0) : raw(SYS_read, fd, (long)b, n);
  struct sim_rep r = rpc(OP_READ, c, n, 0);
  if (r.act == ACT_ERR) { errno = r.err; return done(-1); }
  if (r.act == ACT_SHORT && r.n > 0 && (size_t)r.n < n) n = r.n;
  if (c == CLS_PIPE && blocking(fd))
    while (!ready_now(fd, POLLIN)) {
      r = rpc(OP_READ | REQ_BLOCKED, c, n, 0);
      if (r.act == ACT_ERR) { errno = r.err; return done(-1); }
    }
  return done(pos ? raw6(SYS_pread64, fd, (long)b, n, o, 0, 0) : raw(SYS_read, fd, (long)b, n));
}
ssize_t read(int fd, void *b, size_t n) { return read_common(fd, b, n, 0, 0); }
ssize_t pread64(int fd, void *b, size_t n, off_t o) { return read_common(fd, b, n, o, 1); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { return read_common(fd, b, n, o, 1); }

static ssize_t write_common(int fd, const void *b, size_t n, off_t o, int pos) {
  int c = cls_of(fd);
  if (!c || !live()) return pos ? raw6(SYS_pwrite64, fd, (long)b, n, o, 0, 0) : raw(SYS_write, fd, (long)b, n);
  struct sim_rep r = rpc(OP_WRITE, c, n, 0);
  if (r.act == ACT_ERR) { errno = r.err; return done(-1); }
  if (r.act == ACT_ZERO) return done(0);
  if (r.act == ACT_SHORT && r.n > 0 && (size_t)r.n < n) n = r.n;
  if (c == CLS_PIPE && blocking(fd)) {
    /* a blocking pipe write, in steps that never block for real */
    size_t w = 0;
    int fl = fcntl(fd, F_GETFL);
    while (w < n) {
      fcntl(fd, F_SETFL, fl | O_NONBLOCK);
      long k = raw(SYS_write, fd, (long)b + w, n - w);
      int e = errno;
      fcntl(fd, F_SETFL, fl);
      errno = e;
      if (k > 0) { w += k; continue; }
      if (k < 0 && errno == EAGAIN) {
        struct sim_rep r2 = rpc(OP_WRITE | REQ_BLOCKED, c, n - w, 0);
        if (r2.act == ACT_ERR) { if (w) break; errno = r2.err; return done(-1); }
        continue;
      }
      if (w) break;
      return done(k);
    }
    return done(w);
  }
  long k = pos ? raw6(SYS_pwrite64, fd, (long)b, n, o, 0, 0) : raw(SYS_write, fd, (long)b, n);
  if (r.act == ACT_SHORT && r.err && k >= 0) { /* torn write followed by a crash */
    raw(SYS_kill, raw(SYS_getpid, 0, 0, 0), SIGKILL, 0);
    for (;;) pause();
  }
  return done(k);
}
ssize_t write(int fd, const void *b, size_t n) { return write_common(fd, b, n, 0, 0); }
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) { return write_common(fd, b, n, o, 1); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return write_common(fd, b, n, o, 1); }
ssize_t writev(int fd, const struct iovec *v, int k) {
  if (!cls_of(fd) || !live()) return raw(SYS_writev, fd, (long)v, k);
  for (int i = 0; i < k; i++) /* the first non-empty buffer: a short write, which writev allows */
    if (v[i].iov_len) return write_common(fd, v[i].iov_base, v[i].iov_len, 0, 0);
  return 0;
}
ssize_t readv(int fd, const struct iovec *v, int k) {
  if (!cls_of(fd) || !live()) return raw(SYS_readv, fd, (long)v, k);
  for (int i = 0; i < k; i++)
    if (v[i].iov_len) return read_common(fd, v[i].iov_base, v[i].iov_len, 0, 0);
  return 0;
}
/* not available: callers fall back to read and write */
ssize_t copy_file_range(int a, off_t *x, int b, off_t *y, size_t n, unsigned f) {
  if (!live()) return raw6(SYS_copy_file_range, a, (long)x, b, (long)y, n, f);
  errno = ENOSYS; return -1;
}
ssize_t sendfile64(int a, int b, off_t *o, size_t n) {
  if (!live()) return raw6(SYS_sendfile, a, b, (long)o, n, 0, 0);
  errno = EINVAL; return -1;
}

#define SIMPLE(op, path, call)                                             \
  int lv = live();                                                        \
  if (lv) { struct sim_rep r = rpc(op, CLS_OUT, 0, path);                  \
    if (r.act == ACT_ERR) { errno = r.err; return done(-1); } }            \
  int k = (call);                                                         \
  if (lv) done(k);                                                        \
  return k;
int rename(const char *a, const char *b) { SIMPLE(OP_RENAME, b, raw6(SYS_renameat2, AT_FDCWD, (long)a, AT_FDCWD, (long)b, 0, 0)) }
int renameat(int da, const char *a, int db, const char *b) { SIMPLE(OP_RENAME, b, raw6(SYS_renameat2, da, (long)a, db, (long)b, 0, 0)) }
int link(const char *a, const char *b) { SIMPLE(OP_LINK, b, raw(SYS_link, (long)a, (long)b, 0)) }
int unlink(const char *a) { SIMPLE(OP_UNLINK, a, raw(SYS_unlink, (long)a, 0, 0)) }
int unlinkat(int d, const char *a, int f) { SIMPLE(OP_UNLINK, a, raw(SYS_unlinkat, d, (long)a, f)) }
int mkdir(const char *a, mode_t m) { SIMPLE(OP_MKDIR, a, raw(SYS_mkdir, (long)a, m, 0)) }
int ftruncate(int fd, off_t n) { SIMPLE(OP_TRUNC, 0, raw(SYS_ftruncate, fd, n, 0)) }
int ftruncate64(int fd, off_t n) { SIMPLE(OP_TRUNC, 0, raw(SYS_ftruncate, fd, n, 0)) }
int fsync(int fd) { SIMPLE(OP_SYNC, 0, raw(SYS_fsync, fd, 0, 0)) }
int fdatasync(int fd) { SIMPLE(OP_SYNC, 0, raw(SYS_fdatasync, fd, 0, 0)) }

/* ---------- pipes, polling, children ---------- */
int pipe2(int p[2], int fl) {
  int lv = live();
  long r_cap = 0; /* a pipe of a chosen capacity */
  if (lv) { struct sim_rep r = rpc(OP_PIPE, CLS_PIPE, fl, 0); if (r.act == ACT_ERR) { errno = r.err; return done(-1); } r_cap = r.n; }
  int k = raw(SYS_pipe2, (long)p, fl, 0);
  if (lv) {
    if (!k) {
      set_cls(p[0], CLS_PIPE); set_cls(p[1], CLS_PIPE);
      if (r_cap) fcntl(p[1], F_SETPIPE_SZ, (int)r_cap);
    }
    done(k);
  }
  return k;
}
int pipe(int p[2]) { return pipe2(p, 0); }
int poll(struct pollfd *f, nfds_t n, int t) {
  if (!live()) return raw(SYS_poll, (long)f, n, t);
  int mine = 0;
  for (nfds_t i = 0; i < n; i++) if (cls_of(f[i].fd) == CLS_PIPE) mine = 1;
  if (!mine) return raw(SYS_poll, (long)f, n, t);
  struct sim_rep r = rpc(OP_POLL, CLS_PIPE, t, 0);
  if (r.act == ACT_ERR) { errno = r.err; return done(-1); }
  for (int tries = 0;; tries++) {
    int k = raw(SYS_poll, (long)f, n, 0);
    if (k || t == 0 || (t > 0 && tries > 20)) return done(k);
    r = rpc(OP_POLL | REQ_BLOCKED, CLS_PIPE, t, 0);
    if (r.act == ACT_ERR) { errno = r.err; return done(-1); }
  }
}
#define SPAWN(fn, pt)                                                                             \
  int fn(pt *pid, const char *f, const posix_spawn_file_actions_t *fa, const posix_spawnattr_t *at, \
         char *const av[], char *const ev[]) {                                                    \
    load_##fn();                                                                                   \
    if (!live()) return real_##fn(pid, f, fa, at, av, ev);                                         \
    struct sim_rep r = rpc(OP_SPAWN, 0, 0, f);                                                    \
    if (r.act == ACT_ERR) { prev_ret = -1; prev_err = r.err; return r.err; }                      \
    int k = real_##fn(pid, f, fa, at, av, ev);                                                    \
    prev_ret = k ? -1 : 1; prev_err = k;                                                          \
    return k;                                                                                      \
  }
SPAWN(posix_spawn, pid_t)
SPAWN(posix_spawnp, pid_t)
SPAWN(pidfd_spawnp, int)

pid_t waitpid(pid_t p, int *st, int fl) {
  if (!live()) return raw6(SYS_wait4, p, (long)st, fl, 0, 0, 0);
  struct sim_rep r = rpc(OP_WAIT, 0, 0, 0);
  if (r.act == ACT_ERR) { errno = r.err; return done(-1); }
  for (;;) {
    pid_t k = raw6(SYS_wait4, p, (long)st, fl | WNOHANG, 0, 0, 0);
    if (k || (fl & WNOHANG)) { done(k > 0 ? 1 : k); return k; }
    r = rpc(OP_WAIT | REQ_BLOCKED, 0, 0, 0);
    if (r.act == ACT_ERR) { errno = r.err; return done(-1); }
  }
}
pid_t wait(int *st) { return waitpid(-1, st, 0); }
int waitid(idtype_t t, id_t id, siginfo_t *si, int fl) {
  if (!live()) return raw6(SYS_waitid, t, id, (long)si, fl, 0, 0);
  struct sim_rep r = rpc(OP_WAIT, 0, 0, 0);
  if (r.act == ACT_ERR) { errno = r.err; return done(-1); }
  for (;;) {
    si->si_pid = 0;
    int k = raw6(SYS_waitid, t, id, (long)si, fl | WNOHANG, 0, 0);
    if (k || si->si_pid || (fl & WNOHANG)) return done(k);
    r = rpc(OP_WAIT | REQ_BLOCKED, 0, 0, 0);
    if (r.act == ACT_ERR) { errno = r.err; return done(-1); }
  }
}

/* ---------- threads ---------- */
/* the standard library of the compiled language calls futex through syscall(); a wait is a
 * scheduling point that is tried again until the word has changed */
long syscall(long n, ...) {
  long a[6];
  va_list ap;
  va_start(ap, n);
  for (int i = 0; i < 6; i++) a[i] = va_arg(ap, long);
  va_end(ap);
  if (n == SYS_futex && live() && conn >= 0) {
    int op = a[1] & 127;
    if (op == 0 || op == 9) return futex_wait(n, a);
  }
  if (n == SYS_getrandom && mode) return getrandom((void *)a[0], a[1], a[2]);
  return raw6(n, a[0], a[1], a[2], a[3], a[4], a[5]);
}
static long futex_wait(long n, long *a) {
  (void)n;
  struct sim_rep r = rpc(OP_JOIN, 0, 0, 0);
  (void)r;
  for (int tries = 0;; tries++) {
    if (__atomic_load_n((uint32_t *)a[0], __ATOMIC_SEQ_CST) != (uint32_t)a[2]) { errno = EAGAIN; return done(-1); }
    if (a[3] && tries > 20) { errno = ETIMEDOUT; return done(-1); }
    rpc(OP_JOIN | REQ_BLOCKED, 0, a[3] ? 1 : 0, 0);
  }
}
struct tstart { void *(*fn)(void *); void *arg; };
static void *thread_main(void *p) {
  struct tstart s = *(struct tstart *)p;
  free(p);
  hello();
  rpc(OP_SLEEP, 0, 0, 0); /* park before the first instruction */
  void *r = s.fn(s.arg);
  if (conn >= 0) { rpc(OP_BYE, 1, 0, 0); raw(SYS_close, conn, 0, 0); conn = -1; }
  off = 1;
  return r;
}
int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
  load_pthread_create();
  if (!live()) return real_pthread_create(t, a, fn, arg);
  struct sim_rep r = rpc(OP_THREAD, 0, 0, 0);
  if (r.act == ACT_ERR) { prev_ret = -1; prev_err = r.err; return r.err; }
  struct tstart *s = __libc_malloc(sizeof *s);
  s->fn = fn; s->arg = arg;
  int k = real_pthread_create(t, a, thread_main, s);
  prev_ret = k ? -1 : 1; prev_err = k;
  return k;
}
int pthread_join(pthread_t t, void **o) {
  load_pthread_join();
  if (!live()) return real_pthread_join(t, o);
  rpc(OP_JOIN, 0, 0, 0);
  for (;;) {
    int k = EBUSY;
    for (int i = 0; i < 30 && k == EBUSY; i++) { /* a thread that said goodbye is gone in a moment */
      k = pthread_tryjoin_np(t, o);
      struct timespec ms = {0, 1000000};
      if (k == EBUSY) raw(SYS_nanosleep, (long)&ms, 0, 0);
    }
    if (k != EBUSY) { done(0); return k; }
    rpc(OP_JOIN | REQ_BLOCKED, 0, 0, 0);
  }
}
