/* The C preprocessor as a simulated node. What it prints is what the real preprocessor prints for
 * the same arguments and input (run once per distinct input, then taken from SIM_CACHE); when and
 * how it reads, writes and dies is decided by the simulator through the shim and sim_conf(). */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

extern void sim_passthrough(int) __attribute__((weak));
extern const char *sim_conf(void) __attribute__((weak));

static void pass(int on) { if (sim_passthrough) sim_passthrough(on); }
static long conf(const char *key, long dflt) {
  const char *c = sim_conf ? sim_conf() : "";
  size_t n = strlen(key);
  while (c && *c) {
    if (!strncmp(c, key, n) && c[n] == '=') return atol(c + n + 1);
    c = strchr(c, ';');
    if (c) c++;
  }
  return dflt;
}
struct buf { char *p; size_t n, cap; };
static void put(struct buf *b, const void *p, size_t n) {
  if (b->n + n + 1 > b->cap) {
    b->cap = (b->n + n + 1) * 2;
    b->p = realloc(b->p, b->cap);
    if (!b->p) _exit(4);
  }
  memcpy(b->p + b->n, p, n);
  b->n += n;
  b->p[b->n] = 0;
}
static int slurp(int fd, struct buf *b, size_t chunk) {
  char t[65536];
  put(b, "", 0);
  for (;;) {
    ssize_t k = read(fd, t, chunk < sizeof t ? chunk : sizeof t);
    if (k < 0 && errno == EINTR) continue;
    if (k < 0) return -1;
    if (!k) return 0;
    put(b, t, k);
  }
}
static int spew(int fd, const char *p, size_t n, size_t chunk) {
  while (n) {
    ssize_t k = write(fd, p, n < chunk ? n : chunk);
    if (k < 0 && errno == EINTR) continue;
    if (k <= 0) return -1;
    p += k; n -= k;
  }
  return 0;
}
static uint64_t hash(uint64_t h, const char *p, size_t n) {
  while (n--) { h ^= (unsigned char)*p++; h *= 0x100000001b3ull; }
  return h;
}

int main(int argc, char **argv) {
  const char *self = strrchr(argv[0], '/') ? strrchr(argv[0], '/') + 1 : argv[0];
  char real[300];
  snprintf(real, sizeof real, "/usr/bin/%s", self);
  struct buf in = {0}, out = {0}, err = {0}, f = {0};
  int status = 0, have = 0, cacheable = 1;
  size_t chunk = conf("chunk", 65536);
  if (!conf("noread", 0) && slurp(0, &in, chunk) < 0) return 5;
  put(&in, "", 0);

  pass(1);
  uint64_t h1 = hash(0xcbf29ce484222325ull, self, strlen(self)), h2;
  for (int i = 1; i < argc; i++) {
    h1 = hash(h1, argv[i], strlen(argv[i]) + 1);
    if (argv[i][0] != '-') cacheable = 0;
  }
  h2 = hash(h1 ^ 0x5bd1e995, in.p, in.n);
  h1 = hash(h1, in.p, in.n);
  char path[512];
  const char *dir = getenv("SIM_CACHE");
  if (!dir) cacheable = 0;
  if (cacheable) {
    snprintf(path, sizeof path, "%s/%016lx%016lx", dir, (unsigned long)h1, (unsigned long)h2);
    int fd = open(path, O_RDONLY);
    if (fd >= 0) {
      long eo = 0, ee = 0; int st = 0, off = 0;
      if (!slurp(fd, &f, 65536) && sscanf(f.p, "%d %ld %ld\n%n", &st, &eo, &ee, &off) == 3 &&
          f.n == (size_t)off + eo + ee) {
        put(&out, f.p + off, eo); put(&err, f.p + off + eo, ee); status = st; have = 1;
      }
      close(fd);
    }
  }
  if (!have) {
    int a[2], o[2], e[2];
    char tmpl[64] = "/tmp/simcppXXXXXX", tmpe[64] = "/tmp/simcppXXXXXX", tmpi[64] = "/tmp/simcppXXXXXX";
    o[1] = mkstemp(tmpl); e[1] = mkstemp(tmpe); a[0] = mkstemp(tmpi);
    unlink(tmpl); unlink(tmpe); unlink(tmpi);
    if (spew(a[0], in.p, in.n, 1 << 20)) return 6;
    lseek(a[0], 0, SEEK_SET);
    pid_t p = fork();
    if (!p) {
      pass(1);
      dup2(a[0], 0); dup2(o[1], 1); dup2(e[1], 2);
      unsetenv("LD_PRELOAD"); unsetenv("SIM_MODE");
      setenv("PATH", "/usr/local/bin:/usr/bin:/bin", 1);
      argv[0] = real;
      execv(real, argv);
      _exit(127);
    }
    while (waitpid(p, &status, 0) < 0) if (errno != EINTR) return 7;
    status = WIFEXITED(status) ? WEXITSTATUS(status) : 99;
    lseek(o[1], 0, SEEK_SET); lseek(e[1], 0, SEEK_SET);
    slurp(o[1], &out, 65536); slurp(e[1], &err, 65536);
    if (cacheable) {
      char t[600];
      snprintf(t, sizeof t, "%s.%d", path, getpid());
      int fd = open(t, O_WRONLY | O_CREAT | O_TRUNC, 0644);
      char hd[64];
      int n = snprintf(hd, sizeof hd, "%d %ld %ld\n", status, (long)out.n, (long)err.n);
      if (fd >= 0 && !spew(fd, hd, n, 1 << 20) && !spew(fd, out.p, out.n, 1 << 20) &&
          !spew(fd, err.p, err.n, 1 << 20)) {
        close(fd);
        rename(t, path);
      }
    }
  }
  pass(0);

  long noise = conf("stderr", 0);
  if (noise) {
    struct buf w = {0};
    while ((long)w.n < noise) put(&w, "<stdin>:1: warning: simulated diagnostic\n", 41);
    if (spew(2, w.p, w.n, chunk)) return 8;
  }
  if (err.n && spew(2, err.p, err.n, chunk)) return 8;
  size_t n = out.n;
  long trunc = conf("trunc", -1); /* per mille of the output */
  if (trunc >= 0) n = n * trunc / 1000;
  if (conf("line", 0)) while (n && out.p[n - 1] != '\n') n--;
  if (conf("badutf", 0) && n) out.p[n / 2] = (char)0xff;
  if (spew(1, out.p, n, chunk)) return 9;
  if (conf("sigterm", 0)) { raise(SIGKILL); }
  long code = conf("exit", -1);
  return code >= 0 ? code : status;
}
