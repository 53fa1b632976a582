// Interposed between the command and libc: every open, read, write and close on the command's
// input and output is an event whose outcome the simulator decided beforehand. What happened is
// appended to SIM_LOG. Real files underneath.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

#define MAXS 512
struct side {
  // script: >0 limit, 0 as much as asked, -1 EINTR
  int script[MAXS], n, at;
  int cyc[64], ncyc, cyc_at;
  long fail_at;
  int fail_errno, fail_sticky, failed;
  long total;
};
static struct side R, W, OI, OO;
static unsigned long long seed, rnd_calls;
static char tracked[4096]; // 1 input, 2 output
static int out_stdout, logfd = -1, armed;
static long events, kill_at = -1;
static char kill_how;
static int kill_part;
static dev_t in_dev;
static ino_t in_ino;
static int have_in;

static void put(const char *fmt, ...) {
  if (logfd < 0) return;
  char b[256];
  va_list a;
  va_start(a, fmt);
  int n = vsnprintf(b, sizeof b, fmt, a);
  va_end(a);
  if (n > (int)sizeof b - 1) n = sizeof b - 1;
  syscall(SYS_write, logfd, b, n);
}

static void die(void) {
  put("killed\n");
  syscall(SYS_kill, syscall(SYS_getpid), SIGKILL);
  for (;;) pause();
}

static int parse_list(const char *p, int *v, int max) {
  int n = 0;
  while (*p && *p != ';' && n < max) {
    if (*p == 'i') {
      v[n++] = -1;
      p++;
    } else {
      v[n++] = strtol(p, (char **)&p, 10);
    }
    if (*p == ',') p++;
  }
  return n;
}

static const char *field(const char *plan, const char *key) {
  size_t k = strlen(key);
  for (const char *p = plan; p && *p;) {
    if (!strncmp(p, key, k) && p[k] == '=') return p + k + 1;
    p = strchr(p, ';');
    if (p) p++;
  }
  return 0;
}

static void side(const char *plan, struct side *s, const char *list, const char *cyc, const char *fail) {
  const char *p;
  s->fail_at = -1;
  if ((p = field(plan, list))) s->n = parse_list(p, s->script, MAXS);
  if (cyc && (p = field(plan, cyc))) s->ncyc = parse_list(p, s->cyc, 64);
  if ((p = field(plan, fail))) sscanf(p, "%ld:%d:%d", &s->fail_at, &s->fail_errno, &s->fail_sticky);
}

__attribute__((constructor)) static void init(void) {
  const char *plan = getenv("SIM_PLAN"), *log = getenv("SIM_LOG"), *in = getenv("SIM_IN"), *p;
  if (!plan || !log) return;
  int fd = syscall(SYS_openat, AT_FDCWD, log, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0600);
  if (fd < 0) return;
  logfd = syscall(SYS_fcntl, fd, F_DUPFD_CLOEXEC, 900);
  if (logfd < 0) logfd = fd;
  else syscall(SYS_close, fd);
  side(plan, &R, "r", "rc", "rf");
  side(plan, &W, "w", "wc", "wf");
  side(plan, &OI, "oi", 0, "oif");
  side(plan, &OO, "oo", 0, "oof");
  if ((p = field(plan, "seed"))) seed = strtoull(p, 0, 10);
  if ((p = field(plan, "kill"))) sscanf(p, "%ld:%c:%d", &kill_at, &kill_how, &kill_part);
  struct stat st;
  if (in && *in && stat(in, &st) == 0) {
    have_in = 1;
    in_dev = st.st_dev;
    in_ino = st.st_ino;
  }
  if (field(plan, "stdin")) tracked[0] = 1;
  if (field(plan, "stdout")) tracked[1] = 2, out_stdout = 1;
  armed = 1;
  unsetenv("LD_PRELOAD");
}

// One event; answers how it is to be killed ('m' only makes sense for writes)
static int event(const char *what) {
  events++;
  (void)what;
  if (events == kill_at) {
    if (kill_how == 'b') die();
    return kill_how;
  }
  return 0;
}

// What the script says about a transfer of `want` bytes: a limit, or -1 with errno set
static long decide(struct side *s, const char *what, long want) {
  int v = 0;
  if (s->at < s->n) {
    v = s->script[s->at++];
    if (v < 0) {
      put("%s EINTR\n", what);
      errno = EINTR;
      return -1;
    }
  } else if (s->ncyc) {
    v = s->cyc[s->cyc_at++ % s->ncyc];
  }
  if (s->fail_at >= 0 && s->total >= s->fail_at && (!s->failed || s->fail_sticky)) {
    s->failed = 1;
    put("%s errno %d at %ld\n", what, s->fail_errno, s->total);
    if (!s->fail_errno) return 0; // nothing is transferred
    errno = s->fail_errno;
    return -1;
  }
  long lim = v > 0 && v < want ? v : want;
  if (s->fail_at > s->total && lim > s->fail_at - s->total) lim = s->fail_at - s->total;
  return lim;
}

static ssize_t do_read(int fd, void *buf, size_t n, off_t off) {
  if (armed && fd >= 0 && fd < 4096 && tracked[fd] == 1) {
    int k = event("read");
    ssize_t r = -1;
    long lim = decide(&R, "read", n);
    if (lim >= 0) {
      r = off < 0 ? syscall(SYS_read, fd, buf, (size_t)lim) : syscall(SYS_pread64, fd, buf, (size_t)lim, off);
      if (r > 0) R.total += r;
      put(r == (ssize_t)n || r == 0 ? "read %ld of %ld\n" : "read %ld of %ld short\n", (long)r, (long)n);
    }
    if (k) die();
    return r;
  }
  return off < 0 ? syscall(SYS_read, fd, buf, n) : syscall(SYS_pread64, fd, buf, n, off);
}

static ssize_t do_write(int fd, const void *buf, size_t n, off_t off) {
  if (armed && fd >= 0 && fd < 4096 && tracked[fd] == 2) {
    int k = event("write");
    ssize_t r = -1;
    long lim = decide(&W, "write", n);
    if (lim >= 0) {
      if (k == 'm' && kill_part < lim) lim = kill_part;
      r = off < 0 ? syscall(SYS_write, fd, buf, (size_t)lim) : syscall(SYS_pwrite64, fd, buf, (size_t)lim, off);
      if (r > 0) W.total += r;
      put(r == (ssize_t)n ? "write %ld of %ld\n" : "write %ld of %ld short\n", (long)r, (long)n);
    }
    if (k) die();
    return r;
  }
  return off < 0 ? syscall(SYS_write, fd, buf, n) : syscall(SYS_pwrite64, fd, buf, n, off);
}

ssize_t read(int fd, void *buf, size_t n) { return do_read(fd, buf, n, -1); }
ssize_t pread(int fd, void *buf, size_t n, off_t o) { return do_read(fd, buf, n, o); }
ssize_t pread64(int fd, void *buf, size_t n, off_t o) { return do_read(fd, buf, n, o); }
ssize_t write(int fd, const void *buf, size_t n) { return do_write(fd, buf, n, -1); }
ssize_t pwrite(int fd, const void *buf, size_t n, off_t o) { return do_write(fd, buf, n, o); }
ssize_t pwrite64(int fd, const void *buf, size_t n, off_t o) { return do_write(fd, buf, n, o); }

static int watched(int fd) { return armed && fd >= 0 && fd < 4096 && tracked[fd]; }

ssize_t readv(int fd, const struct iovec *v, int n) {
  if (watched(fd)) {
    for (int i = 0; i < n; i++)
      if (v[i].iov_len) return do_read(fd, v[i].iov_base, v[i].iov_len, -1);
    return 0;
  }
  return syscall(SYS_readv, fd, v, n);
}

ssize_t writev(int fd, const struct iovec *v, int n) {
  if (watched(fd)) {
    for (int i = 0; i < n; i++)
      if (v[i].iov_len) return do_write(fd, v[i].iov_base, v[i].iov_len, -1);
    return 0;
  }
  return syscall(SYS_writev, fd, v, n);
}

static int is_input(int dir, const char *path) {
  struct stat st;
  return have_in && fstatat(dir, path, &st, 0) == 0 && st.st_dev == in_dev && st.st_ino == in_ino;
}

static int do_open(int dir, const char *path, int flags, int mode) {
  if (!armed || !path || !strncmp(path, "/proc/", 6) || !strncmp(path, "/dev/", 5) || !strncmp(path, "/sys/", 5))
    return syscall(SYS_openat, dir, path, flags, mode);
  int kind = (flags & O_ACCMODE) != O_RDONLY || (flags & O_CREAT) ? 2 : is_input(dir, path) ? 1 : 0;
  if (!kind) return syscall(SYS_openat, dir, path, flags, mode);
  const char *what = kind == 1 ? "open-in" : "open-out";
  int k = event(what);
  int fd = -1;
  if (decide(kind == 1 ? &OI : &OO, what, 1) >= 0) {
    fd = syscall(SYS_openat, dir, path, flags, mode);
    if (fd < 0) {
      fd = -1;
      put("%s really %d\n", what, errno);
    } else {
      put("%s ok\n", what);
      if (fd < 4096) tracked[fd] = kind;
    }
  }
  if (k) die();
  return fd;
}

#define MODE                     \
  int mode = 0;                  \
  if (flags & (O_CREAT | O_TMPFILE)) { \
    va_list a;                   \
    va_start(a, flags);          \
    mode = va_arg(a, int);       \
    va_end(a);                   \
  }
int open(const char *path, int flags, ...) { MODE return do_open(AT_FDCWD, path, flags, mode); }
int open64(const char *path, int flags, ...) { MODE return do_open(AT_FDCWD, path, flags, mode); }
int openat(int dir, const char *path, int flags, ...) { MODE return do_open(dir, path, flags, mode); }
int openat64(int dir, const char *path, int flags, ...) { MODE return do_open(dir, path, flags, mode); }
int creat(const char *path, mode_t mode) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode); }
int creat64(const char *path, mode_t mode) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode); }

int close(int fd) {
  int k = watched(fd) ? event("close") : 0;
  if (fd == logfd) return 0;
  if (fd >= 0 && fd < 4096) tracked[fd] = 0;
  int r = syscall(SYS_close, fd);
  if (k) die();
  return r;
}

// Other calls that change files: places to be killed at
#define PASS(name, sys, params, ...)          \
  int name params {                           \
    int k = armed ? event(#name) : 0;         \
    if (armed) put(#name "\n");               \
    int r = syscall(sys, __VA_ARGS__);        \
    if (k) die();                             \
    return r;                                 \
  }
PASS(rename, SYS_rename, (const char *a, const char *b), a, b)
PASS(unlink, SYS_unlink, (const char *a), a)
PASS(ftruncate, SYS_ftruncate, (int fd, off_t n), fd, n)
PASS(ftruncate64, SYS_ftruncate, (int fd, off_t n), fd, n)
PASS(fsync, SYS_fsync, (int fd), fd)
PASS(fdatasync, SYS_fdatasync, (int fd), fd)

ssize_t getrandom(void *buf, size_t n, unsigned flags) {
  if (!armed) return syscall(SYS_getrandom, buf, n, flags);
  unsigned char *b = buf;
  unsigned long long z = 0;
  for (size_t i = 0; i < n; i++) {
    if (i % 8 == 0) {
      z = seed + 0x9E3779B97F4A7C15ull * ++rnd_calls;
      z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
      z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
      z ^= z >> 31;
    }
    b[i] = z >> (i % 8 * 8);
  }
  return n;
}
