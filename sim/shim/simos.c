/* The simulated operating system below dandy-cli: preloaded into the (single-threaded) process, it answers every
 * file, clock, entropy and allocation call from a plan in shared memory and records every call there.
 * No call on a path or on standard output reaches the real system. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/statvfs.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#define REGION (24u << 20)
#define PLAN_OFF 4096u
#define LOG_OFF (8u << 20)

struct hdr {
  uint64_t log_len;
  uint64_t overflow;
  uint64_t calls;  /* calls the plan can address */
  uint64_t allocs;
};
static uint8_t *region;
static struct hdr *hdr;
static int armed;

enum { C_OPEN, C_READ, C_WRITE, C_STDOUT, C_STDERR, C_STAT, C_SEEK, C_CLOCK, C_RANDOM, C_ALLOC, C_SYNC, C_ANY, NCLASS };
enum { A_ERRNO, A_SHORT, A_KILL_BEFORE, A_KILL_AFTER, A_SIZE, A_JUMP, A_TORN_KILL };

struct vfile {
  char *path; /* NULL: unlinked */
  int kind;   /* 0 file, 1 directory, 2 absent */
  int open_errno, read_errno;
  int64_t read_fail_at, cap; /* cap: bytes it can grow to, -1: no limit */
  int write_errno;
  uint8_t *data;
  size_t len, alloc;
};
struct fault {
  uint32_t cls, ord, act, used;
  int64_t arg;
};
#define MAXF 256
static struct vfile files[MAXF];
static int nfiles;
static struct fault *faults;
static int nfaults;
static uint32_t count[NCLASS];
static uint64_t entropy;
static int64_t now_ns;
static int64_t stdout_cap, stdout_len;
static int stdout_errno;

struct ofd {
  int file, flags, refs;
  int64_t pos;
};
#define MAXFD 128
#define FDBASE 1000
static struct ofd ofds[MAXFD];
static int fds[MAXFD]; /* index into ofds, -1 free */

/* internal memory: never through the interposed allocator */
static uint8_t *arena, *arena_end;
static void *amem(size_t n) {
  n = (n + 15) & ~(size_t)15;
  if (arena + n > arena_end) _exit(98);
  void *p = arena;
  arena += n;
  return p;
}

static uint64_t splitmix(uint64_t *s) {
  uint64_t z = (*s += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}

static void rec(char type, int64_t a, int64_t b, int64_t c, const void *data, size_t len) {
  if (!hdr) return;
  size_t need = 1 + 3 * 8 + 4 + len;
  if (LOG_OFF + hdr->log_len + need > REGION) {
    hdr->overflow = 1;
    _exit(98);
  }
  uint8_t *p = region + LOG_OFF + hdr->log_len;
  uint32_t l = (uint32_t)len;
  *p++ = (uint8_t)type;
  memcpy(p, &a, 8), p += 8;
  memcpy(p, &b, 8), p += 8;
  memcpy(p, &c, 8), p += 8;
  memcpy(p, &l, 4), p += 4;
  if (len) memcpy(p, data, len);
  hdr->log_len += need;
}

static void die(void) {
  rec('K', 0, 0, 0, 0, 0);
  kill(getpid(), SIGKILL);
  for (;;) pause();
}

static struct fault *find(int cls, uint32_t ord) {
  for (int i = 0; i < nfaults; i++)
    if ((int)faults[i].cls == cls && faults[i].ord == ord && !faults[i].used) return &faults[i];
  return 0;
}
static int kill_after;
/* the fault planned for this call, if any */
static struct fault *enter(int cls) {
  kill_after = 0;
  struct fault *f = 0;
  uint32_t any = ++count[C_ANY], own = ++count[cls];
  hdr->calls = any;
  struct fault *k = find(C_ANY, any);
  if (k) {
    k->used = 1;
    if (k->act == A_KILL_BEFORE) die();
    if (k->act == A_KILL_AFTER) kill_after = 1;
    if (k->act == A_TORN_KILL) f = k;
  }
  struct fault *g = find(cls, own);
  if (g) {
    g->used = 1;
    if (g->act == A_KILL_BEFORE) die();
    if (g->act == A_KILL_AFTER) kill_after = 1;
    else f = g;
  }
  if (f) rec('F', cls, f->act, f->arg, 0, 0);
  return f;
}
static void leave(void) {
  if (kill_after) die();
}

/* ---- plan */
static uint8_t *pp;
static uint32_t u32(void) { uint32_t x; memcpy(&x, pp, 4); pp += 4; return x; }
static int64_t i64(void) { int64_t x; memcpy(&x, pp, 8); pp += 8; return x; }

__attribute__((constructor)) static void init(void) {
  const char *e = getenv("SIMOS_FD");
  for (int i = 0; i < MAXFD; i++) fds[i] = -1;
  if (!e) return;
  int fd = atoi(e);
  region = mmap(0, REGION, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  if (region == MAP_FAILED) _exit(96);
  syscall(SYS_close, fd);
  hdr = (struct hdr *)region;
  arena = mmap(0, 64u << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if ((void *)arena == MAP_FAILED) _exit(96);
  arena_end = arena + (64u << 20);
  struct rlimit cpu = {10, 12};
  setrlimit(RLIMIT_CPU, &cpu);
  struct rlimit as = {2ul << 30, 2ul << 30};
  setrlimit(RLIMIT_AS, &as);
  struct rlimit core = {0, 0};
  setrlimit(RLIMIT_CORE, &core);
  pp = region + PLAN_OFF;
  entropy = (uint64_t)i64();
  now_ns = i64();
  stdout_cap = i64();
  stdout_errno = (int)i64();
  nfiles = (int)u32();
  for (int i = 0; i < nfiles; i++) {
    struct vfile *f = &files[i];
    uint32_t n = u32();
    f->path = amem(n + 1);
    memcpy(f->path, pp, n);
    f->path[n] = 0;
    pp += n;
    f->kind = (int)u32();
    f->open_errno = (int)u32();
    f->read_errno = (int)u32();
    f->write_errno = (int)u32();
    f->read_fail_at = i64();
    f->cap = i64();
    f->len = f->alloc = u32();
    f->data = amem(f->len + 1);
    memcpy(f->data, pp, f->len);
    pp += f->len;
  }
  nfaults = (int)u32();
  faults = amem(sizeof(struct fault) * (size_t)(nfaults + 1));
  for (int i = 0; i < nfaults; i++) {
    faults[i].cls = u32();
    faults[i].ord = u32();
    faults[i].act = u32();
    faults[i].used = 0;
    faults[i].arg = i64();
  }
  armed = 1;
}

/* ---- paths */
static void normal(const char *p, char *out, size_t cap) {
  char buf[4096];
  if (p[0] == '/') snprintf(buf, sizeof buf, "%s", p);
  else snprintf(buf, sizeof buf, "/sim/%s", p);
  size_t n = 0;
  out[0] = 0;
  for (char *s = buf; *s;) {
    while (*s == '/') s++;
    char *e = s;
    while (*e && *e != '/') e++;
    size_t l = (size_t)(e - s);
    if (l == 0) break;
    if (l == 1 && s[0] == '.') {
    } else if (l == 2 && s[0] == '.' && s[1] == '.') {
      while (n > 0 && out[n - 1] != '/') n--;
      if (n > 0) n--;
      out[n] = 0;
    } else if (n + l + 2 < cap) {
      out[n++] = '/';
      memcpy(out + n, s, l);
      n += l;
      out[n] = 0;
    }
    s = e;
  }
  if (n == 0) snprintf(out, cap, "/");
}
static int lookup(const char *norm) {
  for (int i = 0; i < nfiles; i++)
    if (files[i].path && !strcmp(files[i].path, norm)) return i;
  return -1;
}
/* is this the directory of something that exists? */
static int isdir(const char *norm) {
  if (!strcmp(norm, "/") || !strcmp(norm, "/sim") || !strcmp(norm, "/tmp")) return 1;
  size_t n = strlen(norm);
  for (int i = 0; i < nfiles; i++) {
    if (!files[i].path) continue;
    if (files[i].kind == 1 && !strcmp(files[i].path, norm)) return 1;
    if (!strncmp(files[i].path, norm, n) && files[i].path[n] == '/') return 1;
  }
  return 0;
}
static int slash_end(const char *p) {
  size_t n = strlen(p);
  return n > 0 && p[n - 1] == '/';
}
/* a component of the path that is a plain file */
static int notdir(const char *norm) {
  for (int i = 0; i < nfiles; i++) {
    if (!files[i].path || files[i].kind != 0) continue;
    size_t n = strlen(files[i].path);
    if (!strncmp(files[i].path, norm, n) && norm[n] == '/') return 1;
  }
  return 0;
}

static int newfd(int file, int flags) {
  int o = -1;
  for (int i = 0; i < MAXFD; i++)
    if (ofds[i].refs == 0) { o = i; break; }
  for (int i = 0; i < MAXFD; i++)
    if (fds[i] < 0 && o >= 0) {
      fds[i] = o;
      ofds[o] = (struct ofd){file, flags, 1, 0};
      return FDBASE + i;
    }
  errno = EMFILE;
  return -1;
}
static struct ofd *get(int fd) {
  if (!hdr || fd < FDBASE || fd >= FDBASE + MAXFD || fds[fd - FDBASE] < 0) return 0;
  return &ofds[fds[fd - FDBASE]];
}
static int mine(int fd) { return hdr && fd >= FDBASE && fd < FDBASE + MAXFD; }

static int fail_open(const char *norm, int flags, int e) {
  rec('o', flags, e, 0, norm, strlen(norm));
  leave();
  errno = e;
  return -1;
}
static int vopen(const char *path, int flags, mode_t mode) {
  (void)mode;
  char norm[4096];
  normal(path, norm, sizeof norm);
  struct fault *ft = enter(C_OPEN);
  if (ft && ft->act == A_ERRNO) return fail_open(norm, flags, (int)ft->arg);
  int wr = (flags & O_ACCMODE) != O_RDONLY;
  int i = lookup(norm);
  if (i >= 0 && files[i].open_errno) return fail_open(norm, flags, files[i].open_errno);
  if (notdir(norm)) return fail_open(norm, flags, ENOTDIR);
  int dir = isdir(norm);
  if (dir && (wr || (flags & O_CREAT))) return fail_open(norm, flags, EISDIR);
  if (slash_end(path) && !dir) return fail_open(norm, flags, (flags & O_CREAT) ? EISDIR : i >= 0 && files[i].kind == 0 ? ENOTDIR : ENOENT);
  if ((flags & O_DIRECTORY) && !dir) return fail_open(norm, flags, ENOTDIR);
  if (i >= 0 && files[i].kind == 0 && (flags & O_CREAT) && (flags & O_EXCL)) return fail_open(norm, flags, EEXIST);
  if (i < 0 || files[i].kind == 2) {
    if (!dir) {
      if (!(flags & O_CREAT)) return fail_open(norm, flags, ENOENT);
      char up[4096];
      snprintf(up, sizeof up, "%s", norm);
      char *s = strrchr(up, '/');
      if (s == up) s[1] = 0;
      else *s = 0;
      if (!isdir(up)) return fail_open(norm, flags, ENOENT);
      if (i < 0) {
        if (nfiles >= MAXF) return fail_open(norm, flags, ENOSPC);
        i = nfiles++;
        files[i].path = amem(strlen(norm) + 1);
        strcpy(files[i].path, norm);
        files[i].cap = -1;
        files[i].read_fail_at = -1;
      }
      files[i].kind = 0;
      files[i].data = 0;
      files[i].len = files[i].alloc = 0;
      rec('C', i, 0, 0, norm, strlen(norm));
    } else if (i < 0) {
      if (nfiles >= MAXF) return fail_open(norm, flags, ENOSPC);
      i = nfiles++;
      files[i].path = amem(strlen(norm) + 1);
      strcpy(files[i].path, norm);
      files[i].kind = 1;
    }
  }
  if ((flags & O_TRUNC) && wr && files[i].kind == 0) {
    files[i].len = 0;
    rec('T', i, 0, 0, norm, strlen(norm));
  }
  int fd = newfd(i, flags);
  rec('O', flags, fd, i, norm, strlen(norm));
  leave();
  return fd;
}

static ssize_t vread(int fd, void *buf, size_t n, int64_t at) {
  struct ofd *o = get(fd);
  struct fault *ft = enter(C_READ);
  if (!o) { errno = EBADF; return -1; }
  int e = 0;
  if (ft && ft->act == A_ERRNO) e = (int)ft->arg;
  else if ((o->flags & O_ACCMODE) == O_WRONLY) e = EBADF;
  else if (files[o->file].kind == 1) e = EISDIR;
  struct vfile *f = &files[o->file];
  int64_t pos = at >= 0 ? at : o->pos;
  size_t left = pos < (int64_t)f->len ? f->len - (size_t)pos : 0;
  if (!e && f->read_errno && pos >= f->read_fail_at) e = f->read_errno;
  if (e) {
    rec('r', o->file, e, (int64_t)n, 0, 0);
    leave();
    errno = e;
    return -1;
  }
  size_t k = n < left ? n : left;
  if (f->read_errno && pos + (int64_t)k > f->read_fail_at) k = (size_t)(f->read_fail_at - pos);
  if (ft && (ft->act == A_SHORT || ft->act == A_TORN_KILL) && k > 1) {
    size_t m = (size_t)ft->arg;
    if (m == 0) m = 1;
    if (m < k) k = m;
  }
  if (k) memcpy(buf, f->data + pos, k);
  if (at < 0) o->pos += (int64_t)k;
  rec('R', o->file, (int64_t)k, (int64_t)n, 0, 0);
  if (ft && ft->act == A_TORN_KILL) die();
  leave();
  return (ssize_t)k;
}

static ssize_t put(int fd, const void *buf, size_t n, int64_t at) {
  struct ofd *o = get(fd);
  int cls = fd == 1 ? C_STDOUT : fd == 2 ? C_STDERR : C_WRITE;
  struct fault *ft = enter(cls);
  int e = 0;
  size_t k = n;
  if (ft && ft->act == A_ERRNO) e = (int)ft->arg;
  if (!e && fd == 1 && stdout_cap >= 0) {
    int64_t room = stdout_cap - stdout_len;
    if (room <= 0 && n > 0) e = stdout_errno;
    else if ((int64_t)k > room) k = (size_t)room;
  }
  if (!e && fd > 2) {
    if (!o || (o->flags & O_ACCMODE) == O_RDONLY) e = EBADF;
    else {
      struct vfile *f = &files[o->file];
      int64_t pos = at >= 0 ? at : (o->flags & O_APPEND) ? (int64_t)f->len : o->pos;
      if (f->cap >= 0) {
        int64_t room = f->cap - pos;
        if (room <= 0 && n > 0) e = f->write_errno ? f->write_errno : ENOSPC;
        else if ((int64_t)k > room) k = (size_t)room;
      }
    }
  }
  if (e) {
    rec('w', fd <= 2 ? -fd : o ? o->file : -9, e, (int64_t)n, 0, 0);
    leave();
    errno = e;
    return -1;
  }
  if (ft && ft->act == A_SHORT && k > 1) {
    size_t m = (size_t)ft->arg;
    if (m == 0) m = 1;
    if (m < k) k = m;
  }
  if (ft && ft->act == A_TORN_KILL && (size_t)ft->arg < k) k = (size_t)ft->arg;
  if (fd == 1 || fd == 2) {
    if (fd == 1) stdout_len += (int64_t)k;
    rec(fd == 1 ? 'S' : 'E', (int64_t)k, (int64_t)n, 0, buf, k);
  } else {
    struct vfile *f = &files[o->file];
    int64_t pos = at >= 0 ? at : (o->flags & O_APPEND) ? (int64_t)f->len : o->pos;
    size_t end = (size_t)pos + k;
    if (end > f->alloc) {
      size_t na = end * 2 + 256;
      uint8_t *d = amem(na);
      memset(d, 0, na);
      if (f->len) memcpy(d, f->data, f->len);
      f->data = d;
      f->alloc = na;
    }
    if ((size_t)pos > f->len) memset(f->data + f->len, 0, (size_t)pos - f->len);
    memcpy(f->data + pos, buf, k);
    if (end > f->len) f->len = end;
    if (at < 0) o->pos = (int64_t)end;
    rec('W', o->file, pos, (int64_t)n, buf, k);
  }
  if (ft && ft->act == A_TORN_KILL) die();
  leave();
  return (ssize_t)k;
}

/* ---- interposed calls */
#define REAL(name) ((__typeof__(&name))dlsym(RTLD_NEXT, #name))

static int open_any(const char *path, int flags, mode_t mode) {
  if (!hdr) return (int)syscall(SYS_openat, AT_FDCWD, path, flags, mode);
  return vopen(path, flags, mode);
}
#define OPENFN(name)                                    \
  int name(const char *path, int flags, ...) {          \
    va_list ap;                                         \
    va_start(ap, flags);                                \
    mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0; \
    va_end(ap);                                         \
    return open_any(path, flags, m);                    \
  }
OPENFN(open)
OPENFN(open64)
#define OPENATFN(name)                                  \
  int name(int d, const char *path, int flags, ...) {   \
    va_list ap;                                         \
    va_start(ap, flags);                                \
    mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0; \
    va_end(ap);                                         \
    (void)d;                                            \
    return open_any(path, flags, m);                    \
  }
OPENATFN(openat)
OPENATFN(openat64)
int creat(const char *p, mode_t m) { return open_any(p, O_CREAT | O_WRONLY | O_TRUNC, m); }

ssize_t read(int fd, void *buf, size_t n) {
  if (mine(fd)) return vread(fd, buf, n, -1);
  if (hdr && fd == 0) return 0;
  return syscall(SYS_read, fd, buf, n);
}
ssize_t pread64(int fd, void *buf, size_t n, off64_t at) {
  if (mine(fd)) return vread(fd, buf, n, at);
  return syscall(SYS_pread64, fd, buf, n, at);
}
ssize_t pread(int fd, void *buf, size_t n, off_t at) { return pread64(fd, buf, n, at); }
ssize_t readv(int fd, const struct iovec *v, int c) {
  if (!mine(fd)) return syscall(SYS_readv, fd, v, c);
  for (int i = 0; i < c; i++)
    if (v[i].iov_len) return vread(fd, v[i].iov_base, v[i].iov_len, -1);
  return vread(fd, 0, 0, -1);
}
ssize_t write(int fd, const void *buf, size_t n) {
  if (hdr && (fd == 1 || fd == 2 || mine(fd))) return put(fd, buf, n, -1);
  return syscall(SYS_write, fd, buf, n);
}
ssize_t pwrite64(int fd, const void *buf, size_t n, off64_t at) {
  if (mine(fd)) return put(fd, buf, n, at);
  return syscall(SYS_pwrite64, fd, buf, n, at);
}
ssize_t pwrite(int fd, const void *buf, size_t n, off_t at) { return pwrite64(fd, buf, n, at); }
ssize_t writev(int fd, const struct iovec *v, int c) {
  if (!(hdr && (fd == 1 || fd == 2 || mine(fd)))) return syscall(SYS_writev, fd, v, c);
  size_t n = 0;
  for (int i = 0; i < c; i++) n += v[i].iov_len;
  static uint8_t tmp[1 << 16];
  if (n > sizeof tmp) n = sizeof tmp;
  size_t k = 0;
  for (int i = 0; i < c && k < n; i++) {
    size_t m = v[i].iov_len < n - k ? v[i].iov_len : n - k;
    memcpy(tmp + k, v[i].iov_base, m);
    k += m;
  }
  return put(fd, tmp, n, -1);
}
int close(int fd) {
  if (mine(fd)) {
    struct ofd *o = get(fd);
    if (!o) { errno = EBADF; return -1; }
    enter(C_SYNC);
    o->refs--;
    fds[fd - FDBASE] = -1;
    rec('c', o->file, 0, 0, 0, 0);
    leave();
    return 0;
  }
  return (int)syscall(SYS_close, fd);
}
static int vsync(int fd) {
  struct ofd *o = get(fd);
  struct fault *ft = enter(C_SYNC);
  if (!o) { errno = EBADF; return -1; }
  (void)ft;
  rec('y', o->file, 0, 0, 0, 0);
  leave();
  return 0;
}
int fsync(int fd) { return mine(fd) ? vsync(fd) : (int)syscall(SYS_fsync, fd); }
int fdatasync(int fd) { return mine(fd) ? vsync(fd) : (int)syscall(SYS_fdatasync, fd); }

static int64_t vseek(int fd, int64_t off, int wh) {
  struct ofd *o = get(fd);
  struct fault *ft = enter(C_SEEK);
  int e = 0;
  int64_t p = 0;
  if (!o) e = EBADF;
  else if (ft && ft->act == A_ERRNO) e = (int)ft->arg;
  else {
    p = wh == SEEK_SET ? off : wh == SEEK_CUR ? o->pos + off : (int64_t)files[o->file].len + off;
    if (p < 0) e = EINVAL;
  }
  rec('l', o ? o->file : -9, e, p, 0, 0);
  if (!e) o->pos = p;
  leave();
  if (e) { errno = e; return -1; }
  return p;
}
off64_t lseek64(int fd, off64_t off, int wh) { return mine(fd) ? vseek(fd, off, wh) : syscall(SYS_lseek, fd, off, wh); }
off_t lseek(int fd, off_t off, int wh) { return mine(fd) ? vseek(fd, off, wh) : syscall(SYS_lseek, fd, off, wh); }

static int vtrunc(int fd, int64_t n) {
  struct ofd *o = get(fd);
  enter(C_WRITE);
  if (!o || n < 0) { errno = EBADF; return -1; }
  struct vfile *f = &files[o->file];
  if ((size_t)n > f->alloc) {
    uint8_t *d = amem((size_t)n + 1);
    memset(d, 0, (size_t)n + 1);
    if (f->len) memcpy(d, f->data, f->len);
    f->data = d;
    f->alloc = (size_t)n;
  } else if ((size_t)n > f->len) memset(f->data + f->len, 0, (size_t)n - f->len);
  f->len = (size_t)n;
  rec('T', o->file, n, 0, 0, 0);
  leave();
  return 0;
}
int ftruncate64(int fd, off64_t n) { return mine(fd) ? vtrunc(fd, n) : (int)syscall(SYS_ftruncate, fd, n); }
int ftruncate(int fd, off_t n) { return mine(fd) ? vtrunc(fd, n) : (int)syscall(SYS_ftruncate, fd, n); }
int posix_fallocate64(int fd, off64_t o, off64_t l) { (void)o; (void)l; return mine(fd) ? 0 : EBADF; }

/* the size and mode of a virtual object; -1 and errno if absent */
static int vstat(const char *norm, int file, int64_t *size, mode_t *mode) {
  struct fault *ft = enter(C_STAT);
  int e = 0;
  int dir = 0;
  *size = 0;
  if (ft && ft->act == A_ERRNO) e = (int)ft->arg;
  else if (file < 0) {
    dir = isdir(norm);
    file = lookup(norm);
    if (file >= 0 && files[file].kind == 2 && !dir) e = ENOENT;
    if (file < 0 && !dir) e = notdir(norm) ? ENOTDIR : ENOENT;
  }
  if (!e) {
    if (dir || files[file].kind == 1) *mode = S_IFDIR | 0755, *size = 4096;
    else *mode = S_IFREG | 0644, *size = (int64_t)files[file].len;
    if (ft && ft->act == A_SIZE) *size = ft->arg;
  }
  rec('t', file, e, *size, norm, norm ? strlen(norm) : 0);
  leave();
  if (e) { errno = e; return -1; }
  return 0;
}
static void fill(struct stat *st, int64_t size, mode_t mode) {
  memset(st, 0, sizeof *st);
  st->st_mode = mode;
  st->st_size = size;
  st->st_nlink = 1;
  st->st_ino = 7;
  st->st_dev = 7;
  st->st_blksize = 4096;
}
static int pstat(const char *path, struct stat *st) {
  char norm[4096];
  normal(path, norm, sizeof norm);
  int64_t s;
  mode_t m;
  if (vstat(norm, -1, &s, &m)) return -1;
  fill(st, s, m);
  return 0;
}
static int dstat(int fd, struct stat *st) {
  struct ofd *o = get(fd);
  int64_t s;
  mode_t m;
  if (!o) { errno = EBADF; return -1; }
  if (vstat(0, o->file, &s, &m)) return -1;
  fill(st, s, m);
  return 0;
}
int stat(const char *p, struct stat *st) { return hdr ? pstat(p, st) : (int)syscall(SYS_stat, p, st); }
int lstat(const char *p, struct stat *st) { return hdr ? pstat(p, st) : (int)syscall(SYS_lstat, p, st); }
int stat64(const char *p, struct stat64 *st) { return hdr ? pstat(p, (struct stat *)st) : (int)syscall(SYS_stat, p, st); }
int lstat64(const char *p, struct stat64 *st) { return hdr ? pstat(p, (struct stat *)st) : (int)syscall(SYS_lstat, p, st); }
int fstat(int fd, struct stat *st) { return mine(fd) ? dstat(fd, st) : (int)syscall(SYS_fstat, fd, st); }
int fstat64(int fd, struct stat64 *st) { return mine(fd) ? dstat(fd, (struct stat *)st) : (int)syscall(SYS_fstat, fd, st); }
int fstatat64(int d, const char *p, struct stat64 *st, int fl) {
  if (!hdr) return (int)syscall(SYS_newfstatat, d, p, st, fl);
  if ((fl & AT_EMPTY_PATH) && !*p) return fstat64(d, st);
  return pstat(p, (struct stat *)st);
}
int fstatat(int d, const char *p, struct stat *st, int fl) { return fstatat64(d, p, (struct stat64 *)st, fl); }
int statx(int d, const char *p0, int fl, unsigned mask, struct statx *st) {
  const char *volatile pv = p0; /* std probes with a null path */
  const char *p = pv;
  if (hdr && !p) { errno = EFAULT; return -1; }
  if (!hdr || !p || ((fl & AT_EMPTY_PATH) && !*p && !mine(d))) return (int)syscall(SYS_statx, d, p, fl, mask, st);
  struct stat s;
  int r = (fl & AT_EMPTY_PATH) && !*p ? dstat(d, &s) : pstat(p, &s);
  if (r) return -1;
  memset(st, 0, sizeof *st);
  st->stx_mask = STATX_BASIC_STATS;
  st->stx_mode = (uint16_t)s.st_mode;
  st->stx_size = (uint64_t)s.st_size;
  st->stx_nlink = 1;
  st->stx_blksize = 4096;
  st->stx_ino = 7;
  return 0;
}
int access(const char *p, int m) {
  (void)m;
  if (!hdr) return (int)syscall(SYS_access, p, m);
  struct stat s;
  return pstat(p, &s);
}
char *realpath(const char *p, char *out) {
  if (!hdr) return REAL(realpath)(p, out);
  struct stat s;
  if (pstat(p, &s)) return 0;
  char norm[4096];
  normal(p, norm, sizeof norm);
  if (!out) return strdup(norm);
  strcpy(out, norm);
  return out;
}
char *getcwd(char *buf, size_t n) {
  if (!hdr) return REAL(getcwd)(buf, n);
  if (!buf) return strdup("/sim");
  if (n < 5) { errno = ERANGE; return 0; }
  strcpy(buf, "/sim");
  return buf;
}
int unlink(const char *p) {
  if (!hdr) return (int)syscall(SYS_unlink, p);
  char norm[4096];
  normal(p, norm, sizeof norm);
  enter(C_OPEN);
  int i = lookup(norm);
  if (i < 0 || files[i].kind != 0) { errno = i < 0 ? ENOENT : EISDIR; return -1; }
  rec('U', i, 0, 0, norm, strlen(norm));
  files[i].path = 0;
  leave();
  return 0;
}
int remove(const char *p) { return unlink(p); }
int rename(const char *a, const char *b) {
  if (!hdr) return (int)syscall(SYS_rename, a, b);
  char na[4096], nb[4096];
  normal(a, na, sizeof na);
  normal(b, nb, sizeof nb);
  enter(C_OPEN);
  int i = lookup(na), j = lookup(nb);
  if (i < 0 || files[i].kind != 0) { errno = ENOENT; return -1; }
  if (isdir(nb)) { errno = EISDIR; return -1; }
  if (j >= 0 && files[j].open_errno) { errno = files[j].open_errno; return -1; }
  if (j >= 0) files[j].path = 0;
  files[i].path = amem(strlen(nb) + 1);
  strcpy(files[i].path, nb);
  rec('M', i, j, 0, nb, strlen(nb));
  leave();
  return 0;
}
int mkdir(const char *p, mode_t m) {
  (void)m;
  if (!hdr) return (int)syscall(SYS_mkdir, p, m);
  char norm[4096];
  normal(p, norm, sizeof norm);
  if (isdir(norm) || lookup(norm) >= 0 || nfiles >= MAXF) { errno = EEXIST; return -1; }
  int i = nfiles++;
  files[i].path = amem(strlen(norm) + 1);
  strcpy(files[i].path, norm);
  files[i].kind = 1;
  return 0;
}
static int vfcntl(int fd, int cmd, long arg) {
  struct ofd *o = get(fd);
  (void)arg;
  if (!o) { errno = EBADF; return -1; }
  if (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) {
    for (int i = 0; i < MAXFD; i++)
      if (fds[i] < 0) {
        fds[i] = fds[fd - FDBASE];
        o->refs++;
        return FDBASE + i;
      }
    errno = EMFILE;
    return -1;
  }
  if (cmd == F_GETFL) return o->flags;
  return 0;
}
int fcntl(int fd, int cmd, ...) {
  va_list ap;
  va_start(ap, cmd);
  long arg = va_arg(ap, long);
  va_end(ap);
  return mine(fd) ? vfcntl(fd, cmd, arg) : (int)syscall(SYS_fcntl, fd, cmd, arg);
}
int fcntl64(int fd, int cmd, ...) {
  va_list ap;
  va_start(ap, cmd);
  long arg = va_arg(ap, long);
  va_end(ap);
  return mine(fd) ? vfcntl(fd, cmd, arg) : (int)syscall(SYS_fcntl, fd, cmd, arg);
}
int dup(int fd) { return mine(fd) ? vfcntl(fd, F_DUPFD, 0) : (int)syscall(SYS_dup, fd); }
int flock(int fd, int op) { return mine(fd) ? 0 : (int)syscall(SYS_flock, fd, op); }
int fchmod(int fd, mode_t m) { return mine(fd) ? 0 : (int)syscall(SYS_fchmod, fd, m); }

/* ---- clocks and entropy */
int clock_gettime(clockid_t id, struct timespec *ts) {
  if (!hdr) return (int)syscall(SYS_clock_gettime, id, ts);
  if (id != CLOCK_REALTIME && id != CLOCK_MONOTONIC && id != CLOCK_REALTIME_COARSE && id != CLOCK_MONOTONIC_COARSE && id != CLOCK_BOOTTIME && id != CLOCK_MONOTONIC_RAW)
    return (int)syscall(SYS_clock_gettime, id, ts);
  struct fault *ft = enter(C_CLOCK);
  static int64_t mono = 1000000000;
  now_ns += 1000003;
  mono += 1000003;
  if (ft && ft->act == A_JUMP) {
    now_ns += ft->arg;
    if (ft->arg > 0) mono += ft->arg;
    if (now_ns < 0) now_ns = 0;
  }
  int wall = id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE;
  int64_t t = wall ? now_ns : mono;
  ts->tv_sec = t / 1000000000;
  ts->tv_nsec = t % 1000000000;
  rec('k', id, t, 0, 0, 0);
  leave();
  return 0;
}
int gettimeofday(struct timeval *tv, void *tz) {
  (void)tz;
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec;
  tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
int nanosleep(const struct timespec *a, struct timespec *b) {
  if (!hdr) return (int)syscall(SYS_nanosleep, a, b);
  now_ns += a->tv_sec * 1000000000ll + a->tv_nsec;
  if (b) memset(b, 0, sizeof *b);
  return 0;
}
int clock_nanosleep(clockid_t id, int fl, const struct timespec *a, struct timespec *b) {
  (void)id;
  if (fl == 0) return nanosleep(a, b);
  return 0;
}
ssize_t getrandom(void *buf, size_t n, unsigned fl) {
  if (!hdr) return syscall(SYS_getrandom, buf, n, fl);
  struct fault *ft = enter(C_RANDOM);
  if (ft && ft->act == A_ERRNO) {
    rec('g', (int64_t)ft->arg, 0, 0, 0, 0);
    leave();
    errno = (int)ft->arg;
    return -1;
  }
  for (size_t i = 0; i < n; i++) ((uint8_t *)buf)[i] = (uint8_t)(splitmix(&entropy) >> 24);
  rec('g', 0, (int64_t)n, 0, 0, 0);
  leave();
  return (ssize_t)n;
}
int getentropy(void *buf, size_t n) { return getrandom(buf, n, 0) < 0 ? -1 : 0; }

pid_t gettid(void) { return hdr ? 1 : (pid_t)syscall(SYS_gettid); }

/* ---- allocation */
extern void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void *, size_t), *__libc_memalign(size_t, size_t);
static int alloc_fails(size_t n) {
  if (!armed) return 0;
  uint32_t k = ++count[C_ALLOC];
  hdr->allocs = k;
  struct fault *f = find(C_ALLOC, k);
  if (!f) return 0;
  f->used = 1;
  rec('A', k, (int64_t)n, 0, 0, 0);
  errno = ENOMEM;
  return 1;
}
void *malloc(size_t n) { return alloc_fails(n) ? 0 : __libc_malloc(n); }
void *calloc(size_t a, size_t b) { return alloc_fails(a * b) ? 0 : __libc_calloc(a, b); }
void *realloc(void *p, size_t n) { return alloc_fails(n) ? 0 : __libc_realloc(p, n); }
int posix_memalign(void **out, size_t al, size_t n) {
  if (alloc_fails(n)) return ENOMEM;
  void *p = __libc_memalign(al, n);
  if (!p) return ENOMEM;
  *out = p;
  return 0;
}
void *aligned_alloc(size_t al, size_t n) { return alloc_fails(n) ? 0 : __libc_memalign(al, n); }
