/*
 * Interposition layer loaded with LD_PRELOAD into every simulated process.
 *
 * It is inert until sim_attach() is called.  After that every file operation
 * on a path below the attached root is announced to the scheduler over a
 * socket, and the scheduler decides when it happens and whether it succeeds.
 * The realtime clock is virtual: it reads what the scheduler last sent.
 */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#define MAXFD 4096

enum { OP_OPENR = 1, OP_OPENW = 2, OP_WRITE = 4, OP_META = 8, OP_STAT = 16,
       OP_CLOSE = 32, OP_SYNC = 64, OP_TRUNC = 128, OP_LIST = 256,
       OP_READ = 512 };

static int g_fd = -1;
static int g_mask = 0;
static char g_root[PATH_MAX];
static size_t g_rootlen = 0;
static char *g_path[MAXFD];
static unsigned char g_wr[MAXFD];
static int64_t g_clock_ns = 0;
static int g_clock_on = 0;
static int64_t g_tick = 0;
static __thread int g_inside = 0;
static long g_owner = 0;

#define REAL(ret, name, args) \
    static ret (*real_##name) args = NULL; \
    if (!real_##name) real_##name = (ret (*) args) dlsym(RTLD_NEXT, #name)

static ssize_t raw_write(int fd, const void *b, size_t n)
{ return syscall(SYS_write, fd, b, n); }
static ssize_t raw_read(int fd, void *b, size_t n)
{ return syscall(SYS_read, fd, b, n); }

static void die(void)
{ syscall(SYS_kill, getpid(), SIGKILL); for (;;) pause(); }

static void xsend(const void *b, size_t n)
{
    const char *p = b;
    while (n) {
        ssize_t k = raw_write(g_fd, p, n);
        if (k < 0) { if (errno == EINTR) continue; die(); }
        p += k; n -= k;
    }
}

static void xrecv(void *b, size_t n)
{
    char *p = b;
    while (n) {
        ssize_t k = raw_read(g_fd, p, n);
        if (k < 0) { if (errno == EINTR) continue; die(); }
        if (k == 0) die();
        p += k; n -= k;
    }
}

struct reply { int32_t action; int32_t err; int64_t arg; int64_t clock_ns; };

void sim_attach(int fd, const char *root, int mask)
{
    g_fd = fd;
    g_mask = mask;
    strncpy(g_root, root, sizeof g_root - 1);
    g_rootlen = strlen(g_root);
    g_owner = syscall(SYS_gettid);
    memset(g_path, 0, sizeof g_path);
}

void sim_detach(void) { g_fd = -1; }
/* the calling thread is the one whose operations are announced from now on */
void sim_own(void) { g_owner = syscall(SYS_gettid); }
void sim_set_mask(int m) { g_mask = m; }
void sim_set_clock(int64_t ns) { g_clock_ns = ns; g_clock_on = 1; g_tick = 0; }
int64_t sim_get_clock(void) { return g_clock_ns; }

static int under(const char *path, char *out)
{
    if (g_fd < 0 || g_inside || !path) return 0;
    if (path[0] == '/') {
        if (strlen(path) >= PATH_MAX) return 0;
        strcpy(out, path);
    } else {
        char cwd[PATH_MAX];
        if (syscall(SYS_getcwd, cwd, sizeof cwd) < 0) return 0;
        if (snprintf(out, PATH_MAX, "%s/%s", cwd, path) >= PATH_MAX) return 0;
    }
    /* squeeze "/./" and "//" */
    char *r = out, *w = out;
    while (*r) {
        if (r[0] == '/' && r[1] == '/') { r++; continue; }
        if (r[0] == '/' && r[1] == '.' && (r[2] == '/' || !r[2])) { r += 2; continue; }
        *w++ = *r++;
    }
    *w = 0;
    if (strncmp(out, g_root, g_rootlen) != 0) return 0;
    if (out[g_rootlen] != '/' && out[g_rootlen] != 0) return 0;
    return 1;
}

static int skip_fd(int fd) { return g_fd < 0 || fd < 0 || fd >= MAXFD || !g_path[fd] || g_inside; }

/* Announce an operation; returns what the scheduler decided. */
static struct reply ask(int cls, const char *op, const char *path,
                        const char *path2, int64_t off, int64_t len)
{
    struct reply rp = {0, 0, 0, 0};
    if (!(g_mask & cls)) return rp;
    if (syscall(SYS_gettid) != g_owner) return rp;
    g_inside = 1;
    int save = errno;
    char buf[2 * PATH_MAX + 256];
    int n = snprintf(buf + 4, sizeof buf - 4, "F\t%d\t%s\t%lld\t%lld\t%s\t%s", cls, op,
                     (long long) off, (long long) len,
                     path ? path + g_rootlen : "", path2 ? path2 + g_rootlen : "");
    uint32_t l = (uint32_t) n;
    memcpy(buf, &l, 4);
    xsend(buf, n + 4);
    xrecv(&rp, sizeof rp);
    if (rp.clock_ns) { g_clock_ns = rp.clock_ns; g_tick = 0; }
    errno = save;
    g_inside = 0;
    return rp;
}

enum { A_OK = 0, A_ERR = 1, A_SHORT = 2, A_TORN_DIE = 3 };

static void track(int fd, const char *path, int wr)
{
    if (fd < 0 || fd >= MAXFD) return;
    free(g_path[fd]);
    g_path[fd] = strdup(path);
    g_wr[fd] = wr;
}

#define DO_OPEN(call) do { \
    char p_[PATH_MAX]; \
    if (!under(path, p_)) return call; \
    int wr_ = (flags & (O_WRONLY | O_RDWR)) != 0; \
    struct reply rp_ = ask(wr_ ? OP_OPENW : OP_OPENR, \
        wr_ ? ((flags & O_TRUNC) ? "opentrunc" : ((flags & O_CREAT) ? "opencreate" : "openrw")) : "open", \
        p_, NULL, flags, 0); \
    if (rp_.action == A_ERR) { errno = rp_.err; return -1; } \
    int fd_ = call; \
    if (fd_ >= 0) track(fd_, p_, wr_ && (flags & (O_TRUNC | O_CREAT)) ? 2 : wr_); \
    return fd_; } while (0)

int open(const char *path, int flags, ...)
{
    REAL(int, open, (const char *, int, ...));
    mode_t m = 0; va_list ap; va_start(ap, flags);
    if (flags & (O_CREAT | O_TMPFILE)) m = va_arg(ap, mode_t);
    va_end(ap);
    DO_OPEN(real_open(path, flags, m));
}
int open64(const char *path, int flags, ...)
{
    REAL(int, open64, (const char *, int, ...));
    mode_t m = 0; va_list ap; va_start(ap, flags);
    if (flags & (O_CREAT | O_TMPFILE)) m = va_arg(ap, mode_t);
    va_end(ap);
    DO_OPEN(real_open64(path, flags, m));
}
int openat(int dfd, const char *path, int flags, ...)
{
    REAL(int, openat, (int, const char *, int, ...));
    mode_t m = 0; va_list ap; va_start(ap, flags);
    if (flags & (O_CREAT | O_TMPFILE)) m = va_arg(ap, mode_t);
    va_end(ap);
    if (dfd != AT_FDCWD && path && path[0] != '/') return real_openat(dfd, path, flags, m);
    DO_OPEN(real_openat(dfd, path, flags, m));
}
int openat64(int dfd, const char *path, int flags, ...)
{
    REAL(int, openat64, (int, const char *, int, ...));
    mode_t m = 0; va_list ap; va_start(ap, flags);
    if (flags & (O_CREAT | O_TMPFILE)) m = va_arg(ap, mode_t);
    va_end(ap);
    if (dfd != AT_FDCWD && path && path[0] != '/') return real_openat64(dfd, path, flags, m);
    DO_OPEN(real_openat64(dfd, path, flags, m));
}
int creat(const char *path, mode_t m)
{
    REAL(int, creat, (const char *, mode_t));
    int flags = O_WRONLY | O_CREAT | O_TRUNC;
    DO_OPEN(real_creat(path, m));
}

static const char *mode_op(const char *mode, int *wr)
{
    *wr = strpbrk(mode, "wa+") != NULL;
    return *wr ? (mode[0] == 'w' ? "opentrunc" : "openrw") : "open";
}

/*
 * Streams opened for writing are built on the calls above, so that what the C library
 * writes when it flushes a buffer is announced like any other write.
 */
#define MAXSTREAM 64
static FILE *g_stream[MAXSTREAM];
static int g_streamfd[MAXSTREAM];
static int g_streambad[4096];       /* a stream that failed to write stays failed */

static ssize_t ck_read(void *c, char *b, size_t n)
{ ssize_t k; do k = read((int)(intptr_t) c, b, n); while (k < 0 && errno == EINTR); return k; }
static ssize_t ck_write(void *c, const char *b, size_t n)
{
    int fd = (int)(intptr_t) c;
    size_t done = 0;
    if (fd < 4096 && g_streambad[fd]) { errno = g_streambad[fd]; return 0; }
    while (done < n) {
        ssize_t k = write(fd, b + done, n - done);
        if (k < 0) {
            if (errno == EINTR) continue;
            if (fd < 4096) g_streambad[fd] = errno;
            break;
        }
        done += k;
    }
    return done;
}
static int ck_seek(void *c, off64_t *o, int w)
{ off64_t k = lseek64((int)(intptr_t) c, *o, w); if (k < 0) return -1; *o = k; return 0; }
static int ck_close(void *c)
{
    int fd = (int)(intptr_t) c;
    for (int i = 0; i < MAXSTREAM; i++)
        if (g_stream[i] && g_streamfd[i] == fd) g_stream[i] = NULL;
    int bad = fd < 4096 ? g_streambad[fd] : 0;
    if (fd < 4096) g_streambad[fd] = 0;
    int r = close(fd);
    if (bad) { errno = bad; return -1; }
    return r;
}

static FILE *stream(const char *path, const char *mode)
{
    int plus = strchr(mode, '+') != NULL, flags;
    if (mode[0] == 'r') flags = plus ? O_RDWR : O_RDONLY;
    else flags = (plus ? O_RDWR : O_WRONLY) | O_CREAT | (mode[0] == 'a' ? O_APPEND : O_TRUNC);
    int fd = open(path, flags | O_CLOEXEC, 0666);
    if (fd < 0) return NULL;
    cookie_io_functions_t io = { ck_read, ck_write, ck_seek, ck_close };
    FILE *f = fopencookie((void *)(intptr_t) fd, mode, io);
    if (!f) { close(fd); return NULL; }
    for (int i = 0; i < MAXSTREAM; i++)
        if (!g_stream[i]) { g_stream[i] = f; g_streamfd[i] = fd; break; }
    return f;
}

#define DO_FOPEN(call) do { \
    char p_[PATH_MAX]; int wr_; \
    if (!under(path, p_)) return call; \
    const char *op_ = mode_op(mode, &wr_); \
    if (wr_) return stream(path, mode); \
    struct reply rp_ = ask(OP_OPENR, op_, p_, NULL, 0, 0); \
    if (rp_.action == A_ERR) { errno = rp_.err; return NULL; } \
    return call; } while (0)
FILE *fopen(const char *path, const char *mode)
{ REAL(FILE *, fopen, (const char *, const char *)); DO_FOPEN(real_fopen(path, mode)); }
FILE *fopen64(const char *path, const char *mode)
{ REAL(FILE *, fopen64, (const char *, const char *)); DO_FOPEN(real_fopen64(path, mode)); }
int fileno(FILE *f)
{
    REAL(int, fileno, (FILE *));
    for (int i = 0; i < MAXSTREAM; i++)
        if (g_stream[i] == f && f) return g_streamfd[i];
    return real_fileno(f);
}

int close(int fd)
{
    REAL(int, close, (int));
    if (skip_fd(fd)) {
        return real_close(fd);
    }
    char *p = g_path[fd];
    struct reply rp = {0, 0, 0, 0};
    if (g_wr[fd]) rp = ask(OP_CLOSE, "close", p, NULL, 0, 0);
    if (g_wr[fd] == 2 && g_clock_on) {
        /* files carry virtual modification times */
        struct timespec ts[2];
        ts[0].tv_sec = ts[1].tv_sec = g_clock_ns / 1000000000LL;
        ts[0].tv_nsec = ts[1].tv_nsec = g_clock_ns % 1000000000LL;
        syscall(SYS_utimensat, fd, NULL, ts, 0);
    }
    g_path[fd] = NULL;
    free(p);
    int r = real_close(fd);
    if (rp.action == A_ERR) { errno = rp.err; return -1; }
    return r;
}

#define DO_WRITE(opname, off_, callfull, callpart) do { \
    if (skip_fd(fd)) return callfull; \
    g_wr[fd] = 2; \
    struct reply rp_ = ask(OP_WRITE, opname, g_path[fd], NULL, (int64_t) off_, (int64_t) n); \
    if (rp_.action == A_ERR) { errno = rp_.err; return -1; } \
    if (rp_.action == A_SHORT || rp_.action == A_TORN_DIE) { \
        size_t k_ = (size_t) rp_.arg < n ? (size_t) rp_.arg : n; \
        ssize_t r_ = k_ ? callpart : 0; \
        if (rp_.action == A_TORN_DIE) die(); \
        return r_; } \
    return callfull; } while (0)

ssize_t write(int fd, const void *b, size_t n)
{ REAL(ssize_t, write, (int, const void *, size_t));
  DO_WRITE("write", -1, real_write(fd, b, n), real_write(fd, b, k_)); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o)
{ REAL(ssize_t, pwrite, (int, const void *, size_t, off_t));
  DO_WRITE("pwrite", o, real_pwrite(fd, b, n, o), real_pwrite(fd, b, k_, o)); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o)
{ REAL(ssize_t, pwrite64, (int, const void *, size_t, off64_t));
  DO_WRITE("pwrite", o, real_pwrite64(fd, b, n, o), real_pwrite64(fd, b, k_, o)); }
ssize_t writev(int fd, const struct iovec *v, int c)
{
    REAL(ssize_t, writev, (int, const struct iovec *, int));
    if (skip_fd(fd)) return real_writev(fd, v, c);
    g_wr[fd] = 2;
    size_t n = 0; for (int i = 0; i < c; i++) n += v[i].iov_len;
    struct reply rp = ask(OP_WRITE, "writev", g_path[fd], NULL, -1, (int64_t) n);
    if (rp.action == A_ERR) { errno = rp.err; return -1; }
    if (rp.action == A_TORN_DIE) die();
    return real_writev(fd, v, c);
}

ssize_t read(int fd, void *b, size_t n)
{ REAL(ssize_t, read, (int, void *, size_t));
  if (skip_fd(fd)) return real_read(fd, b, n);
  struct reply rp = ask(OP_READ, "read", g_path[fd], NULL, -1, (int64_t) n);
  if (rp.action == A_ERR) { errno = rp.err; return -1; }
  return real_read(fd, b, n); }
ssize_t pread64(int fd, void *b, size_t n, off64_t o)
{ REAL(ssize_t, pread64, (int, void *, size_t, off64_t));
  if (skip_fd(fd)) return real_pread64(fd, b, n, o);
  struct reply rp = ask(OP_READ, "pread", g_path[fd], NULL, (int64_t) o, (int64_t) n);
  if (rp.action == A_ERR) { errno = rp.err; return -1; }
  return real_pread64(fd, b, n, o); }
ssize_t pread(int fd, void *b, size_t n, off_t o)
{ REAL(ssize_t, pread, (int, void *, size_t, off_t));
  if (skip_fd(fd)) return real_pread(fd, b, n, o);
  struct reply rp = ask(OP_READ, "pread", g_path[fd], NULL, (int64_t) o, (int64_t) n);
  if (rp.action == A_ERR) { errno = rp.err; return -1; }
  return real_pread(fd, b, n, o); }

#define DO_FDOP(cls, opname, off_, call) do { \
    if (skip_fd(fd)) return call; \
    struct reply rp_ = ask(cls, opname, g_path[fd], NULL, (int64_t) off_, 0); \
    if (rp_.action == A_ERR) { errno = rp_.err; return -1; } \
    if (rp_.action == A_TORN_DIE) die(); \
    return call; } while (0)
int ftruncate(int fd, off_t o)
{ REAL(int, ftruncate, (int, off_t)); DO_FDOP(OP_TRUNC, "ftruncate", o, real_ftruncate(fd, o)); }
int ftruncate64(int fd, off64_t o)
{ REAL(int, ftruncate64, (int, off64_t)); DO_FDOP(OP_TRUNC, "ftruncate", o, real_ftruncate64(fd, o)); }
int fsync(int fd)
{ REAL(int, fsync, (int)); DO_FDOP(OP_SYNC, "fsync", 0, real_fsync(fd)); }
int fdatasync(int fd)
{ REAL(int, fdatasync, (int)); DO_FDOP(OP_SYNC, "fdatasync", 0, real_fdatasync(fd)); }

#define DO_META(opname, pathv, call) do { \
    char p_[PATH_MAX]; \
    if (!under(pathv, p_)) return call; \
    struct reply rp_ = ask(OP_META, opname, p_, NULL, 0, 0); \
    if (rp_.action == A_ERR) { errno = rp_.err; return -1; } \
    if (rp_.action == A_TORN_DIE) die(); \
    return call; } while (0)
int mkdir(const char *path, mode_t m)
{ REAL(int, mkdir, (const char *, mode_t)); DO_META("mkdir", path, real_mkdir(path, m)); }
int rmdir(const char *path)
{ REAL(int, rmdir, (const char *)); DO_META("rmdir", path, real_rmdir(path)); }
int unlink(const char *path)
{ REAL(int, unlink, (const char *)); DO_META("unlink", path, real_unlink(path)); }
int truncate(const char *path, off_t o)
{ REAL(int, truncate, (const char *, off_t)); DO_META("truncate", path, real_truncate(path, o)); }
int link(const char *a, const char *path)
{ REAL(int, link, (const char *, const char *)); DO_META("link", path, real_link(a, path)); }
int symlink(const char *a, const char *path)
{ REAL(int, symlink, (const char *, const char *)); DO_META("symlink", path, real_symlink(a, path)); }

#define DO_RENAME(call) do { \
    char pa_[PATH_MAX], pb_[PATH_MAX]; \
    if (!under(b, pb_)) return call; \
    if (!under(a, pa_)) strcpy(pa_, pb_); \
    struct reply rp_ = ask(OP_META, "rename", pa_, pb_, 0, 0); \
    if (rp_.action == A_ERR) { errno = rp_.err; return -1; } \
    if (rp_.action == A_TORN_DIE) die(); \
    int r_ = call; \
    if (r_ == 0) for (int i_ = 0; i_ < MAXFD; i_++) \
        if (g_path[i_] && !strcmp(g_path[i_], pa_)) { free(g_path[i_]); g_path[i_] = strdup(pb_); } \
    return r_; } while (0)
int rename(const char *a, const char *b)
{ REAL(int, rename, (const char *, const char *)); DO_RENAME(real_rename(a, b)); }
int renameat(int da, const char *a, int db, const char *b)
{ REAL(int, renameat, (int, const char *, int, const char *)); DO_RENAME(real_renameat(da, a, db, b)); }

#define DO_STAT(call) do { \
    char p_[PATH_MAX]; \
    if (under(path, p_)) { \
        struct reply rp_ = ask(OP_STAT, "stat", p_, NULL, 0, 0); \
        if (rp_.action == A_ERR) { errno = rp_.err; return -1; } } \
    return call; } while (0)
int stat(const char *path, struct stat *st)
{ REAL(int, stat, (const char *, struct stat *)); DO_STAT(real_stat(path, st)); }
int stat64(const char *path, struct stat64 *st)
{ REAL(int, stat64, (const char *, struct stat64 *)); DO_STAT(real_stat64(path, st)); }
int lstat(const char *path, struct stat *st)
{ REAL(int, lstat, (const char *, struct stat *)); DO_STAT(real_lstat(path, st)); }
int lstat64(const char *path, struct stat64 *st)
{ REAL(int, lstat64, (const char *, struct stat64 *)); DO_STAT(real_lstat64(path, st)); }
int fstatat(int d, const char *path, struct stat *st, int f)
{ REAL(int, fstatat, (int, const char *, struct stat *, int)); DO_STAT(real_fstatat(d, path, st, f)); }
int fstatat64(int d, const char *path, struct stat64 *st, int f)
{ REAL(int, fstatat64, (int, const char *, struct stat64 *, int)); DO_STAT(real_fstatat64(d, path, st, f)); }
int access(const char *path, int m)
{ REAL(int, access, (const char *, int)); DO_STAT(real_access(path, m)); }

DIR *opendir(const char *path)
{
    REAL(DIR *, opendir, (const char *));
    char p_[PATH_MAX];
    if (under(path, p_)) {
        struct reply rp = ask(OP_LIST, "list", p_, NULL, 0, 0);
        if (rp.action == A_ERR) { errno = rp.err; return NULL; }
    }
    g_inside++;
    DIR *d = real_opendir(path);
    g_inside--;
    return d;
}

/* Virtual realtime clock. */
static int64_t vnow(void) { return g_clock_ns + (++g_tick) * 1000; }
int clock_gettime(clockid_t id, struct timespec *ts)
{
    REAL(int, clock_gettime, (clockid_t, struct timespec *));
    if (g_clock_on && id == CLOCK_REALTIME && ts) {
        int64_t v = vnow();
        ts->tv_sec = v / 1000000000LL; ts->tv_nsec = v % 1000000000LL;
        return 0;
    }
    return real_clock_gettime(id, ts);
}
time_t time(time_t *t)
{
    REAL(time_t, time, (time_t *));
    if (g_clock_on) { time_t v = (time_t) (vnow() / 1000000000LL); if (t) *t = v; return v; }
    return real_time(t);
}
int gettimeofday(struct timeval *tv, void *tz)
{
    REAL(int, gettimeofday, (struct timeval *, void *));
    if (g_clock_on && tv) {
        int64_t v = vnow();
        tv->tv_sec = v / 1000000000LL; tv->tv_usec = (v % 1000000000LL) / 1000;
        return 0;
    }
    return real_gettimeofday(tv, tz);
}

/* Sleeping gives the processor back to the scheduler for simulated time. */
static int nap(int64_t ns)
{
    if (g_fd < 0 || g_inside || syscall(SYS_gettid) != g_owner) return 0;
    g_inside = 1;
    int save = errno;
    char buf[128];
    int n = snprintf(buf + 4, sizeof buf - 4, "F\t0\tnap\t%lld\t0\t\t", (long long) ns);
    uint32_t l = (uint32_t) n;
    struct reply rp;
    memcpy(buf, &l, 4);
    xsend(buf, n + 4);
    xrecv(&rp, sizeof rp);
    if (rp.clock_ns) { g_clock_ns = rp.clock_ns; g_tick = 0; }
    errno = save;
    g_inside = 0;
    return 1;
}
int nanosleep(const struct timespec *a, struct timespec *b)
{
    REAL(int, nanosleep, (const struct timespec *, struct timespec *));
    if (a && nap(a->tv_sec * 1000000000LL + a->tv_nsec)) return 0;
    return real_nanosleep(a, b);
}
int usleep(useconds_t u)
{
    REAL(int, usleep, (useconds_t));
    if (nap(u * 1000LL)) return 0;
    return real_usleep(u);
}
unsigned sleep(unsigned s)
{
    REAL(unsigned, sleep, (unsigned));
    if (nap(s * 1000000000LL)) return 0;
    return real_sleep(s);
}
