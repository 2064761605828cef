/* Simulated disk: interposes the libc calls that touch files below one armed
 * directory, numbers them, and injects the faults the plan asks for.
 * Everything outside the armed directory passes straight through. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

#define MAXFD 4096
#define MAXFAULT 64
#define LOGMAX 65536

enum { OP_OPEN = 1, OP_WRITE, OP_TRUNC, OP_SYNC, OP_CLOSE, OP_RENAME, OP_UNLINK,
       OP_READ, OP_MKDIR, OP_LINK, OP_NKINDS };
/* fault kinds */
enum { F_ERRNO = 1,      /* op fails with errno arg, once                      */
       F_ERRNO_FROM,     /* every op of the class from here on fails with arg   */
       F_SHORT,          /* read/write transfers only arg permille (>=1 byte)  */
       F_EINTR,          /* op returns EINTR once                              */
       F_CRASH_BEFORE,   /* process dies just before the op                    */
       F_CRASH_AFTER,    /* process dies right after the op                    */
       F_TORN };         /* write arg permille of the bytes, then process dies */

static int armed;
static char prefix[4096];
static size_t prefix_len;
static unsigned char tracked[MAXFD];
static long opno;                       /* mutating/reading ops seen while armed */
static int count_reads;
static struct { long at; int kind; int arg; int opk; int fired; } faults[MAXFAULT];
static int nfaults;
static long fired_by_kind[16];
static long ops_by_kind[OP_NKINDS];
static unsigned char oplog[LOGMAX];
static int persist_errno;

#define REAL(ret, name, ...) \
    static ret (*real_##name)(__VA_ARGS__); \
    if (!real_##name) real_##name = dlsym(RTLD_NEXT, #name)

static int under(const char *p)
{
    char buf[8192];
    if (!armed || !p) return 0;
    if (p[0] != '/') {
        if (!getcwd(buf, sizeof buf / 2)) return 0;
        size_t n = strlen(buf);
        if (n + strlen(p) + 2 >= sizeof buf) return 0;
        buf[n] = '/';
        strcpy(buf + n + 1, p);
        p = buf;
    }
    return strncmp(p, prefix, prefix_len) == 0;
}

static int fd_ok(int fd) { return armed && fd >= 0 && fd < MAXFD && tracked[fd]; }

/* decide what happens at this op. returns fault kind or 0; *arg filled */
static int step(int kind, int *arg)
{
    long me = opno++;
    ops_by_kind[kind]++;
    if (me < LOGMAX) oplog[me] = (unsigned char)kind;
    if (persist_errno && (kind == OP_WRITE || kind == OP_TRUNC || kind == OP_SYNC ||
                          kind == OP_OPEN || kind == OP_RENAME)) {
        *arg = persist_errno;
        fired_by_kind[F_ERRNO_FROM]++;
        return F_ERRNO;
    }
    for (int i = 0; i < nfaults; i++) {
        /* `at` counts all operations, or those of one kind when opk is set */
        long here = faults[i].opk ? ops_by_kind[faults[i].opk] - 1 : me;
        if (faults[i].at == here && (!faults[i].opk || faults[i].opk == kind) && !faults[i].fired) {
            faults[i].fired = 1;
            fired_by_kind[faults[i].kind]++;
            *arg = faults[i].arg;
            if (faults[i].kind == F_ERRNO_FROM) {
                persist_errno = faults[i].arg;
                return F_ERRNO;
            }
            if (faults[i].kind == F_EINTR) { *arg = EINTR; return F_ERRNO; }
            if (faults[i].kind == F_CRASH_BEFORE) _exit(200);
            return faults[i].kind;
        }
    }
    return 0;
}

static void after(int f) { if (f == F_CRASH_AFTER || f == F_TORN) _exit(200); }

static size_t part(size_t n, int permille)
{
    size_t k = n * (size_t)permille / 1000;
    if (k >= n) k = n ? n - 1 : 0;
    return k;
}

/* ---- control ---- */
void simdisk_arm(const char *dir, int reads)
{
    snprintf(prefix, sizeof prefix, "%s/", dir);
    prefix_len = strlen(prefix);
    memset(tracked, 0, sizeof tracked);
    memset(fired_by_kind, 0, sizeof fired_by_kind);
    memset(ops_by_kind, 0, sizeof ops_by_kind);
    opno = 0; nfaults = 0; persist_errno = 0; count_reads = reads;
    armed = 1;
}
void simdisk_disarm(void) { armed = 0; persist_errno = 0; nfaults = 0; }
void simdisk_fault(long at, int kind, int arg, int opk)
{
    if (nfaults < MAXFAULT) {
        faults[nfaults].at = at; faults[nfaults].kind = kind;
        faults[nfaults].arg = arg; faults[nfaults].opk = opk; faults[nfaults].fired = 0;
        nfaults++;
    }
}
long simdisk_ops(void) { return opno; }
long simdisk_fired(int kind) { return kind < 16 ? fired_by_kind[kind] : 0; }
long simdisk_ops_of(int kind) { return kind < OP_NKINDS ? ops_by_kind[kind] : 0; }
int simdisk_opkind(long i) { return i >= 0 && i < LOGMAX && i < opno ? oplog[i] : 0; }

/* ---- interposed calls ---- */
static int do_open(int (*fn)(const char *, int, ...), const char *path, int flags, mode_t mode)
{
    if (!under(path)) return fn(path, flags, mode);
    int arg, f = 0;
    int mut = (flags & (O_CREAT | O_TRUNC)) != 0;
    if (mut || count_reads) f = step(OP_OPEN, &arg);
    if (f == F_ERRNO) { errno = arg; return -1; }
    int fd = fn(path, flags, mode);
    if (fd >= 0 && fd < MAXFD) tracked[fd] = 1;
    after(f);
    return fd;
}
int open(const char *path, int flags, ...)
{
    mode_t m = 0; va_list ap;
    if (flags & (O_CREAT | O_TMPFILE)) { va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); }
    static int (*r)(const char *, int, ...);
    if (!r) r = dlsym(RTLD_NEXT, "open");
    return do_open(r, path, flags, m);
}
int open64(const char *path, int flags, ...)
{
    mode_t m = 0; va_list ap;
    if (flags & (O_CREAT | O_TMPFILE)) { va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); }
    static int (*r)(const char *, int, ...);
    if (!r) r = dlsym(RTLD_NEXT, "open64");
    return do_open(r, path, flags, m);
}
static int do_openat(int (*fn)(int, const char *, int, ...), int d, const char *path, int flags, mode_t mode)
{
    if (!(path && (path[0] == '/' || d == AT_FDCWD) && under(path))) return fn(d, path, flags, mode);
    int arg, f = 0;
    int mut = (flags & (O_CREAT | O_TRUNC)) != 0;
    if (mut || count_reads) f = step(OP_OPEN, &arg);
    if (f == F_ERRNO) { errno = arg; return -1; }
    int fd = fn(d, path, flags, mode);
    if (fd >= 0 && fd < MAXFD) tracked[fd] = 1;
    after(f);
    return fd;
}
int openat(int d, const char *path, int flags, ...)
{
    mode_t m = 0; va_list ap;
    if (flags & (O_CREAT | O_TMPFILE)) { va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); }
    static int (*r)(int, const char *, int, ...);
    if (!r) r = dlsym(RTLD_NEXT, "openat");
    return do_openat(r, d, path, flags, m);
}
int openat64(int d, const char *path, int flags, ...)
{
    mode_t m = 0; va_list ap;
    if (flags & (O_CREAT | O_TMPFILE)) { va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); }
    static int (*r)(int, const char *, int, ...);
    if (!r) r = dlsym(RTLD_NEXT, "openat64");
    return do_openat(r, d, path, flags, m);
}
int creat(const char *path, mode_t mode) { return open(path, O_CREAT | O_WRONLY | O_TRUNC, mode); }

int close(int fd)
{
    REAL(int, close, int);
    if (!fd_ok(fd)) return real_close(fd);
    int arg, f = step(OP_CLOSE, &arg);
    tracked[fd] = 0;
    int r = real_close(fd);
    after(f);
    if (f == F_ERRNO && arg != EINTR) { errno = arg; return -1; }
    return r;
}
ssize_t write(int fd, const void *b, size_t n)
{
    REAL(ssize_t, write, int, const void *, size_t);
    if (!fd_ok(fd)) return real_write(fd, b, n);
    int arg, f = step(OP_WRITE, &arg);
    if (f == F_ERRNO) { errno = arg; return -1; }
    if (f == F_SHORT) { size_t k = part(n, arg); if (!k) k = n ? 1 : 0; return real_write(fd, b, k); }
    if (f == F_TORN) { size_t k = part(n, arg); if (k) (void)!real_write(fd, b, k); _exit(200); }
    ssize_t r = real_write(fd, b, n);
    after(f);
    return r;
}
static ssize_t do_pwrite(ssize_t (*fn)(int, const void *, size_t, off_t), int fd, const void *b, size_t n, off_t o)
{
    if (!fd_ok(fd)) return fn(fd, b, n, o);
    int arg, f = step(OP_WRITE, &arg);
    if (f == F_ERRNO) { errno = arg; return -1; }
    if (f == F_SHORT) { size_t k = part(n, arg); if (!k) k = n ? 1 : 0; return fn(fd, b, k, o); }
    if (f == F_TORN) { size_t k = part(n, arg); if (k) (void)!fn(fd, b, k, o); _exit(200); }
    ssize_t r = fn(fd, b, n, o);
    after(f);
    return r;
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o)
{ REAL(ssize_t, pwrite, int, const void *, size_t, off_t); return do_pwrite(real_pwrite, fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o)
{ REAL(ssize_t, pwrite64, int, const void *, size_t, off_t); return do_pwrite(real_pwrite64, fd, b, n, o); }
ssize_t writev(int fd, const struct iovec *v, int c)
{
    REAL(ssize_t, writev, int, const struct iovec *, int);
    if (!fd_ok(fd)) return real_writev(fd, v, c);
    return c > 0 ? write(fd, v[0].iov_base, v[0].iov_len) : 0;
}
ssize_t read(int fd, void *b, size_t n)
{
    REAL(ssize_t, read, int, void *, size_t);
    if (!fd_ok(fd) || !count_reads) return real_read(fd, b, n);
    int arg, f = step(OP_READ, &arg);
    if (f == F_ERRNO) { errno = arg; return -1; }
    if (f == F_SHORT && n > 1) { size_t k = part(n, arg); if (!k) k = 1; return real_read(fd, b, k); }
    return real_read(fd, b, n);
}
static ssize_t do_pread(ssize_t (*fn)(int, void *, size_t, off_t), int fd, void *b, size_t n, off_t o)
{
    if (!fd_ok(fd) || !count_reads) return fn(fd, b, n, o);
    int arg, f = step(OP_READ, &arg);
    if (f == F_ERRNO) { errno = arg; return -1; }
    if (f == F_SHORT && n > 1) { size_t k = part(n, arg); if (!k) k = 1; return fn(fd, b, k, o); }
    return fn(fd, b, n, o);
}
ssize_t pread(int fd, void *b, size_t n, off_t o)
{ REAL(ssize_t, pread, int, void *, size_t, off_t); return do_pread(real_pread, fd, b, n, o); }
ssize_t pread64(int fd, void *b, size_t n, off_t o)
{ REAL(ssize_t, pread64, int, void *, size_t, off_t); return do_pread(real_pread64, fd, b, n, o); }

static int do_trunc(int (*fn)(int, off_t), int fd, off_t o)
{
    if (!fd_ok(fd)) return fn(fd, o);
    int arg, f = step(OP_TRUNC, &arg);
    if (f == F_ERRNO) { errno = arg; return -1; }
    int r = fn(fd, o);
    after(f);
    return r;
}
int ftruncate(int fd, off_t o) { REAL(int, ftruncate, int, off_t); return do_trunc(real_ftruncate, fd, o); }
int ftruncate64(int fd, off_t o) { REAL(int, ftruncate64, int, off_t); return do_trunc(real_ftruncate64, fd, o); }
int fsync(int fd)
{
    REAL(int, fsync, int);
    if (!fd_ok(fd)) return real_fsync(fd);
    int arg, f = step(OP_SYNC, &arg);
    if (f == F_ERRNO) { errno = arg; return -1; }
    after(f);
    return 0;
}
int fdatasync(int fd) { return fsync(fd); }
int rename(const char *a, const char *b)
{
    REAL(int, rename, const char *, const char *);
    if (!under(a) && !under(b)) return real_rename(a, b);
    int arg, f = step(OP_RENAME, &arg);
    if (f == F_ERRNO) { errno = arg; return -1; }
    int r = real_rename(a, b);
    after(f);
    return r;
}
int unlink(const char *a)
{
    REAL(int, unlink, const char *);
    if (!under(a)) return real_unlink(a);
    int arg, f = step(OP_UNLINK, &arg);
    if (f == F_ERRNO) { errno = arg; return -1; }
    int r = real_unlink(a);
    after(f);
    return r;
}
/* kernel-side copies cannot be split into simulated ops: refuse, callers fall back */
ssize_t sendfile(int o, int i, off_t *off, size_t n)
{
    REAL(ssize_t, sendfile, int, int, off_t *, size_t);
    if (!fd_ok(o)) return real_sendfile(o, i, off, n);
    errno = ENOTSOCK; return -1;
}
ssize_t copy_file_range(int i, off_t *io, int o, off_t *oo, size_t n, unsigned fl)
{
    REAL(ssize_t, copy_file_range, int, off_t *, int, off_t *, size_t, unsigned);
    if (!fd_ok(o)) return real_copy_file_range(i, io, o, oo, n, fl);
    errno = EXDEV; return -1;
}
