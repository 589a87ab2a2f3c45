/* Fault injection at the system-call interface, confined to one directory.
 *
 * Preloaded into the checking process; inert until mc_arm() is called, which
 * only forked children do.  Counts and, as told, fails the calls that create,
 * write, close, rename or remove files below the directory. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { OFF, NTH, BYTE, SHORT };
static int mode = OFF, target, err, do_kill, once;
static unsigned long mask;
static long offset;
static char dir[PATH_MAX];
static size_t dirlen;
static int calls, files, fired;
static int *report; /* shared: [0] calls, [1] files, [2] fired, [3..] kinds */
#define MAXFD 256
static int idx[MAXFD]; /* file number + 1 of fds open for writing */
static long pos[MAXFD];

/* mode NTH: every call whose bit is set in `off` fails */
void mc_arm(const char *d, int m, int t, long off, int e, int k, int *rep) {
    mask = (unsigned long)off;
    strncpy(dir, d, sizeof dir - 1);
    dirlen = strlen(dir);
    target = t; offset = off; err = e; do_kill = k; report = rep;
    calls = files = fired = once = 0;
    memset(idx, 0, sizeof idx);
    memset(pos, 0, sizeof pos);
    mode = m;
}

static int inside(const char *p) {
    return mode != OFF && p && !strncmp(p, dir, dirlen) && (p[dirlen] == '/' || p[dirlen] == 0);
}
static int tracked(int fd) { return mode != OFF && fd >= 0 && fd < MAXFD && idx[fd]; }

static void fire(void) {
    fired++;
    if (report) report[2] = fired;
    if (do_kill) { kill(getpid(), SIGKILL); for (;;) pause(); }
}

/* one counted call; true if it shall fail */
static int fault(char kind) {
    int n = calls++;
    if (report) { report[0] = calls; if (n < 200) report[8 + n] = kind; }
    if (mode == NTH && n < 63 && (mask >> n & 1)) { fire(); errno = err; return 1; }
    return 0;
}

#define REAL(name) ({ static __typeof__(&name) f; if (!f) f = (__typeof__(&name))dlsym(RTLD_NEXT, #name); f; })

static void opened(int fd, int flags) {
    if (fd >= 0 && fd < MAXFD && (flags & O_ACCMODE) != O_RDONLY) {
        idx[fd] = ++files;
        pos[fd] = 0;
        if (report) report[1] = files;
    }
}

#define OPENER(name)                                                          \
    int name(const char *path, int flags, ...) {                              \
        mode_t m = 0;                                                         \
        if (flags & (O_CREAT | O_TMPFILE)) {                                  \
            va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); \
        }                                                                     \
        int w = inside(path) && (flags & O_ACCMODE) != O_RDONLY;              \
        if (w && fault('o')) return -1;                                       \
        int fd = REAL(name)(path, flags, m);                                  \
        if (w) opened(fd, flags);                                             \
        return fd;                                                            \
    }
OPENER(open)
OPENER(open64)

#define OPENERAT(name)                                                        \
    int name(int at, const char *path, int flags, ...) {                      \
        mode_t m = 0;                                                         \
        if (flags & (O_CREAT | O_TMPFILE)) {                                  \
            va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); \
        }                                                                     \
        int w = inside(path) && (flags & O_ACCMODE) != O_RDONLY;              \
        if (w && fault('o')) return -1;                                       \
        int fd = REAL(name)(at, path, flags, m);                              \
        if (w) opened(fd, flags);                                             \
        return fd;                                                            \
    }
OPENERAT(openat)
OPENERAT(openat64)

ssize_t write(int fd, const void *buf, size_t n) {
    if (!tracked(fd)) return REAL(write)(fd, buf, n);
    if (fault('w')) return -1;
    if ((mode == BYTE || mode == SHORT) && idx[fd] == target + 1 && !(mode == SHORT && once)) {
        if (pos[fd] + (long)n > offset) {
            size_t k = offset > pos[fd] ? offset - pos[fd] : 0;
            if (mode == SHORT) { once = 1; if (k == 0) k = n; }
            if (k == 0 || do_kill) {
                if (k) (void)!REAL(write)(fd, buf, k);
                fire();
                errno = err;
                return -1;
            }
            n = k;
        }
    }
    ssize_t r = REAL(write)(fd, buf, n);
    if (r > 0) pos[fd] += r;
    return r;
}

ssize_t writev(int fd, const struct iovec *v, int c) {
    if (!tracked(fd)) return REAL(writev)(fd, v, c);
    ssize_t total = 0;
    for (int i = 0; i < c; i++) {
        ssize_t r = write(fd, v[i].iov_base, v[i].iov_len);
        if (r < 0) return total ? total : -1;
        total += r;
        if ((size_t)r < v[i].iov_len) break;
    }
    return total;
}

int close(int fd) {
    if (!tracked(fd)) return REAL(close)(fd);
    idx[fd] = 0;
    int f = fault('c');
    int r = REAL(close)(fd);
    if (f) { errno = err; return -1; }
    return r;
}

int rename(const char *a, const char *b) {
    if ((inside(a) || inside(b)) && fault('r')) return -1;
    return REAL(rename)(a, b);
}
int renameat(int x, const char *a, int y, const char *b) {
    if ((inside(a) || inside(b)) && fault('r')) return -1;
    return REAL(renameat)(x, a, y, b);
}
int unlink(const char *a) {
    if (inside(a) && fault('u')) return -1;
    return REAL(unlink)(a);
}
int unlinkat(int d, const char *a, int f) {
    if (inside(a) && fault('u')) return -1;
    return REAL(unlinkat)(d, a, f);
}
int mkdir(const char *a, mode_t m) {
    if (inside(a) && fault('m')) return -1;
    return REAL(mkdir)(a, m);
}
int fsync(int fd) {
    if (tracked(fd) && fault('f')) return -1;
    return REAL(fsync)(fd);
}
int ftruncate64(int fd, off64_t n) {
    if (tracked(fd) && fault('t')) return -1;
    return REAL(ftruncate64)(fd, n);
}
int ftruncate(int fd, off_t n) {
    if (tracked(fd) && fault('t')) return -1;
    return REAL(ftruncate)(fd, n);
}
