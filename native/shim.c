/* Fault injection for the outputs of the observed program (LD_PRELOAD).
   SHIM_ROOT: operations on paths below it, and on descriptors opened there, are counted; with
   SHIM_STDOUT=1 also writes to descriptor 1. SHIM_AT=n, SHIM_MODE, SHIM_ERR: what happens at
   the n-th counted operation. SHIM_LOG: one line per counted operation. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

static const char *root, *mode;
static int logfd = -1, err_no, use_stdout, inited;
static long at;
static atomic_long count;
static atomic_char fds[4096];

__attribute__((constructor)) static void init(void)
{
    if (inited) return;
    inited = 1;
    root = getenv("SHIM_ROOT");
    mode = getenv("SHIM_MODE");
    if (!mode) mode = "none";
    const char *s = getenv("SHIM_AT");
    at = s ? atol(s) : 0;
    s = getenv("SHIM_ERR");
    err_no = s ? atoi(s) : EIO;
    use_stdout = getenv("SHIM_STDOUT") != NULL;
    s = getenv("SHIM_LOG");
    if (s) logfd = (int)syscall(SYS_openat, AT_FDCWD, s, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
}

static int below(const char *p)
{
    char full[2 * PATH_MAX], cwd[PATH_MAX];
    init();
    if (!root || !p) return 0;
    if (p[0] != '/') {
        if (!getcwd(cwd, sizeof cwd)) return 0;
        snprintf(full, sizeof full, "%s/%s", cwd, p);
        p = full;
    }
    size_t n = strlen(root);
    return strncmp(p, root, n) == 0 && (p[n] == '/' || p[n] == 0);
}

static int counted_fd(int fd)
{
    init();
    if (fd == 1) return use_stdout;
    return fd >= 0 && fd < 4096 && fds[fd];
}

enum { GO, FAIL, SHORT, ZERO };
#include <signal.h>
#include <time.h>

/* "kill" dies before the operation, "killmid" after half of it (or after all of it when it
   cannot be split); "delay" pauses before every operation and splits writes. */
static _Thread_local int die_after;
static ssize_t done(ssize_t r)
{
    int e = errno;
    if (die_after) kill(getpid(), SIGKILL);
    errno = e;
    return r;
}

static const char *fdpath(int fd)
{
    static _Thread_local char b[PATH_MAX];
    char l[64];
    snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
    ssize_t k = readlink(l, b, sizeof b - 1);
    b[k < 0 ? 0 : k] = 0;
    return b;
}

/* Decides the fate of the next counted operation. */
static int next(const char *what, long len, const char *path)
{
    long n = atomic_fetch_add(&count, 1) + 1;
    int r = GO, is_write = len >= 0;
    die_after = 0;
    if (!strcmp(mode, "delay")) {
        struct timespec ts = {0, (long)((n * 2654435761u ^ (unsigned long)getpid() * 40503u) % 1500000)};
        nanosleep(&ts, NULL);
        if (len > 64) r = SHORT;
    }
    if (at && n == at && !strncmp(mode, "kill", 4)) {
        if (!strcmp(mode, "kill")) {
            if (logfd >= 0) syscall(SYS_write, logfd, "0 kill 0 kill\n", 14);
            kill(getpid(), SIGKILL);
        }
        die_after = 1;
        if (len > 1) r = SHORT;
    }
    if (at && n >= at) {
        if (!strcmp(mode, "err") && n == at) r = FAIL;
        else if (!strcmp(mode, "errall")) r = FAIL;
        else if (!strcmp(mode, "zero") && n == at && is_write) r = ZERO;
        else if (!strcmp(mode, "short") && n == at && len > 1) r = SHORT;
        else if (!strcmp(mode, "shortall") && len > 1) r = SHORT;
        else if (!strcmp(mode, "eintr") && n < at + 3 && is_write) r = FAIL;
        else if (!strcmp(mode, "shorterr") && is_write) r = n == at && len > 1 ? SHORT : FAIL;
    }
    if (logfd >= 0) {
        char b[PATH_MAX + 128];
        int k = snprintf(b, sizeof b, "%ld %s %ld %s %s\n", n, what, len, r == GO ? "go" : r == FAIL ? "fail" : r == SHORT ? "short" : "zero", path ? path : "?");
        syscall(SYS_write, logfd, b, (size_t)k);
    }
    if (r == FAIL) errno = !strcmp(mode, "eintr") ? EINTR : err_no;
    return r;
}

static size_t cut(size_t n)
{
    long c = atomic_load(&count);
    return c % 3 == 0 ? 1 : c % 3 == 1 ? n / 2 : n - 1;
}

ssize_t write(int fd, const void *b, size_t n)
{
    if (!counted_fd(fd)) return syscall(SYS_write, fd, b, n);
    {
        switch (next("write", (long)n, fdpath(fd))) {
        case FAIL: return -1;
        case ZERO: return 0;
        case SHORT: n = cut(n);
        }
    }
    return done(syscall(SYS_write, fd, b, n));
}

ssize_t writev(int fd, const struct iovec *v, int c)
{
    if (counted_fd(fd)) {
        long n = 0;
        for (int i = 0; i < c; i++) n += (long)v[i].iov_len;
        switch (next("writev", n, fdpath(fd))) {
        case FAIL: return -1;
        case ZERO: return 0;
        case SHORT:
            for (int i = 0; i < c; i++)
                if (v[i].iov_len) return done(syscall(SYS_write, fd, v[i].iov_base, v[i].iov_len > 1 ? cut(v[i].iov_len) : 1));
        }
    }
    return done(syscall(SYS_writev, fd, v, c));
}

ssize_t pwrite64(int fd, const void *b, size_t n, off_t o)
{
    if (counted_fd(fd)) {
        switch (next("pwrite", (long)n, fdpath(fd))) {
        case FAIL: return -1;
        case ZERO: return 0;
        case SHORT: n = cut(n);
        }
    }
    return done(syscall(SYS_pwrite64, fd, b, n, o));
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return pwrite64(fd, b, n, o); }

static int do_open(int dir, const char *p, int fl, int m)
{
    int mine = (fl & (O_WRONLY | O_RDWR | O_CREAT)) && below(p);
    if (mine && next("open", -1, p) == FAIL) return -1;
    int fd = (int)syscall(SYS_openat, dir, p, fl, m);
    if (fd >= 0 && fd < 4096) fds[fd] = (char)mine;
    return mine ? (int)done(fd) : fd;
}

#define MODE va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap);
int open(const char *p, int fl, ...) { MODE return do_open(AT_FDCWD, p, fl, m); }
int open64(const char *p, int fl, ...) { MODE return do_open(AT_FDCWD, p, fl, m); }
int openat(int d, const char *p, int fl, ...) { MODE return do_open(d, p, fl, m); }
int openat64(int d, const char *p, int fl, ...) { MODE return do_open(d, p, fl, m); }
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, (int)m); }
int creat64(const char *p, mode_t m) { return creat(p, m); }

int close(int fd)
{
    if (fd >= 0 && fd < 4096) fds[fd] = 0;
    return (int)syscall(SYS_close, fd);
}

int mkdir(const char *p, mode_t m)
{
    if (below(p) && next("mkdir", -1, p) == FAIL) return -1;
    int r = (int)syscall(SYS_mkdirat, AT_FDCWD, p, m);
    return below(p) ? (int)done(r) : r;
}

int rename(const char *a, const char *b)
{
    if (below(b) && next("rename", -1, b) == FAIL) return -1;
    int r = (int)syscall(SYS_renameat2, AT_FDCWD, a, AT_FDCWD, b, 0);
    return below(b) ? (int)done(r) : r;
}

int ftruncate64(int fd, off_t n)
{
    if (counted_fd(fd) && next("ftruncate", -1, fdpath(fd)) == FAIL) return -1;
    return (int)syscall(SYS_ftruncate, fd, n);
}
int ftruncate(int fd, off_t n) { return ftruncate64(fd, n); }

int fsync(int fd)
{
    if (counted_fd(fd) && next("fsync", -1, fdpath(fd)) == FAIL) return -1;
    return (int)syscall(SYS_fsync, fd);
}
