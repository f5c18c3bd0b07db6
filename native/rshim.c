/* LD_PRELOAD shim which disturbs reading. RSHIM_ROOT: watched directory; RSHIM_LOG: every open and
   read of a file below it is logged as "N what file". RSHIM_CAP: no read returns more bytes.
   RSHIM_MODE: none; eintr (every second read is interrupted); err / errall (operation number
   RSHIM_AT on RSHIM_FILE fails with RSHIM_ERR, errall: as do all later ones on this file). */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

static const char *root, *mode, *file;
static int logfd = -1, err_no, inited;
static long at, cap;
static atomic_long count, all;
static atomic_char fds[4096];         /* 1: below the root, 2: the chosen file */

__attribute__((constructor)) static void init(void)
{
    if (inited) return;
    inited = 1;
    root = getenv("RSHIM_ROOT");
    mode = getenv("RSHIM_MODE");
    if (!mode) mode = "none";
    file = getenv("RSHIM_FILE");
    const char *s = getenv("RSHIM_AT");
    at = s ? atol(s) : 0;
    s = getenv("RSHIM_CAP");
    cap = s ? atol(s) : 0;
    s = getenv("RSHIM_ERR");
    err_no = s ? atoi(s) : EIO;
    s = getenv("RSHIM_LOG");
    if (s) logfd = (int)syscall(SYS_openat, AT_FDCWD, s, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
}

static int class(const char *p, char *real)
{
    char cwd[PATH_MAX];
    init();
    if (!root || !p) return 0;
    if (!realpath(p, real)) {
        if (p[0] == '/') snprintf(real, PATH_MAX, "%s", p);
        else if (getcwd(cwd, sizeof cwd)) snprintf(real, PATH_MAX, "%s/%.1000s", cwd, p);
        else return 0;
    }
    size_t n = strlen(root);
    if (strncmp(real, root, n) || (real[n] != '/' && real[n])) return 0;
    return file && !strcmp(real, file) ? 2 : 1;
}

static int fails(int cl, const char *what, const char *name)
{
    int bad = 0;
    if (cl == 2) {
        long n = atomic_fetch_add(&count, 1) + 1;
        bad = at && ((!strcmp(mode, "err") && n == at) || (!strcmp(mode, "errall") && n >= at));
    }
    if (logfd >= 0) {
        char b[PATH_MAX + 64];
        int k = snprintf(b, sizeof b, "%s %d %s\n", what, bad, name);
        syscall(SYS_write, logfd, b, (size_t)k);
    }
    if (bad) errno = err_no;
    return bad;
}

static const char *fdpath(int fd)
{
    static _Thread_local char b[PATH_MAX];
    char l[64];
    snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
    ssize_t k = readlink(l, b, sizeof b - 1);
    b[k < 0 ? 0 : k] = 0;
    return b;
}

static ssize_t disturb(int fd, size_t *n)
{
    if (fd < 0 || fd >= 4096 || !fds[fd]) return 0;
    if (fails(fds[fd], "read", fdpath(fd))) return -1;
    if (!strcmp(mode, "eintr") && atomic_fetch_add(&all, 1) % 2 == 0) { errno = EINTR; return -1; }
    if (cap && *n > (size_t)cap) *n = (size_t)cap;
    return 0;
}

ssize_t read(int fd, void *b, size_t n)
{
    if (disturb(fd, &n)) return -1;
    return syscall(SYS_read, fd, b, n);
}

ssize_t pread64(int fd, void *b, size_t n, off_t o)
{
    if (disturb(fd, &n)) return -1;
    return syscall(SYS_pread64, fd, b, n, o);
}
ssize_t pread(int fd, void *b, size_t n, off_t o) { return pread64(fd, b, n, o); }

ssize_t readv(int fd, const struct iovec *v, int c)
{
    size_t n = 0;
    if (c <= 0 || fd < 0 || fd >= 4096 || !fds[fd]) return syscall(SYS_readv, fd, v, c);
    n = v[0].iov_len;
    if (disturb(fd, &n)) return -1;
    return syscall(SYS_read, fd, v[0].iov_base, n);
}

static int do_open(int dir, const char *p, int fl, int m)
{
    char real[PATH_MAX];
    int cl = (fl & (O_WRONLY | O_RDWR | O_CREAT | O_DIRECTORY)) ? 0 : class(p, real);
    if (cl && fails(cl, "open", real)) return -1;
    int fd = (int)syscall(SYS_openat, dir, p, fl, m);
    if (fd >= 0 && fd < 4096) fds[fd] = (char)cl;
    return fd;
}

#define MODE va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap);
int open(const char *p, int fl, ...) { MODE return do_open(AT_FDCWD, p, fl, m); }
int open64(const char *p, int fl, ...) { MODE return do_open(AT_FDCWD, p, fl, m); }
int openat(int d, const char *p, int fl, ...) { MODE return do_open(d, p, fl, m); }
int openat64(int d, const char *p, int fl, ...) { MODE return do_open(d, p, fl, m); }

int close(int fd)
{
    if (fd >= 0 && fd < 4096) fds[fd] = 0;
    return (int)syscall(SYS_close, fd);
}
