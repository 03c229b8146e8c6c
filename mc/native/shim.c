/* LD_PRELOAD shim: numbers the file system calls that touch one directory,
 * logs them, and can stop the process at, or fail, call number N.
 * Inert until shim_arm() is called. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <unistd.h>

#define MAXFD 1024
enum { LOG = 0, KILL = 1, TORN = 2, FAIL = 3, SHORT = 4, FAILALL = 5 };

static int armed = 0, mode = 0, err = 0, logfd = -1, fired = 0;
static long target = 0, counter = 0;
static char dir[PATH_MAX];
static size_t dirlen = 0;
static char *names[MAXFD];

#define REAL(ret, name, args) \
    static ret (*real_##name) args; \
    if (!real_##name) real_##name = dlsym(RTLD_NEXT, #name)

static const char *absolute(int at, const char *path, char *buf)
{
    if (path[0] == '/') return path;
    char cwd[PATH_MAX];
    if (at != AT_FDCWD && at >= 0 && at < MAXFD && names[at])
        snprintf(buf, PATH_MAX, "%s/%s", names[at], path);
    else if (getcwd(cwd, sizeof cwd))
        snprintf(buf, PATH_MAX, "%s/%s", cwd, path);
    else return path;
    return buf;
}

static int inside(const char *path)
{
    return armed && path && strncmp(path, dir, dirlen) == 0 &&
        (path[dirlen] == '/' || path[dirlen] == 0);
}

static const char *fdname(int fd)
{
    return (armed && fd >= 0 && fd < MAXFD) ? names[fd] : NULL;
}

struct rec { uint32_t type, result; int64_t off; uint64_t len; uint32_t p1, p2; };

static void put(int type, int result, const char *p1, const char *p2, int64_t off,
                const void *data, size_t len)
{
    if (logfd < 0) return;
    struct rec r = { type, result, off, len, p1 ? strlen(p1) : 0, p2 ? strlen(p2) : 0 };
    syscall(SYS_write, logfd, &r, sizeof r);
    if (r.p1) syscall(SYS_write, logfd, p1, r.p1);
    if (r.p2) syscall(SYS_write, logfd, p2, r.p2);
    if (len && data) syscall(SYS_write, logfd, data, len);
}

/* Returns 0: go on; 1: fail with errno; 2: torn/short write. */
static int event(int type, const char *p1)
{
    counter++;
    int hit = counter == target ||
        (mode == FAILALL && target && counter >= target && (type == 'W' || type == 'T'));
    if (!hit) return 0;
    fired = 1;
    if (mode == KILL) syscall(SYS_exit_group, 77);
    if (mode == TORN) { if (type == 'W') return 2; syscall(SYS_exit_group, 77); }
    if (mode == SHORT) { if (type == 'W') return 2; errno = err; return 1; }
    if (mode == FAIL || mode == FAILALL) { errno = err; return 1; }
    return 0;
}

void shim_arm(const char *d, int m, long n, int e, int log)
{
    for (int i = 0; i < MAXFD; i++) if (names[i]) { free(names[i]); names[i] = NULL; }
    strncpy(dir, d, sizeof dir - 1);
    dirlen = strlen(dir);
    mode = m; target = n; err = e; logfd = log; counter = 0; fired = 0;
    armed = 1;
}
long shim_disarm(void) { armed = 0; return counter; }
int shim_fired(void) { return fired; }
void shim_mark(int kind) { if (armed) put('M', 0, NULL, NULL, kind, NULL, 0); }

static int do_open(int at, const char *path, int flags, mode_t m)
{
    char buf[PATH_MAX];
    const char *p = armed ? absolute(at, path, buf) : path;
    int in = inside(p);
    int created = 0;
    if (in) {
        struct stat st;
        if (flags & O_CREAT) created = stat(p, &st) != 0;
        if (event(created ? 'C' : 'O', p)) return -1;
    }
    int fd = syscall(SYS_openat, at, path, flags, m);
    if (in && fd >= 0 && fd < MAXFD) {
        int e = errno;
        free(names[fd]);
        names[fd] = strdup(p);
        if (created || (flags & O_TRUNC)) put('C', fd, p, NULL, flags & O_TRUNC ? 1 : 0, NULL, 0);
        errno = e;
    }
    return fd;
}

#define OPENISH(name) \
int name(const char *path, int flags, ...) { \
    mode_t m = 0; \
    if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, int); va_end(ap); } \
    return do_open(AT_FDCWD, path, flags, m); }
OPENISH(open)
OPENISH(open64)
#define OPENATISH(name) \
int name(int at, const char *path, int flags, ...) { \
    mode_t m = 0; \
    if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, int); va_end(ap); } \
    return do_open(at, path, flags, m); }
OPENATISH(openat)
OPENATISH(openat64)

int close(int fd)
{
    if (fd >= 0 && fd < MAXFD && names[fd]) { free(names[fd]); names[fd] = NULL; }
    return syscall(SYS_close, fd);
}

int dup(int fd)
{
    int n = syscall(SYS_dup, fd);
    if (armed && n >= 0 && n < MAXFD && fd >= 0 && fd < MAXFD && names[fd]) names[n] = strdup(names[fd]);
    return n;
}

static ssize_t do_write(int fd, const void *data, size_t len, int64_t off, int positioned)
{
    const char *p = fdname(fd);
    if (!p)
        return positioned ? syscall(SYS_pwrite64, fd, data, len, off) : syscall(SYS_write, fd, data, len);
    int64_t at = positioned ? off : lseek(fd, 0, SEEK_CUR);
    int v = event('W', p);
    if (v == 1) return -1;
    if (v == 2) {
        size_t half = len / 2;
        ssize_t n = half ? syscall(SYS_pwrite64, fd, data, half, at) : 0;
        if (mode == TORN) syscall(SYS_exit_group, 77);
        if (n > 0) { put('W', fd, p, NULL, at, data, n); if (!positioned) lseek(fd, at + n, SEEK_SET); return n; }
        errno = err; return -1;
    }
    ssize_t n = positioned ? syscall(SYS_pwrite64, fd, data, len, off) : syscall(SYS_write, fd, data, len);
    int e = errno;
    if (n > 0) put('W', fd, p, NULL, at, data, n);
    errno = e;
    return n;
}
ssize_t write(int fd, const void *d, size_t n) { return do_write(fd, d, n, 0, 0); }
ssize_t pwrite(int fd, const void *d, size_t n, off_t o) { return do_write(fd, d, n, o, 1); }
ssize_t pwrite64(int fd, const void *d, size_t n, off64_t o) { return do_write(fd, d, n, o, 1); }

ssize_t sendfile(int out, int in, off_t *off, size_t n)
{
    if (fdname(out) || fdname(in)) { errno = EINVAL; return -1; }
    return syscall(SYS_sendfile, out, in, off, n);
}
ssize_t sendfile64(int out, int in, off64_t *off, size_t n) { return sendfile(out, in, (off_t *)off, n); }
ssize_t copy_file_range(int in, off64_t *oi, int out, off64_t *oo, size_t n, unsigned f)
{
    if (fdname(out) || fdname(in)) { errno = EXDEV; return -1; }
    return syscall(SYS_copy_file_range, in, oi, out, oo, n, f);
}

static int do_trunc(int fd, int64_t len)
{
    const char *p = fdname(fd);
    if (p && event('T', p)) return -1;
    int r = syscall(SYS_ftruncate, fd, len);
    if (p && r == 0) { put('T', fd, p, NULL, len, NULL, 0); }
    return r;
}
int ftruncate(int fd, off_t len) { return do_trunc(fd, len); }
int ftruncate64(int fd, off64_t len) { return do_trunc(fd, len); }

static int do_sync(int fd, int nr)
{
    const char *p = fdname(fd);
    if (p && event('S', p)) return -1;
    int r = syscall(nr, fd);
    if (p && r == 0) put('S', fd, p, NULL, 0, NULL, 0);
    return r;
}
int fsync(int fd) { return do_sync(fd, SYS_fsync); }
int fdatasync(int fd) { return do_sync(fd, SYS_fdatasync); }

static int do_rename(int a, const char *from, int b, const char *to, unsigned flags)
{
    char b1[PATH_MAX], b2[PATH_MAX];
    const char *p = armed ? absolute(a, from, b1) : from, *q = armed ? absolute(b, to, b2) : to;
    int in = inside(p) || inside(q);
    if (in && event('N', p)) return -1;
    int r = syscall(SYS_renameat2, a, from, b, to, flags);
    if (in && r == 0) {
        put('N', 0, p, q, 0, NULL, 0);
        for (int i = 0; i < MAXFD; i++)
            if (names[i] && strcmp(names[i], p) == 0) { free(names[i]); names[i] = strdup(q); }
    }
    return r;
}
int rename(const char *f, const char *t) { return do_rename(AT_FDCWD, f, AT_FDCWD, t, 0); }
int renameat(int a, const char *f, int b, const char *t) { return do_rename(a, f, b, t, 0); }
int renameat2(int a, const char *f, int b, const char *t, unsigned g) { return do_rename(a, f, b, t, g); }

static int do_unlink(int at, const char *path, int flags)
{
    char b[PATH_MAX];
    const char *p = armed ? absolute(at, path, b) : path;
    int in = inside(p);
    if (in && event('U', p)) return -1;
    int r = syscall(SYS_unlinkat, at, path, flags);
    if (in && r == 0) put('U', 0, p, NULL, 0, NULL, 0);
    return r;
}
int unlink(const char *p) { return do_unlink(AT_FDCWD, p, 0); }
int unlinkat(int at, const char *p, int f) { return do_unlink(at, p, f); }

int link(const char *from, const char *to)
{
    char b1[PATH_MAX], b2[PATH_MAX];
    const char *p = armed ? absolute(AT_FDCWD, from, b1) : from, *q = armed ? absolute(AT_FDCWD, to, b2) : to;
    int in = inside(q);
    if (in && event('L', p)) return -1;
    int r = syscall(SYS_linkat, AT_FDCWD, from, AT_FDCWD, to, 0);
    if (in && r == 0) put('L', 0, p, q, 0, NULL, 0);
    return r;
}

int chmod(const char *path, mode_t m)
{
    char b[PATH_MAX];
    const char *p = armed ? absolute(AT_FDCWD, path, b) : path;
    int in = inside(p);
    if (in && event('P', p)) return -1;
    int r = syscall(SYS_fchmodat, AT_FDCWD, path, m);
    if (in && r == 0) put('P', 0, p, NULL, m, NULL, 0);
    return r;
}
int fchmod(int fd, mode_t m)
{
    const char *p = fdname(fd);
    if (p && event('P', p)) return -1;
    int r = syscall(SYS_fchmod, fd, m);
    if (p && r == 0) put('P', fd, p, NULL, m, NULL, 0);
    return r;
}
