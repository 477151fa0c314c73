/* Stops the process before every file operation below a folder, once armed. gate_arm(prefix, fd, mode): each operation is written to fd as a line,
   then the process stops (SIGSTOP) until it is continued or killed. A write is done in two halves, with a stop in between.
   *mode, shared with who controls the process: 0 as said; 1 the disk is full (opening and writing fail, no more stops); 2 no more stops. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static int armed, logfd = -1;
static volatile int zero, *mode = &zero;
static char prefix[PATH_MAX];
static char fds[4096];                  /* descriptors opened for writing below the prefix */

#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__); if (!real) real = dlsym(RTLD_NEXT, #name)

void gate_arm(const char *p, int fd, int *m) { strncpy(prefix, p, sizeof prefix - 1); logfd = fd; mode = m; armed = 1; }
void gate_disarm(void) { armed = 0; }

static ssize_t raw_write(int fd, const void *b, size_t n) { REAL(ssize_t, write, int, const void *, size_t); return real(fd, b, n); }

static void gate(const char *op, const char *path)
{
    char line[PATH_MAX + 64];
    if (*mode) return;
    int n = snprintf(line, sizeof line, "%s %s\n", op, path ? path : "");
    int e = errno;
    raw_write(logfd, line, n);
    raise(SIGSTOP);
    errno = e;
}

#define FULL(hit) if ((hit) && *mode == 1) { errno = ENOSPC; return -1; }

static int ours(int dirfd, const char *p)
{
    char full[PATH_MAX * 2], cwd[PATH_MAX];
    if (!armed || !p) return 0;
    if (p[0] != '/') {
        if (dirfd != AT_FDCWD) {
            char l[64]; snprintf(l, sizeof l, "/proc/self/fd/%d", dirfd);
            ssize_t k = readlink(l, cwd, sizeof cwd - 1);
            if (k < 0) return 0;
            cwd[k] = 0;
        } else if (!getcwd(cwd, sizeof cwd)) return 0;
        snprintf(full, sizeof full, "%s/%s", cwd, p);
        p = full;
    }
    return strncmp(p, prefix, strlen(prefix)) == 0;
}

static int opened(int fd, int flags, int hit)
{
    if (fd >= 0 && fd < 4096) fds[fd] = hit && (flags & (O_WRONLY | O_RDWR));
    return fd;
}

#define OPEN(name) \
int name(const char *p, int flags, ...) { \
    REAL(int, name, const char *, int, ...); \
    va_list a; va_start(a, flags); mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(a, mode_t) : 0; va_end(a); \
    int hit = ours(AT_FDCWD, p) && (flags & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)); \
    if (hit) gate(flags & O_TRUNC ? "trunc" : "open", p); \
    FULL(hit) \
    return opened(real(p, flags, m), flags, hit); }
OPEN(open)
OPEN(open64)
#define OPENAT(name) \
int name(int d, const char *p, int flags, ...) { \
    REAL(int, name, int, const char *, int, ...); \
    va_list a; va_start(a, flags); mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(a, mode_t) : 0; va_end(a); \
    int hit = ours(d, p) && (flags & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)); \
    if (hit) gate(flags & O_TRUNC ? "trunc" : "open", p); \
    FULL(hit) \
    return opened(real(d, p, flags, m), flags, hit); }
OPENAT(openat)
OPENAT(openat64)

static int on(int fd) { return armed && fd >= 0 && fd < 4096 && fds[fd]; }

ssize_t write(int fd, const void *b, size_t n)
{
    if (!on(fd) || fd == logfd) return raw_write(fd, b, n);
    gate("write", "");
    FULL(1)
    if (n < 2) return raw_write(fd, b, n);
    ssize_t k = raw_write(fd, b, n / 2);
    if (k < (ssize_t)(n / 2)) return k;
    gate("half", "");
    if (*mode == 1) return k;
    ssize_t r = raw_write(fd, (const char *)b + k, n - k);
    return r < 0 ? k : k + r;
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { REAL(ssize_t, pwrite64, int, const void *, size_t, off64_t); if (on(fd)) { gate("write", ""); FULL(1) } return real(fd, b, n, o); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { REAL(ssize_t, pwrite, int, const void *, size_t, off_t); if (on(fd)) { gate("write", ""); FULL(1) } return real(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec *v, int n) { REAL(ssize_t, writev, int, const struct iovec *, int); if (on(fd)) { gate("write", ""); FULL(1) } return real(fd, v, n); }
ssize_t sendfile64(int o, int i, off64_t *f, size_t n) { REAL(ssize_t, sendfile64, int, int, off64_t *, size_t); if (on(o)) { gate("write", ""); FULL(1) } return real(o, i, f, n); }
ssize_t sendfile(int o, int i, off_t *f, size_t n) { REAL(ssize_t, sendfile, int, int, off_t *, size_t); if (on(o)) { gate("write", ""); FULL(1) } return real(o, i, f, n); }
ssize_t copy_file_range(int i, off64_t *a, int o, off64_t *b, size_t n, unsigned f)
{ REAL(ssize_t, copy_file_range, int, off64_t *, int, off64_t *, size_t, unsigned); if (on(o)) { gate("write", ""); FULL(1) } return real(i, a, o, b, n, f); }
int ftruncate(int fd, off_t n) { REAL(int, ftruncate, int, off_t); if (on(fd)) gate("ftruncate", ""); return real(fd, n); }
int ftruncate64(int fd, off64_t n) { REAL(int, ftruncate64, int, off64_t); if (on(fd)) gate("ftruncate", ""); return real(fd, n); }
int truncate(const char *p, off_t n) { REAL(int, truncate, const char *, off_t); if (ours(AT_FDCWD, p)) gate("trunc", p); return real(p, n); }
int close(int fd) { REAL(int, close, int); if (on(fd)) { gate("close", ""); fds[fd] = 0; } return real(fd); }
int rename(const char *a, const char *b) { REAL(int, rename, const char *, const char *); if (ours(AT_FDCWD, a) || ours(AT_FDCWD, b)) gate("rename", b); return real(a, b); }
int renameat(int d, const char *a, int e, const char *b) { REAL(int, renameat, int, const char *, int, const char *); if (ours(d, a) || ours(e, b)) gate("rename", b); return real(d, a, e, b); }
int renameat2(int d, const char *a, int e, const char *b, unsigned f)
{ REAL(int, renameat2, int, const char *, int, const char *, unsigned); if (ours(d, a) || ours(e, b)) gate("rename", b); return real(d, a, e, b, f); }
int unlink(const char *p) { REAL(int, unlink, const char *); if (ours(AT_FDCWD, p)) gate("unlink", p); return real(p); }
int unlinkat(int d, const char *p, int f) { REAL(int, unlinkat, int, const char *, int); if (ours(d, p)) gate("unlink", p); return real(d, p, f); }
int link(const char *a, const char *b) { REAL(int, link, const char *, const char *); if (ours(AT_FDCWD, b)) gate("link", b); return real(a, b); }
int linkat(int d, const char *a, int e, const char *b, int f) { REAL(int, linkat, int, const char *, int, const char *, int); if (ours(e, b)) gate("link", b); return real(d, a, e, b, f); }
int symlink(const char *a, const char *b) { REAL(int, symlink, const char *, const char *); if (ours(AT_FDCWD, b)) gate("link", b); return real(a, b); }
