/* Preloaded into the process under test: counts the file-system calls that
 * change something below a given directory, and, when armed, ends the process
 * at the n-th one or makes it fail.
 *
 *   verif_arm(prefix, n, mode)   n = 0: only count
 *   mode 0: die before call n    1: die half-way through call n (writes)
 *        2: call n fails (ENOSPC), later ones work
 *   verif_count()                how many calls so far
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/sendfile.h>
#include <sys/uio.h>
#include <unistd.h>

static int armed, target, mode, count;
static char prefix[PATH_MAX];
static size_t plen;

void verif_arm(const char *p, int n, int m) {
    snprintf(prefix, sizeof prefix, "%s", p);
    plen = strlen(prefix);
    target = n; mode = m; count = 0; armed = 1;
}
void verif_disarm(void) { armed = 0; }
int verif_count(void) { return count; }

static int below(const char *path) {
    if (!armed || !path) return 0;
    if (path[0] == '/') return strncmp(path, prefix, plen) == 0;
    char cwd[PATH_MAX];
    return getcwd(cwd, sizeof cwd) && strncmp(cwd, prefix, plen) == 0;
}
static int fdbelow(int fd) {
    char link[64], buf[PATH_MAX];
    if (!armed) return 0;
    snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
    ssize_t k = readlink(link, buf, sizeof buf - 1);
    if (k <= 0) return 0;
    buf[k] = 0;
    return strncmp(buf, prefix, plen) == 0;
}
static int atbelow(int dfd, const char *path) {
    if (!armed || !path) return 0;
    if (path[0] == '/' || dfd == AT_FDCWD) return below(path);
    return fdbelow(dfd);
}
/* returns 1 if the call must fail, 2 if it must be cut short and the process ended */
static int hit(void) {
    count++;
    if (target && count == target) {
        if (mode == 0) _exit(137);
        if (mode == 1) return 2;
        errno = ENOSPC;
        return 1;
    }
    return 0;
}
#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__); if (!real) real = dlsym(RTLD_NEXT, #name)
#define GATE(cond, call) if (cond) { int h_ = hit(); if (h_ == 1) return -1; if (h_ == 2) { call; _exit(137); } }

#define MUT(f) ((f) & (O_CREAT | O_TRUNC))
#define OPENFN(name) int name(const char *p, int f, ...) { \
    va_list ap; va_start(ap, f); mode_t m = va_arg(ap, int); va_end(ap); \
    REAL(int, name, const char *, int, ...); \
    GATE(MUT(f) && below(p), real(p, f, m)) return real(p, f, m); }
OPENFN(open) OPENFN(open64)
#define OPENATFN(name) int name(int d, const char *p, int f, ...) { \
    va_list ap; va_start(ap, f); mode_t m = va_arg(ap, int); va_end(ap); \
    REAL(int, name, int, const char *, int, ...); \
    GATE(MUT(f) && atbelow(d, p), real(d, p, f, m)) return real(d, p, f, m); }
OPENATFN(openat) OPENATFN(openat64)

ssize_t write(int fd, const void *b, size_t n) {
    REAL(ssize_t, write, int, const void *, size_t);
    GATE(fdbelow(fd), real(fd, b, n / 2)) return real(fd, b, n);
}
ssize_t sendfile(int o, int i, off_t *off, size_t n) {
    REAL(ssize_t, sendfile, int, int, off_t *, size_t);
    GATE(fdbelow(o), real(o, i, off, 1)) return real(o, i, off, n);
}
ssize_t sendfile64(int o, int i, off_t *off, size_t n) {
    REAL(ssize_t, sendfile64, int, int, off_t *, size_t);
    GATE(fdbelow(o), real(o, i, off, 1)) return real(o, i, off, n);
}
ssize_t copy_file_range(int i, off64_t *a, int o, off64_t *b, size_t n, unsigned f) {
    REAL(ssize_t, copy_file_range, int, off64_t *, int, off64_t *, size_t, unsigned);
    GATE(fdbelow(o), real(i, a, o, b, 1, f)) return real(i, a, o, b, n, f);
}
int rename(const char *a, const char *b) {
    REAL(int, rename, const char *, const char *);
    GATE(below(a) || below(b), real(a, b)) return real(a, b);
}
int renameat(int d, const char *a, int e, const char *b) {
    REAL(int, renameat, int, const char *, int, const char *);
    GATE(atbelow(d, a) || atbelow(e, b), real(d, a, e, b)) return real(d, a, e, b);
}
int unlink(const char *a) { REAL(int, unlink, const char *); GATE(below(a), real(a)) return real(a); }
int rmdir(const char *a) { REAL(int, rmdir, const char *); GATE(below(a), real(a)) return real(a); }
int unlinkat(int d, const char *a, int f) {
    REAL(int, unlinkat, int, const char *, int);
    GATE(atbelow(d, a), real(d, a, f)) return real(d, a, f);
}
int mkdir(const char *a, mode_t m) { REAL(int, mkdir, const char *, mode_t); GATE(below(a), real(a, m)) return real(a, m); }
int mkdirat(int d, const char *a, mode_t m) {
    REAL(int, mkdirat, int, const char *, mode_t); GATE(atbelow(d, a), real(d, a, m)) return real(d, a, m);
}
int ftruncate(int fd, off_t n) { REAL(int, ftruncate, int, off_t); GATE(fdbelow(fd), real(fd, n)) return real(fd, n); }
int ftruncate64(int fd, off64_t n) { REAL(int, ftruncate64, int, off64_t); GATE(fdbelow(fd), real(fd, n)) return real(fd, n); }
int truncate(const char *a, off_t n) { REAL(int, truncate, const char *, off_t); GATE(below(a), real(a, n)) return real(a, n); }
int link(const char *a, const char *b) { REAL(int, link, const char *, const char *); GATE(below(b), real(a, b)) return real(a, b); }
int symlink(const char *a, const char *b) { REAL(int, symlink, const char *, const char *); GATE(below(b), real(a, b)) return real(a, b); }
