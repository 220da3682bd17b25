/* Interposes the calls that change files below a folder.  When armed, the k-th such call is the point of interruption:
   mode 0  the process ends before the call            mode 1..3  part of a write (first byte, half, all but the last) reaches the file, then the process ends
   mode 4  the call fails with ENOSPC, once            mode 5  this and all later writes/creations fail with ENOSPC
   mode 6  SIGINT is raised before the call            */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static char root[4096];
static size_t rootlen;
static int armed, target, mode, fired;
static long count;

void crash_arm(const char *dir, int k, int m) {
    strncpy(root, dir, sizeof root - 1); rootlen = strlen(root);
    target = k; mode = m; count = 0; fired = 0; armed = 1;
}
long crash_disarm(void) { armed = 0; return count; }
int crash_fired(void) { return fired; }

static int under(const char *p) {
    char b[8192];
    if (!armed || !p) return 0;
    if (p[0] != '/') {
        char c[4096];
        if (!getcwd(c, sizeof c)) return 0;
        snprintf(b, sizeof b, "%s/%s", c, p);
        p = b;
    }
    return strncmp(p, root, rootlen) == 0;
}
static int fdunder(int fd) {
    char l[64], b[4096];
    if (!armed) return 0;
    snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
    ssize_t n = readlink(l, b, sizeof b - 1);
    if (n <= 0) return 0;
    b[n] = 0;
    return under(b);
}
/* 0: go on, 1: fail with ENOSPC, 2: torn write wanted */
static int event(int iswrite, int space) {
    long k = count++;
    if (k == target) {
        fired = 1;
        if (mode == 0) _exit(77);
        if (mode >= 1 && mode <= 3) { if (!iswrite) _exit(78); return 2; }
        if (mode == 4 || mode == 5) { if (space) return 1; fired = 2; return 0; }
        if (mode == 6) raise(SIGINT);
        return 0;
    }
    if (fired && mode == 5 && space) return 1;
    return 0;
}
#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__); if (!real) real = dlsym(RTLD_NEXT, name)
#define NOSPC do { errno = ENOSPC; return -1; } while (0)
static size_t part(size_t n) { return mode == 1 ? (n > 1 ? 1 : 0) : mode == 2 ? n / 2 : n - 1; }

ssize_t write(int fd, const void *b, size_t n) {
    REAL(ssize_t, "write", int, const void *, size_t);
    if (armed && n && fdunder(fd)) {
        int e = event(1, 1);
        if (e == 1) NOSPC;
        if (e == 2) { real(fd, b, part(n)); _exit(77); }
    }
    return real(fd, b, n);
}
#define PW(NAME) ssize_t NAME(int fd, const void *b, size_t n, off64_t o) { \
    REAL(ssize_t, #NAME, int, const void *, size_t, off64_t); \
    if (armed && n && fdunder(fd)) { int e = event(1, 1); if (e == 1) NOSPC; if (e == 2) { real(fd, b, part(n), o); _exit(77); } } \
    return real(fd, b, n, o); }
PW(pwrite) PW(pwrite64)
ssize_t writev(int fd, const struct iovec *v, int c) {
    REAL(ssize_t, "writev", int, const struct iovec *, int);
    if (armed && fdunder(fd)) { int e = event(1, 1); if (e == 1) NOSPC; if (e == 2) { if (c) { struct iovec w = v[0]; w.iov_len = part(w.iov_len); real(fd, &w, 1); } _exit(77); } }
    return real(fd, v, c);
}
#define OPEN(NAME) int NAME(const char *p, int f, ...) { \
    REAL(int, #NAME, const char *, int, ...); \
    va_list a; va_start(a, f); mode_t m = (f & (O_CREAT | O_TMPFILE)) ? va_arg(a, mode_t) : 0; va_end(a); \
    if (armed && (f & (O_CREAT | O_TRUNC)) && under(p)) if (event(0, 1) == 1) NOSPC; \
    return real(p, f, m); }
OPEN(open) OPEN(open64)
#define OPENAT(NAME) int NAME(int d, const char *p, int f, ...) { \
    REAL(int, #NAME, int, const char *, int, ...); \
    va_list a; va_start(a, f); mode_t m = (f & (O_CREAT | O_TMPFILE)) ? va_arg(a, mode_t) : 0; va_end(a); \
    if (armed && (f & (O_CREAT | O_TRUNC)) && under(p)) if (event(0, 1) == 1) NOSPC; \
    return real(d, p, f, m); }
OPENAT(openat) OPENAT(openat64)
int creat(const char *p, mode_t m) { REAL(int, "creat", const char *, mode_t); if (under(p)) if (event(0, 1) == 1) NOSPC; return real(p, m); }
#define FOPEN(NAME) FILE *NAME(const char *p, const char *m) { \
    REAL(FILE *, #NAME, const char *, const char *); \
    if (armed && !(m[0] == 'r' && !strchr(m, '+')) && under(p)) if (event(0, 1) == 1) { errno = ENOSPC; return NULL; } \
    return real(p, m); }
FOPEN(fopen) FOPEN(fopen64)
size_t fwrite(const void *b, size_t s, size_t n, FILE *f) {
    REAL(size_t, "fwrite", const void *, size_t, size_t, FILE *);
    if (armed && n && s && fdunder(fileno(f))) {
        int e = event(1, 1);
        if (e == 1) { errno = ENOSPC; return 0; }
        if (e == 2) { real(b, 1, part(n * s), f); fflush(f); _exit(77); }
    }
    return real(b, s, n, f);
}
#define TRUNC(NAME) int NAME(int fd, off64_t l) { REAL(int, #NAME, int, off64_t); if (armed && fdunder(fd)) event(0, 0); return real(fd, l); }
TRUNC(ftruncate) TRUNC(ftruncate64)
int rename(const char *a, const char *b) { REAL(int, "rename", const char *, const char *); if (under(a) || under(b)) event(0, 0); return real(a, b); }
int renameat(int d, const char *a, int e, const char *b) { REAL(int, "renameat", int, const char *, int, const char *); if (under(a) || under(b)) event(0, 0); return real(d, a, e, b); }
int unlink(const char *p) { REAL(int, "unlink", const char *); if (under(p)) event(0, 0); return real(p); }
int unlinkat(int d, const char *p, int f) { REAL(int, "unlinkat", int, const char *, int); if (under(p)) event(0, 0); return real(d, p, f); }
int remove(const char *p) { REAL(int, "remove", const char *); if (under(p)) event(0, 0); return real(p); }
int rmdir(const char *p) { REAL(int, "rmdir", const char *); if (under(p)) event(0, 0); return real(p); }
int link(const char *a, const char *b) { REAL(int, "link", const char *, const char *); if (under(b)) event(0, 0); return real(a, b); }
int symlink(const char *a, const char *b) { REAL(int, "symlink", const char *, const char *); if (under(b)) event(0, 0); return real(a, b); }
int mkdir(const char *p, mode_t m) { REAL(int, "mkdir", const char *, mode_t); if (under(p)) if (event(0, 1) == 1) NOSPC; return real(p, m); }
