/* Counts the operations which change files below a given folder and, at the
 * k-th of them, ends the process, fails the operation, or writes only half (whole pages) of
 * the data and ends the process.  Loaded with LD_PRELOAD; does nothing until
 * armed with shim_arm(). */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static char root[PATH_MAX];
static size_t rootlen = 0;
static long count = 0, target = 0;
static int armed = 0, mode = 0; /* 1 die before, 2 fail once, 3 half write and die, 4 fail from then on */

void shim_arm(const char *dir, long k, int m) {
    strncpy(root, dir, sizeof root - 1);
    rootlen = strlen(root);
    count = 0; target = k; mode = m; armed = 1;
}
long shim_disarm(void) { armed = 0; return count; }

static int inpath(const char *p) {
    return p && p[0] == '/' && strncmp(p, root, rootlen) == 0;
}
static int infd(int fd) {
    char l[64], b[PATH_MAX];
    ssize_t n;
    snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
    n = readlink(l, b, sizeof b - 1);
    if (n <= 0) return 0;
    b[n] = 0;
    /* the log file is not data */
    if (n > 4 && strcmp(b + n - 4, ".log") == 0) return 0;
    return inpath(b);
}
/* 0: go on; 1: fail; 3: half */
static int hit(void) {
    count++;
    if (mode == 4 && target && count >= target) return 1;
    if (!target || count != target) return 0;
    if (mode == 1) _exit(77);
    if (mode == 2) return 1;
    if (mode == 3) return 3;
    return 0;
}
#define REAL(T, name) static T (*real)() = 0; if (!real) real = dlsym(RTLD_NEXT, name)
#define GATE(cond, bad) \
    if (armed && (cond)) { int h_ = hit(); if (h_ == 1) { errno = ENOSPC; return bad; } \
        if (h_ == 3) _exit(77); }

ssize_t write(int fd, const void *b, size_t n) {
    REAL(ssize_t, "write");
    if (armed && infd(fd)) {
        int h = hit();
        if (h == 1) { errno = ENOSPC; return -1; }
        if (h == 3) { real(fd, b, (n / 2) & ~4095UL); _exit(77); }
    }
    return real(fd, b, n);
}
#define PW(NAME, OFF) \
ssize_t NAME(int fd, const void *b, size_t n, OFF o) { \
    static ssize_t (*real)(int, const void *, size_t, OFF) = 0; \
    if (!real) real = dlsym(RTLD_NEXT, #NAME); \
    if (armed && infd(fd)) { \
        int h = hit(); \
        if (h == 1) { errno = ENOSPC; return -1; } \
        if (h == 3) { real(fd, b, (n / 2) & ~4095UL, o); _exit(77); } \
    } \
    return real(fd, b, n, o); \
}
PW(pwrite, off_t)
PW(pwrite64, off64_t)
ssize_t writev(int fd, const struct iovec *v, int n) {
    REAL(ssize_t, "writev"); GATE(infd(fd), -1); return real(fd, v, n);
}
int ftruncate(int fd, off_t n) {
    static int (*real)(int, off_t) = 0; if (!real) real = dlsym(RTLD_NEXT, "ftruncate");
    GATE(infd(fd), -1); return real(fd, n);
}
int ftruncate64(int fd, off64_t n) {
    static int (*real)(int, off64_t) = 0; if (!real) real = dlsym(RTLD_NEXT, "ftruncate64");
    GATE(infd(fd), -1); return real(fd, n);
}
int truncate(const char *p, off_t n) {
    static int (*real)(const char *, off_t) = 0; if (!real) real = dlsym(RTLD_NEXT, "truncate");
    GATE(inpath(p), -1); return real(p, n);
}
int rename(const char *a, const char *b) {
    REAL(int, "rename"); GATE(inpath(a) || inpath(b), -1); return real(a, b);
}
int renameat(int x, const char *a, int y, const char *b) {
    REAL(int, "renameat"); GATE(inpath(a) || inpath(b), -1); return real(x, a, y, b);
}
int renameat2(int x, const char *a, int y, const char *b, unsigned f) {
    REAL(int, "renameat2"); GATE(inpath(a) || inpath(b), -1); return real(x, a, y, b, f);
}
int unlink(const char *p) { REAL(int, "unlink"); GATE(inpath(p), -1); return real(p); }
int remove(const char *p) { REAL(int, "remove"); GATE(inpath(p), -1); return real(p); }
int unlinkat(int d, const char *p, int f) {
    REAL(int, "unlinkat"); GATE(inpath(p), -1); return real(d, p, f);
}
int rmdir(const char *p) { REAL(int, "rmdir"); GATE(inpath(p), -1); return real(p); }
int mkdir(const char *p, mode_t m) { REAL(int, "mkdir"); GATE(inpath(p), -1); return real(p, m); }
int link(const char *a, const char *b) { REAL(int, "link"); GATE(inpath(b), -1); return real(a, b); }
int symlink(const char *a, const char *b) { REAL(int, "symlink"); GATE(inpath(b), -1); return real(a, b); }
ssize_t sendfile(int o, int i, off_t *f, size_t n) {
    REAL(ssize_t, "sendfile"); GATE(infd(o), -1); return real(o, i, f, n);
}
ssize_t sendfile64(int o, int i, off64_t *f, size_t n) {
    REAL(ssize_t, "sendfile64"); GATE(infd(o), -1); return real(o, i, f, n);
}
ssize_t copy_file_range(int i, off64_t *a, int o, off64_t *b, size_t n, unsigned f) {
    REAL(ssize_t, "copy_file_range"); GATE(infd(o), -1); return real(i, a, o, b, n, f);
}
static int islog(const char *p) {
    size_t n = p ? strlen(p) : 0;
    return n > 4 && strcmp(p + n - 4, ".log") == 0;
}
#define OPENBODY(call) \
    mode_t m = 0; \
    if (f & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, f); m = va_arg(a, mode_t); va_end(a); } \
    if ((f & (O_CREAT | O_TRUNC)) && !islog(p)) { GATE(inpath(p), -1); } \
    return call
int open(const char *p, int f, ...) { REAL(int, "open"); OPENBODY(real(p, f, m)); }
int open64(const char *p, int f, ...) { REAL(int, "open64"); OPENBODY(real(p, f, m)); }
int openat(int d, const char *p, int f, ...) { REAL(int, "openat"); OPENBODY(real(d, p, f, m)); }
int openat64(int d, const char *p, int f, ...) { REAL(int, "openat64"); OPENBODY(real(d, p, f, m)); }
int creat(const char *p, mode_t m) { REAL(int, "creat"); GATE(inpath(p), -1); return real(p, m); }
