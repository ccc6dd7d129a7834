/* LD_PRELOAD shim for the driver: crash at a chosen file-system operation, or jitter.
   SHIM_CRASH=N   die (exit 77) just before the N-th mutating operation under SHIM_DIR; if
                  that operation is a write, only the first half of it happens (SHIM_TORN=1)
   SHIM_FAIL=N    instead of dying, make that operation fail with ENOSPC
   SHIM_LOG=file  append one line per mutating operation
   SHIM_JITTER=s  sleep a little, pseudo-randomly, before opens, futex waits and wakes */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

static long crash_at = -1, fail_at = -1, torn, jitter = -1;
static const char *dir, *logfile;
static volatile long count, ticks;
static char tracked[4096];
static int ready;

static long raw(long n, long a, long b, long c, long d, long e, long f) {
    long r;
    register long r10 __asm__("r10") = d; register long r8 __asm__("r8") = e; register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return r;
}
static long ret(long r) { if (r < 0 && r > -4096) { errno = -r; return -1; } return r; }
#define sys(n, a, b, c, d) ret(raw(n, (long)(a), (long)(b), (long)(c), (long)(d), 0, 0))
static long num(const char *n) { const char *v = getenv(n); return v ? atol(v) : -1; }
__attribute__((constructor)) static void init(void) {
    crash_at = num("SHIM_CRASH"); fail_at = num("SHIM_FAIL"); torn = num("SHIM_TORN");
    jitter = num("SHIM_JITTER"); dir = getenv("SHIM_DIR"); logfile = getenv("SHIM_LOG"); ready = 1;
}
static void wobble(void) {
    if (jitter < 0) return;
    long n = __sync_add_and_fetch(&ticks, 1);
    unsigned long x = (unsigned long)n * 6364136223846793005UL + (unsigned long)jitter * 1442695040888963407UL;
    x ^= x >> 29; x *= 0xbf58476d1ce4e5b9UL; x ^= x >> 32;
    if (x % 4 == 0) { struct timespec t = {0, (long)(x % 1000) * 1000}; sys(SYS_nanosleep, &t, 0, 0, 0); }
}
static int under(const char *p) { return dir && p && strstr(p, dir) == p; }
/* 0 go on, 1 fail, 2 torn write then die */
static int op(const char *kind, const char *path) {
    long n = __sync_add_and_fetch(&count, 1);
    if (logfile) {
        char b[700];
        int l = snprintf(b, sizeof b, "%ld %s %s\n", n, kind, path ? path : "?");
        int fd = sys(SYS_openat, AT_FDCWD, logfile, O_WRONLY | O_APPEND | O_CREAT, 0644);
        sys(SYS_write, fd, b, l, 0); sys(SYS_close, fd, 0, 0, 0);
    }
    if (n == crash_at) { if (torn > 0 && !strcmp(kind, "write")) return 2; sys(SYS_exit_group, 77, 0, 0, 0); }
    if (n == fail_at) { errno = ENOSPC; return 1; }
    return 0;
}
static int do_open(int dfd, const char *p, int flags, mode_t m) {
    wobble();
    int mut = under(p) && (flags & (O_CREAT | O_TRUNC | O_WRONLY | O_RDWR));
    if (mut && op(flags & O_TRUNC ? "truncate" : "create", p)) return -1;
    int fd = sys(SYS_openat, dfd, p, flags, m);
    if (fd >= 0 && fd < (int)sizeof tracked) tracked[fd] = mut ? 1 : 0;
    return fd;
}
#define OPEN(name) int name(const char *p, int flags, ...) { va_list a; va_start(a, flags); \
    mode_t m = va_arg(a, int); va_end(a); return do_open(AT_FDCWD, p, flags, m); }
OPEN(open) OPEN(open64)
#define OPENAT(name) int name(int d, const char *p, int flags, ...) { va_list a; va_start(a, flags); \
    mode_t m = va_arg(a, int); va_end(a); return do_open(d, p, flags, m); }
OPENAT(openat) OPENAT(openat64)
ssize_t write(int fd, const void *b, size_t n) {
    if (fd >= 0 && fd < (int)sizeof tracked && tracked[fd]) {
        int r = op("write", "");
        if (r == 1) return -1;
        if (r == 2) { sys(SYS_write, fd, b, n / 2, 0); sys(SYS_exit_group, 77, 0, 0, 0); }
    }
    return sys(SYS_write, fd, b, n, 0);
}
int rename(const char *a, const char *b) {
    if (under(b) && op("rename", b)) return -1;
    return sys(SYS_rename, a, b, 0, 0);
}
int unlink(const char *p) {
    if (under(p) && op("unlink", p)) return -1;
    return sys(SYS_unlink, p, 0, 0, 0);
}
int mkdir(const char *p, mode_t m) {
    if (under(p) && op("mkdir", p)) return -1;
    return sys(SYS_mkdir, p, m, 0, 0);
}
/* Rust's locks use futexes through libc's syscall(). */
long syscall(long n, ...) {
    va_list a; va_start(a, n);
    long x[6]; for (int i = 0; i < 6; i++) x[i] = va_arg(a, long);
    va_end(a);
    if (n == SYS_futex) wobble();
    return ret(raw(n, x[0], x[1], x[2], x[3], x[4], x[5]));
}
