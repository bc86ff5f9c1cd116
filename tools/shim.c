/* Preloaded into a process under observation: kills it at its n-th file operation, or slows file operations down.
   SHIM_PATH   only operations on files whose path contains this text count
   SHIM_KILL   n: SIGKILL just before the n-th counted operation; SHIM_HALF=1: write half of the data first
   SHIM_DELAY  largest random delay, in microseconds, before each counted operation
   SHIM_FAIL   n: the n-th counted operation fails with EIO (SHIM_FAIL_ERRNO) instead */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
#include <time.h>
#include <unistd.h>
static long counter, kill_at, fail_at, delay_us; static int half, ready; static const char *needle; static unsigned long rnd;
static void init(void) {
    if (ready) return;
    ready = 1;
    const char *e;
    kill_at = (e = getenv("SHIM_KILL")) ? atol(e) : 0; fail_at = (e = getenv("SHIM_FAIL")) ? atol(e) : 0;
    delay_us = (e = getenv("SHIM_DELAY")) ? atol(e) : 0; half = getenv("SHIM_HALF") != 0; needle = getenv("SHIM_PATH");
    rnd = (unsigned long)getpid() * 2654435761u + 12345;
}
static int path_counts(const char *p) { return needle && p && strstr(p, needle) != 0; }
static int fd_counts(int fd) {
    char link[64], path[4096]; snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
    ssize_t n = readlink(link, path, sizeof path - 1);
    if (n <= 0) return 0;
    path[n] = 0; return path_counts(path);
}
static void nap(void) {
    if (!delay_us) return;
    rnd = rnd * 6364136223846793005ul + 1442695040888963407ul;
    if ((rnd >> 40) % 3 == 0) { struct timespec t = {0, (long)((rnd >> 33) % (unsigned long)delay_us) * 1000}; nanosleep(&t, 0); }
}
/* 1: this operation must fail */
static int step(int half_possible, int *do_half) {
    long n = __atomic_add_fetch(&counter, 1, __ATOMIC_SEQ_CST);
    nap();
    if (kill_at && n == kill_at) { if (half && half_possible) { *do_half = 1; return 0; } raise(SIGKILL); }
    return fail_at && n == fail_at;
}
#define REAL(name) static __typeof__(&name) real; if (!real) real = (__typeof__(&name))dlsym(RTLD_NEXT, #name); init();
#define OPEN(name) int name(const char *p, int flags, ...) { REAL(name); mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); m = va_arg(a, mode_t); va_end(a); } \
    if ((flags & O_CREAT) && path_counts(p)) { int h = 0; if (step(0, &h)) { errno = EIO; return -1; } } return real(p, flags, m); }
OPEN(open) OPEN(open64)
#define PW(name, off) ssize_t name(int fd, const void *b, size_t n, off o) { REAL(name); if (fd_counts(fd)) { int h = 0; if (step(n > 1, &h)) { errno = EIO; return -1; } if (h) { real(fd, b, n / 2, o); raise(SIGKILL); } } return real(fd, b, n, o); }
PW(pwrite, off_t) PW(pwrite64, off64_t)
ssize_t write(int fd, const void *b, size_t n) { REAL(write); if (fd > 2 && fd_counts(fd)) { int h = 0; if (step(n > 1, &h)) { errno = EIO; return -1; } if (h) { real(fd, b, n / 2); raise(SIGKILL); } } return real(fd, b, n); }
#define FD(name) int name(int fd) { REAL(name); if (fd_counts(fd)) { int h = 0; if (step(0, &h)) { errno = EIO; return -1; } } return real(fd); }
FD(fsync) FD(fdatasync)
#define TR(name, off) int name(int fd, off o) { REAL(name); if (fd_counts(fd)) { int h = 0; if (step(0, &h)) { errno = EIO; return -1; } } return real(fd, o); }
TR(ftruncate, off_t) TR(ftruncate64, off64_t)
int unlink(const char *p) { REAL(unlink); if (path_counts(p)) { int h = 0; if (step(0, &h)) { errno = EIO; return -1; } } return real(p); }
