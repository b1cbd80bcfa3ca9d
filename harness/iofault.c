/* LD_PRELOAD shim: counts the calls that change files whose name contains VF_IO_MATCH and, at call number VF_IO_AT,
   kills the process (VF_IO_MODE=kill), kills it after writing half (torn), or fails the call (err: EIO, full: ENOSPC).
   VF_IO_COUNT names a file that receives the number of calls seen (overwritten at each call). */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
static long at = -1, seen; static const char *match, *mode; static int init, cfd = -1, once;
static void ini(void) {
    init = 1; match = getenv("VF_IO_MATCH"); mode = getenv("VF_IO_MODE"); if (!mode) mode = "kill";
    const char *a = getenv("VF_IO_AT"), *c = getenv("VF_IO_COUNT"); if (a) at = atol(a); once = getenv("VF_IO_ONCE") != 0;
    if (c) cfd = open(c, O_WRONLY | O_CREAT | O_TRUNC, 0666);
}
static int mine(int fd, const char *path) {
    char l[64], b[4096]; ssize_t n;
    if (!init) ini();
    if (!match) return 0;
    if (!path) { snprintf(l, sizeof l, "/proc/self/fd/%d", fd); n = readlink(l, b, sizeof b - 1); if (n < 0) return 0; b[n] = 0; path = b; }
    return strstr(path, match) != 0;
}
/* 0: go on, 1: torn write then die, 2: fail */
static int hit(int canfail) {
    seen++;
    if (cfd >= 0) { char b[32]; static ssize_t (*pw)(int, const void *, size_t, off_t); if (!pw) pw = dlsym(RTLD_NEXT, "pwrite64"); int n = snprintf(b, sizeof b, "%ld\n", seen); pw(cfd, b, n, 0); }
    if (at < 0 || seen < at || (once && seen > at)) return 0;
    if (!strcmp(mode, "kill")) raise(SIGKILL);
    if (!strcmp(mode, "torn")) return 1;
    if (!canfail) return 0;
    errno = !strcmp(mode, "full") ? ENOSPC : EIO; return 2;
}
#define REAL(name, ...) static __typeof__(name) *real; if (!real) real = dlsym(RTLD_NEXT, #name)
ssize_t write(int fd, const void *b, size_t n) { REAL(write); if (mine(fd, 0)) switch (hit(1)) { case 1: real(fd, b, n / 2); raise(SIGKILL); case 2: return -1; } return real(fd, b, n); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { REAL(pwrite); if (mine(fd, 0)) switch (hit(1)) { case 1: real(fd, b, n / 2, o); raise(SIGKILL); case 2: return -1; } return real(fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { REAL(pwrite64); if (mine(fd, 0)) switch (hit(1)) { case 1: real(fd, b, n / 2, o); raise(SIGKILL); case 2: return -1; } return real(fd, b, n, o); }
int ftruncate(int fd, off_t o) { REAL(ftruncate); if (mine(fd, 0)) switch (hit(0)) { case 1: raise(SIGKILL); } return real(fd, o); }
int ftruncate64(int fd, off64_t o) { REAL(ftruncate64); if (mine(fd, 0)) switch (hit(0)) { case 1: raise(SIGKILL); } return real(fd, o); }
int fsync(int fd) { REAL(fsync); if (mine(fd, 0)) switch (hit(0)) { case 1: raise(SIGKILL); } return real(fd); }
int fdatasync(int fd) { REAL(fdatasync); if (mine(fd, 0)) switch (hit(0)) { case 1: raise(SIGKILL); } return real(fd); }
int unlink(const char *p) { REAL(unlink); if (mine(-1, p)) switch (hit(0)) { case 1: raise(SIGKILL); } return real(p); }
int rename(const char *p, const char *q) { REAL(rename); if (mine(-1, q)) switch (hit(0)) { case 1: raise(SIGKILL); } return real(p, q); }
