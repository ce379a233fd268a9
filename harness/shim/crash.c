/* Preloaded into the node: ends the process with SIGKILL at one of its file-system operations
   (counted from 1), before it, in the middle of it (half of the bytes written) or after it.
   VRU_KILL_AT number, VRU_KILL_HOW before|torn|after, VRU_KILL_COUNT file for the total. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/un.h>
#include <unistd.h>

static atomic_int count;
static int at = -1, how, fd_count = -1;
enum { BEFORE, TORN, AFTER };

__attribute__((constructor)) static void init(void) {
    const char *a = getenv("VRU_KILL_AT"), *h = getenv("VRU_KILL_HOW"), *c = getenv("VRU_KILL_COUNT");
    at = a ? atoi(a) : 0;
    how = !h ? BEFORE : !strcmp(h, "torn") ? TORN : !strcmp(h, "after") ? AFTER : BEFORE;
    if (c) fd_count = syscall(SYS_openat, AT_FDCWD, c, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0600);
}
static void die(void) {
    syscall(SYS_kill, getpid(), SIGKILL);
    for (;;) pause();
}
/* is this the operation? */
static int hit(void) {
    int n = atomic_fetch_add(&count, 1) + 1;
    if (fd_count >= 0) syscall(SYS_write, fd_count, ".", 1);
    return n == at;
}
static int file(int fd) {
    struct stat s;
    if (fd == 1 || fd == 2) return 1;
    return syscall(SYS_fstat, fd, &s) == 0 && S_ISREG(s.st_mode);
}
#define REAL(name) ({ static __typeof__(&name) f; if (!f) f = (__typeof__(&name))dlsym(RTLD_NEXT, #name); f; })
#define RUN(call, torn) do { \
    if (!hit()) return call; \
    if (how == TORN) { torn; die(); } \
    if (how == AFTER) { call; die(); } \
    die(); \
    return call; } while (0)

ssize_t write(int fd, const void *b, size_t n) {
    if (!file(fd)) return REAL(write)(fd, b, n);
    RUN(REAL(write)(fd, b, n), REAL(write)(fd, b, n / 2));
}
ssize_t writev(int fd, const struct iovec *v, int n) {
    if (!file(fd)) return REAL(writev)(fd, v, n);
    RUN(REAL(writev)(fd, v, n), REAL(writev)(fd, v, n / 2));
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { RUN(REAL(pwrite)(fd, b, n, o), REAL(pwrite)(fd, b, n / 2, o)); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { RUN(REAL(pwrite64)(fd, b, n, o), REAL(pwrite64)(fd, b, n / 2, o)); }
int fsync(int fd) { RUN(REAL(fsync)(fd), (void)0); }
int fdatasync(int fd) { RUN(REAL(fdatasync)(fd), (void)0); }
int sync_file_range(int fd, off64_t o, off64_t n, unsigned f) { RUN(REAL(sync_file_range)(fd, o, n, f), (void)0); }
int ftruncate(int fd, off_t n) { RUN(REAL(ftruncate)(fd, n), (void)0); }
int ftruncate64(int fd, off64_t n) { RUN(REAL(ftruncate64)(fd, n), (void)0); }
int fallocate(int fd, int m, off_t o, off_t n) { RUN(REAL(fallocate)(fd, m, o, n), (void)0); }
int mkdir(const char *p, mode_t m) { RUN(REAL(mkdir)(p, m), (void)0); }
int unlink(const char *p) { RUN(REAL(unlink)(p), (void)0); }
int unlinkat(int d, const char *p, int f) { RUN(REAL(unlinkat)(d, p, f), (void)0); }
int rmdir(const char *p) { RUN(REAL(rmdir)(p), (void)0); }
int rename(const char *a, const char *b) { RUN(REAL(rename)(a, b), (void)0); }
int renameat(int c, const char *a, int d, const char *b) { RUN(REAL(renameat)(c, a, d, b), (void)0); }
int link(const char *a, const char *b) { RUN(REAL(link)(a, b), (void)0); }
int linkat(int c, const char *a, int d, const char *b, int f) { RUN(REAL(linkat)(c, a, d, b, f), (void)0); }
int bind(int fd, const struct sockaddr *a, socklen_t n) {
    if (a->sa_family != AF_UNIX) return REAL(bind)(fd, a, n);
    RUN(REAL(bind)(fd, a, n), (void)0);
}
#define OPEN(name) \
int name(const char *p, int fl, ...) { \
    mode_t m = 0; \
    if (fl & (O_CREAT | O_TMPFILE)) { va_list l; va_start(l, fl); m = va_arg(l, mode_t); va_end(l); } \
    if (!(fl & (O_CREAT | O_TRUNC))) return REAL(name)(p, fl, m); \
    RUN(REAL(name)(p, fl, m), (void)0); }
OPEN(open)
OPEN(open64)
#define OPENAT(name) \
int name(int d, const char *p, int fl, ...) { \
    mode_t m = 0; \
    if (fl & (O_CREAT | O_TMPFILE)) { va_list l; va_start(l, fl); m = va_arg(l, mode_t); va_end(l); } \
    if (!(fl & (O_CREAT | O_TRUNC))) return REAL(name)(d, p, fl, m); \
    RUN(REAL(name)(d, p, fl, m), (void)0); }
OPENAT(openat)
OPENAT(openat64)
