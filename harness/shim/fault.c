/* Preloaded into the linker under test: counts what it does once it has begun to touch the output
 * file, and makes one of these operations go wrong.
 * FAULT_OUT   name of the output file (its last component)
 * FAULT_AT    which operation (from 0), or -1
 * FAULT_MODE  kill: die before it;  enospc, eio: it fails;  short: it does half of its work;
 *             eintr: it is interrupted once
 * FAULT_LOG   gets one character for every operation */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static int ready, begun, at = -1, count, logfd = -1;
static const char *out = "out", *mode = "";

static void init(void) {
    if (ready)
        return;
    ready = 1;
    const char *s;
    if ((s = getenv("FAULT_OUT")))
        out = s;
    if ((s = getenv("FAULT_AT")))
        at = atoi(s);
    if ((s = getenv("FAULT_MODE")))
        mode = s;
    if ((s = getenv("FAULT_LOG")))
        logfd = syscall(SYS_openat, AT_FDCWD, s, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
}

static int is_out(const char *path) {
    const char *b = strrchr(path, '/');
    return strcmp(b ? b + 1 : path, out) == 0;
}

enum { GO, FAIL, HALF };

/* what is to become of the operation that is about to happen */
static int next(char c) {
    init();
    if (!begun)
        return GO;
    int me = count++;
    if (logfd >= 0)
        syscall(SYS_write, logfd, &c, 1);
    if (me != at)
        return GO;
    if (!strcmp(mode, "kill")) {
        syscall(SYS_kill, syscall(SYS_getpid), SIGKILL);
        for (;;)
            ;
    }
    if (!strcmp(mode, "short"))
        return HALF;
    /* only transfers are interrupted */
    if (!strcmp(mode, "eintr"))
        return c == 'w' || c == 'r' ? (errno = EINTR, FAIL) : GO;
    /* opening is left alone: what is there already cannot be helped then */
    if (c == 'o')
        return GO;
    errno = !strcmp(mode, "enospc") ? ENOSPC : EIO;
    return FAIL;
}

ssize_t write(int fd, const void *b, size_t n) {
    if (fd > 2)
        switch (next('w')) {
        case FAIL: return -1;
        case HALF: n = (n + 1) / 2;
        }
    ssize_t r = syscall(SYS_write, fd, b, n);
    return r;
}
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) {
    switch (next('w')) {
    case FAIL: return -1;
    case HALF: n = (n + 1) / 2;
    }
    return syscall(SYS_pwrite64, fd, b, n, o);
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return pwrite64(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec *v, int n) {
    if (fd > 2)
        switch (next('w')) {
        case FAIL: return -1;
        case HALF: n = (n + 1) / 2;
        }
    return syscall(SYS_writev, fd, v, n);
}
ssize_t read(int fd, void *b, size_t n) {
    if (fd > 2)
        switch (next('r')) {
        case FAIL: return -1;
        case HALF: n = (n + 1) / 2;
        }
    return syscall(SYS_read, fd, b, n);
}
int open64(const char *p, int flags, ...) {
    va_list a;
    va_start(a, flags);
    mode_t m = va_arg(a, int);
    va_end(a);
    if ((flags & O_ACCMODE) != O_RDONLY && is_out(p))
        begun = 1;
    if ((flags & O_ACCMODE) != O_RDONLY)
        next('o');
    return syscall(SYS_openat, AT_FDCWD, p, flags, m);
}
int open(const char *p, int flags, ...) {
    va_list a;
    va_start(a, flags);
    mode_t m = va_arg(a, int);
    va_end(a);
    return open64(p, flags, m);
}
int unlink(const char *p) {
    if (is_out(p))
        begun = 1;
    if (next('u') == FAIL)
        return -1;
    return syscall(SYS_unlink, p);
}
int rename(const char *a, const char *b) {
    if (is_out(b))
        begun = 1;
    if (next('n') == FAIL)
        return -1;
    return syscall(SYS_rename, a, b);
}
int fchmod(int fd, mode_t m) {
    if (next('m') == FAIL)
        return -1;
    return syscall(SYS_fchmod, fd, m);
}
int chmod(const char *p, mode_t m) {
    if (next('m') == FAIL)
        return -1;
    return syscall(SYS_fchmodat, AT_FDCWD, p, m, 0);
}
int ftruncate64(int fd, off_t n) {
    if (next('t') == FAIL)
        return -1;
    return syscall(SYS_ftruncate, fd, n);
}
int ftruncate(int fd, off_t n) { return ftruncate64(fd, n); }
int fsync(int fd) {
    if (next('s') == FAIL)
        return -1;
    return syscall(SYS_fsync, fd);
}
int close(int fd) {
    if (fd > 2)
        next('c');
    return syscall(SYS_close, fd);
}
