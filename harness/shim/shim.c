/* Fault injection by interposition on read(2)/write(2)/writev(2).
 *   VF_RMAX=a,b,c   successive reads return at most a, b, c, a, b, ... bytes
 *   VF_WMAX=a,b,c   the same for writes (not to stderr)
 *   VF_RFAIL=N,E    after N bytes have been read in all, read fails with errno E
 *   VF_WFAIL=N,E    after N bytes have been written in all, write fails with errno E
 *   VF_ONCE=1       only one read or write fails; the calls after it succeed again
 *   VF_SCREEN=R,C   ioctl(TIOCGWINSZ) on stderr reports R rows and C columns
 *   VF_FD=M         only descriptors >= M are subject to RFAIL (0: all)
 *   VF_MARK=path    a file to which one letter is appended per injected failure; at exit, the number of shortened calls
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <sys/ioctl.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/vfs.h>
#include <unistd.h>

static long rmax[32], wmax[32];
static int nr, nw, ir, iw, ready;
static long rfail = -1, wfail = -1, rdone, wdone, shortened;
static int rerr, werr, marked, once;
static const char *mark;

static int list(const char *s, long *v) {
    int n = 0;
    while (s && *s && n < 32) {
        char *e;
        v[n++] = strtol(s, &e, 10);
        s = *e ? e + 1 : e;
    }
    return n;
}
static void init(void) {
    if (ready)
        return;
    ready = 1;
    long v[32];
    nr = list(getenv("VF_RMAX"), rmax);
    nw = list(getenv("VF_WMAX"), wmax);
    if (list(getenv("VF_RFAIL"), v) == 2)
        rfail = v[0], rerr = v[1];
    if (list(getenv("VF_WFAIL"), v) == 2)
        wfail = v[0], werr = v[1];
    once = getenv("VF_ONCE") != NULL;
    mark = getenv("VF_MARK");
}
static void note(const char *s) {
    if (!mark)
        return;
    int fd = syscall(SYS_openat, AT_FDCWD, mark, O_WRONLY | O_CREAT | O_APPEND, 0644);
    if (fd >= 0) {
        syscall(SYS_write, fd, s, strlen(s));
        syscall(SYS_close, fd);
    }
}
static void fin(void) __attribute__((destructor));
static void fin(void) {
    if (shortened) {
        char b[40];
        snprintf(b, sizeof b, " %ld", shortened);
        note(b);
    }
}
/* the kernel's own files (/proc, /sys, cgroups) are no input */
static int kernel_file(int fd) {
    struct statfs b;
    if (fstatfs(fd, &b))
        return 0;
    unsigned long t = (unsigned long)b.f_type;
    return t == 0x9fa0 || t == 0x62656572 || t == 0x27e0eb || t == 0x63677270;
}
ssize_t read(int fd, void *buf, size_t n) {
    init();
    if (kernel_file(fd))
        return syscall(SYS_read, fd, buf, n);
    size_t want = n;
    if (nr && n) {
        size_t m = rmax[ir++ % nr];
        if (m && want > m)
            want = m, shortened++;
    }
    if (rfail >= 0) {
        if (rdone >= rfail && n) {
            if (!marked)
                note("R"), marked = 1;
            if (once)
                rfail = -1;
            errno = rerr;
            return -1;
        }
        if (want > (size_t)(rfail - rdone))
            want = rfail - rdone;
    }
    ssize_t r = syscall(SYS_read, fd, buf, want);
    if (r > 0)
        rdone += r;
    return r;
}
ssize_t write(int fd, const void *buf, size_t n) {
    init();
    if (fd == 2)
        return syscall(SYS_write, fd, buf, n);
    size_t want = n;
    if (nw && n) {
        size_t m = wmax[iw++ % nw];
        if (m && want > m)
            want = m, shortened++;
    }
    if (wfail >= 0) {
        if (wdone >= wfail && n) {
            if (!marked)
                note("W"), marked = 1;
            if (once)
                wfail = -1;
            errno = werr;
            return -1;
        }
        if (want > (size_t)(wfail - wdone))
            want = wfail - wdone;
    }
    ssize_t r = syscall(SYS_write, fd, buf, want);
    if (r > 0)
        wdone += r;
    return r;
}
ssize_t writev(int fd, const struct iovec *v, int c) {
    init();
    if (fd == 2)
        return syscall(SYS_writev, fd, v, c);
    for (int i = 0; i < c; i++)
        if (v[i].iov_len)
            return write(fd, v[i].iov_base, v[i].iov_len);
    return 0;
}

int ioctl(int fd, unsigned long req, ...) {
    va_list ap;
    va_start(ap, req);
    void *arg = va_arg(ap, void *);
    va_end(ap);
    long v[32];
    if (fd == 2 && req == TIOCGWINSZ && list(getenv("VF_SCREEN"), v) == 2) {
        struct winsize *w = arg;
        memset(w, 0, sizeof *w);
        w->ws_row = v[0];
        w->ws_col = v[1];
        init();
        note("I");
        return 0;
    }
    return syscall(SYS_ioctl, fd, req, arg);
}
