/* LD_PRELOAD stand-in for the I/O environment of freqcd.
 *
 * The schedule (which handle becomes ready when, how many bytes each read
 * returns, end-of-file, errors, short writes) comes from the file named by
 * SHIM_SCRIPT; every system call is recorded in the file named by SHIM_LOG.
 * Paths SHIM_IN / SHIM_FREQ / SHIM_OUT name the virtual input, correction and
 * output streams; without them input is fd 0 and output is fd 1.
 *
 * Script lines (one step each, consumed by one wait for readiness):
 *   <in> <freq> <write>
 *   in, freq:  "-"          not ready
 *              "z"          end of file
 *              "e<errno>"   read fails
 *              hex bytes    available data
 *   write:     "-"          writes are accepted in full
 *              "s<n>"       the next write accepts only n bytes
 *              "e<errno>"   the next write fails
 *   A step "- - -" is a wait that times out; "w<errno> - -" a wait that fails.
 * After the last step the input is at end of file.
 *
 * Log lines: "W" (a wait), "I <hex|z|e>" (input read), "F <hex|z|e>"
 * (correction read), "O <hex>" (bytes accepted for output), "OE" (a short or
 * failed write), "FD" (corrections were available, and the program went on
 * to a later wait without taking them).
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/select.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

#define MAXSTEP 100000
static int ready, infd = 0, outfd = 1, freqfd = -1;
static int logfd = -1;
static char *script, **lines;
static int nlines, cur = -1;       /* cur: index of the step in force */
static int finished;
static const char *pin, *pfreq, *pout;

/* state of the step in force */
static unsigned char *ibuf, *fbuf;
static size_t ilen, ioff, flen, foff;
static char ikind, fkind, wkind;   /* '-', 'z', 'e', 'd' ; wkind '-', 's', 'e' */
static int ierr, ferr, werr, wn;
static int waits_after_end;
static int funasked;               /* the wait did not ask for corrections */
static int ftaken;                 /* some were read since the last wait */
static int fclosed;                /* the program was told that they ended */

static void logs(const char *s, size_t n) {
    while (n) {
        long r = syscall(SYS_write, logfd, s, n);
        if (r <= 0) return;
        s += r; n -= r;
    }
}
static void loghex(const char *tag, const unsigned char *b, size_t n) {
    char *o = malloc(2 * n + 8), *p = o;
    *p++ = tag[0]; *p++ = ' ';
    for (size_t i = 0; i < n; i++) p += sprintf(p, "%02x", b[i]);
    *p++ = '\n';
    logs(o, p - o);
    free(o);
}

static void init(void) {
    if (ready) return;
    ready = 1;
    const char *s = getenv("SHIM_SCRIPT"), *l = getenv("SHIM_LOG");
    pin = getenv("SHIM_IN"); pfreq = getenv("SHIM_FREQ"); pout = getenv("SHIM_OUT");
    logfd = syscall(SYS_openat, AT_FDCWD, l, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0600);
    /* keep the log out of the small descriptor numbers the program uses */
    int hi = syscall(SYS_fcntl, logfd, F_DUPFD_CLOEXEC, 200);
    if (hi >= 0) { syscall(SYS_close, logfd); logfd = hi; }
    int fd = syscall(SYS_openat, AT_FDCWD, s, O_RDONLY | O_CLOEXEC, 0);
    struct stat st;
    fstat(fd, &st);
    script = malloc(st.st_size + 1);
    size_t n = 0;
    while (n < (size_t)st.st_size) {
        long r = syscall(SYS_read, fd, script + n, st.st_size - n);
        if (r <= 0) break;
        n += r;
    }
    script[n] = 0;
    syscall(SYS_close, fd);
    lines = malloc(sizeof(char *) * MAXSTEP);
    for (char *p = strtok(script, "\n"); p && nlines < MAXSTEP; p = strtok(NULL, "\n"))
        lines[nlines++] = p;
    if (pin) infd = -1;
    if (pout) outfd = -1;
}

static unsigned char *unhex(const char *t, size_t *n) {
    *n = strlen(t) / 2;
    unsigned char *b = malloc(*n + 1);
    for (size_t i = 0; i < *n; i++) {
        unsigned v;
        sscanf(t + 2 * i, "%2x", &v);
        b[i] = v;
    }
    return b;
}
static char field(const char *t, unsigned char **b, size_t *n, int *err) {
    *n = 0;
    if (t[0] == '-') return '-';
    if (t[0] == 'z') return 'z';
    if (t[0] == 'e' && t[1] == ':') { *err = atoi(t + 2); return 'e'; }
    *b = unhex(t, n);
    return 'd';
}

/* moves to the next step; returns errno of a failing wait, or 0 */
static int advance(void) {
    /* data not consumed in the previous step stays available */
    int ihave = (ikind == 'd' && ioff < ilen) || ikind == 'z' || ikind == 'e';
    int fhave = (fkind == 'd' && foff < flen) || fkind == 'z' || fkind == 'e';
    /* not waited for: taken by an unconditional read, or left behind */
    if (funasked && !ftaken) {
        if (fkind == 'd' && foff < flen && freqfd >= 0 && !fclosed) logs("FD\n", 3);
        fhave = 0;
        fkind = '-';
    }
    funasked = ftaken = 0;
    if (cur >= 0 && (ihave || fhave) && ikind != 'x' &&
        !(ikind == 'z' && finished)) {
        /* same step again, until everything offered was taken */
        if (++waits_after_end > 100000) { logs("HANG\n", 5); syscall(SYS_exit_group, 99); }
        return 0;
    }
    if (cur + 1 >= nlines) {
        finished = 1;
        ikind = 'z'; fkind = '-'; wkind = '-';
        if (++waits_after_end > 1000) { logs("HANG\n", 5); syscall(SYS_exit_group, 99); }
        return 0;
    }
    cur++;
    char *a = lines[cur], *b = strchr(a, ' '), *c;
    *b++ = 0; c = strchr(b, ' '); *c++ = 0;
    ioff = foff = 0;
    wkind = c[0];
    if (wkind == 's') wn = atoi(c + 1);
    if (wkind == 'e') werr = atoi(c + 2);
    if (a[0] == 'w') { ikind = fkind = '-'; return atoi(a + 1); }
    ikind = field(a, &ibuf, &ilen, &ierr);
    fkind = field(b, &fbuf, &flen, &ferr);
    return 0;
}
static int in_ready(void)   { return ikind == 'z' || ikind == 'e' || (ikind == 'd' && ioff < ilen); }
static int freq_ready(void) { return fkind == 'z' || fkind == 'e' || (fkind == 'd' && foff < flen); }

static int do_wait(void) {
    logs("W\n", 2);
    int e = advance();
    if (e) { errno = e; return -1; }
    return 0;
}

int select(int n, fd_set *r, fd_set *w, fd_set *x, struct timeval *tv) {
    init();
    if (!r && !w && !x) { if (tv) tv->tv_sec = tv->tv_usec = 0; return 0; }
    int wantin = r && infd >= 0 && FD_ISSET(infd, r);
    int wantf = r && freqfd >= 0 && FD_ISSET(freqfd, r);
    if (do_wait()) return -1;
    if (x) FD_ZERO(x);
    int k = 0;
    if (r) {
        FD_ZERO(r);
        if (wantin && in_ready()) { FD_SET(infd, r); k++; }
        if (wantf && freq_ready()) { FD_SET(freqfd, r); k++; }
    }
    if (w && outfd >= 0 && FD_ISSET(outfd, w)) k++;
    funasked = !wantf;
    return k;
}
int pselect(int n, fd_set *r, fd_set *w, fd_set *x, const struct timespec *ts, const sigset_t *s) {
    struct timeval tv = {0, 0};
    return select(n, r, w, x, &tv);
}
int poll(struct pollfd *p, nfds_t n, int timeout) {
    init();
    if (do_wait()) return -1;
    int k = 0, wantf = 0;
    for (nfds_t i = 0; i < n; i++) {
        p[i].revents = 0;
        if (p[i].fd == infd && in_ready()) p[i].revents = POLLIN;
        if (p[i].fd == freqfd && p[i].fd >= 0) { wantf = 1; if (freq_ready()) p[i].revents = POLLIN; }
        if (p[i].fd == outfd) p[i].revents |= p[i].events & POLLOUT;
        if (p[i].revents) k++;
    }
    funasked = !wantf;
    return k;
}

ssize_t read(int fd, void *buf, size_t count) {
    init();
    if (fd == infd) {
        if (cur < 0 && !finished) advance();    /* read without waiting first */
        while (!in_ready() && !finished) { if (fkind != '-') { fkind = 'x'; } advance(); }
        if (ikind == 'z') { ikind = finished ? 'z' : 'x'; logs("I z\n", 4); return 0; }
        if (ikind == 'e') { ikind = 'x'; logs("I e\n", 4); errno = ierr; return -1; }
        size_t k = ilen - ioff;
        if (k > count) k = count;
        memcpy(buf, ibuf + ioff, k);
        loghex("I", ibuf + ioff, k);
        ioff += k;
        return k;
    }
    if (fd == freqfd && fd >= 0) {
        if (fkind == 'z') { fkind = 'x'; fclosed = 1; logs("F z\n", 4); return 0; }
        if (fkind == 'e') { fkind = 'x'; fclosed = 1; logs("F e\n", 4); errno = ferr; return -1; }
        if (fkind != 'd' || foff >= flen) { errno = EAGAIN; return -1; }
        size_t k = flen - foff;
        if (k > count) k = count;
        memcpy(buf, fbuf + foff, k);
        loghex("F", fbuf + foff, k);
        foff += k;
        if (k) ftaken = 1;
        return k;
    }
    return syscall(SYS_read, fd, buf, count);
}

ssize_t write(int fd, const void *buf, size_t count) {
    init();
    if (fd == outfd) {
        if (count == 0) return 0;
        if (wkind == 's') {
            wkind = '-';
            size_t k = (size_t)wn < count ? (size_t)wn : count;
            loghex("O", buf, k);
            logs("OE\n", 3);
            return k;
        }
        if (wkind == 'e') { wkind = '-'; logs("OE\n", 3); errno = werr; return -1; }
        loghex("O", buf, count);
        return count;
    }
    return syscall(SYS_write, fd, buf, count);
}

static int vopen(const char *path, int flags, int mode) {
    init();
    int which = 0;
    if (pin && !strcmp(path, pin)) which = 1;
    else if (pfreq && !strcmp(path, pfreq)) which = 2;
    else if (pout && !strcmp(path, pout)) which = 3;
    if (!which) return syscall(SYS_openat, AT_FDCWD, path, flags, mode);
    int fd = syscall(SYS_openat, AT_FDCWD, "/dev/null", O_RDWR, 0);
    if (which == 1) infd = fd;
    if (which == 2) freqfd = fd;
    if (which == 3) outfd = fd;
    return fd;
}
int open(const char *path, int flags, ...) {
    va_list ap; va_start(ap, flags);
    int mode = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, int) : 0;
    va_end(ap);
    return vopen(path, flags, mode);
}
int open64(const char *path, int flags, ...) {
    va_list ap; va_start(ap, flags);
    int mode = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, int) : 0;
    va_end(ap);
    return vopen(path, flags, mode);
}
