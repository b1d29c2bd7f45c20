/* Fault injection at the libc read/write interface.
 *
 * MON_FI      rules separated by ';':  op,class,nth,action,arg
 *             op     w (write) | r (read)
 *             class  f (regular file below MON_FI_ROOT, not stdout or stderr) | 1 (stdout)
 *             nth    1-based number of the call of that op and class, or 0 for every call
 *             action short (at most arg bytes) | err (errno arg) | delay (up to arg us) | kill
 * MON_FI_LOG  file that receives one line per call of a class: op class n bytes action name
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

struct rule { char op, cls; long nth; char act; long arg; };
static struct rule rules[32];
static int nrules;
static const char *root;
static int logfd = -1;
static atomic_long cnt[2][2];
static atomic_ulong rnd;

static long raw_write(int fd, const void *b, size_t n) { return syscall(SYS_write, fd, b, n); }
static long raw_read(int fd, void *b, size_t n) { return syscall(SYS_read, fd, b, n); }

__attribute__((constructor)) static void init(void) {
    const char *s = getenv("MON_FI");
    root = getenv("MON_FI_ROOT");
    const char *l = getenv("MON_FI_LOG");
    const char *sd = getenv("MON_FI_SEED");
    rnd = sd ? strtoul(sd, 0, 10) : 1;
    if (l) logfd = open(l, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
    if (logfd >= 0) {
        int hi = fcntl(logfd, F_DUPFD_CLOEXEC, 200);
        if (hi >= 0) { close(logfd); logfd = hi; }
    }
    while (s && *s && nrules < 32) {
        struct rule r; char act[16];
        memset(&r, 0, sizeof r);
        if (sscanf(s, "%c,%c,%ld,%15[a-z],%ld", &r.op, &r.cls, &r.nth, act, &r.arg) == 5) {
            r.act = act[0];
            rules[nrules++] = r;
        }
        s = strchr(s, ';');
        if (s) s++;
    }
}

static __thread char name_buf[256];

static int classify(int fd) {
    strcpy(name_buf, "-");
    if (fd == 1) return '1';
    if (fd == 2 || fd == logfd || !root) return 0;
    struct stat st;
    if (fstat(fd, &st) || !S_ISREG(st.st_mode)) return 0;
    char p[64], buf[4096];
    snprintf(p, sizeof p, "/proc/self/fd/%d", fd);
    ssize_t n = readlink(p, buf, sizeof buf - 1);
    if (n <= 0) return 0;
    buf[n] = 0;
    if (strncmp(buf, root, strlen(root))) return 0;
    const char *b = strrchr(buf, '/');
    snprintf(name_buf, sizeof name_buf, "%.200s", b ? b + 1 : buf);
    for (char *q = name_buf; *q; q++) if (*q == ' ' || *q == '\n') *q = '_';
    return 'f';
}

/* returns -1: fail with errno set; otherwise the number of bytes to pass on */
static long apply(char op, int fd, size_t n) {
    int e0 = errno;
    int c = classify(fd);
    errno = e0;
    if (!c) return (long)n;
    long k = 1 + atomic_fetch_add(&cnt[op == 'w'][c == '1'], 1);
    long out = (long)n;
    int fail = 0;
    char done = '-';
    for (int i = 0; i < nrules; i++) {
        struct rule *r = &rules[i];
        if (r->op != op || r->cls != c || (r->nth && r->nth != k)) continue;
        done = r->act;
        if (r->act == 's') { if (out > r->arg) out = r->arg; }
        else if (r->act == 'e') fail = (int)r->arg;
        else if (r->act == 'k') { if (logfd >= 0) raw_write(logfd, "k\n", 2); kill(getpid(), SIGKILL); }
        else if (r->act == 'd') {
            unsigned long x = atomic_fetch_add(&rnd, 0x9E3779B97F4A7C15ul);
            x ^= x >> 30; x *= 0xBF58476D1CE4E5B9ul; x ^= x >> 27;
            long us = r->arg > 0 ? (long)(x % (unsigned long)(r->arg + 1)) : 0;
            struct timespec ts = { us / 1000000, (us % 1000000) * 1000 };
            nanosleep(&ts, 0);
        }
    }
    if (logfd >= 0) {
        char b[400];
        int m = snprintf(b, sizeof b, "%c %c %ld %zu %c %s\n", op, c, k, n, done, name_buf);
        raw_write(logfd, b, m);
    }
    if (fail) { errno = fail; return -1; }
    errno = e0;
    return out;
}

ssize_t write(int fd, const void *b, size_t n) {
    long m = apply('w', fd, n);
    return m < 0 ? -1 : raw_write(fd, b, m);
}
ssize_t read(int fd, void *b, size_t n) {
    long m = apply('r', fd, n);
    return m < 0 ? -1 : raw_read(fd, b, m);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
    long m = apply('w', fd, n);
    return m < 0 ? -1 : syscall(SYS_pwrite64, fd, b, m, o);
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return pwrite64(fd, b, n, o); }
ssize_t pread64(int fd, void *b, size_t n, off64_t o) {
    long m = apply('r', fd, n);
    return m < 0 ? -1 : syscall(SYS_pread64, fd, b, m, o);
}
ssize_t pread(int fd, void *b, size_t n, off_t o) { return pread64(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec *v, int c) {
    size_t n = 0;
    for (int i = 0; i < c; i++) n += v[i].iov_len;
    long m = apply('w', fd, n);
    if (m < 0) return -1;
    if (m == (long)n) return syscall(SYS_writev, fd, v, c);
    /* a short write: the first buffer only */
    for (int i = 0; i < c; i++)
        if (v[i].iov_len) return raw_write(fd, v[i].iov_base, (long)v[i].iov_len < m ? (long)v[i].iov_len : m);
    return 0;
}
ssize_t readv(int fd, const struct iovec *v, int c) {
    size_t n = 0;
    for (int i = 0; i < c; i++) n += v[i].iov_len;
    long m = apply('r', fd, n);
    if (m < 0) return -1;
    if (m == (long)n) return syscall(SYS_readv, fd, v, c);
    for (int i = 0; i < c; i++)
        if (v[i].iov_len) return raw_read(fd, v[i].iov_base, (long)v[i].iov_len < m ? (long)v[i].iov_len : m);
    return 0;
}
