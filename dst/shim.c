/* LD_PRELOAD shim of the world simulator.
 *
 * Inactive until dst_attach() is called in a process node. From then on every
 * intercepted call on the simulated disk (paths below `root`) is announced on
 * req_fd, the node blocks until the scheduler answers on rsp_fd, and the answer
 * decides what happens: see enum below. Clocks, random bytes and process ids
 * are virtual. Nothing here draws from a real clock or a real random source.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdint.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/random.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

/* actions in the scheduler's answer */
enum { A_GO = 0, A_ERR = 1, A_SHORT = 2, A_DIE_BEFORE = 3, A_DIE_AFTER = 4,
       A_DIE_MID = 5, A_ERR_MID = 6, A_ERR_AFTER = 7, A_INT = 8 };

static int active = 0, req_fd = -1, rsp_fd = -1, vpid = 0;
static char root[PATH_MAX];
static size_t rootlen = 0;
#define MAXFD 4096
static unsigned char tracked[MAXFD];
static char *fdpath[MAXFD];
static pthread_mutex_t lock = PTHREAD_MUTEX_INITIALIZER;

/* virtual time, ns */
static int64_t now_ns = 0, mono_ns = 0;
static int64_t clk_tick = 1000, clk_gran = 1, fs_gran = 1;
static uint64_t clk_rng = 0, ent_rng = 1;
static int clk_jump = 0; /* per mille of readings that jump */
static int64_t clk_jump_ns = 0;
static long clk_reads = 0, clk_jumps = 0, ent_reads = 0, nops = 0;

static uint64_t xs(uint64_t *s) {
    uint64_t x = *s;
    x ^= x << 13; x ^= x >> 7; x ^= x << 17;
    return *s = x;
}

#define REAL(name) static __typeof__(name) *real_##name; \
    if (!real_##name) real_##name = (__typeof__(name) *)dlsym(RTLD_NEXT, #name)

static ssize_t raw_write(int fd, const void *b, size_t n) { return syscall(SYS_write, fd, b, n); }
static ssize_t raw_read(int fd, void *b, size_t n) { return syscall(SYS_read, fd, b, n); }
static void die(void) { syscall(SYS_exit_group, 99); for (;;); }

/* exported to Python ------------------------------------------------------ */
void dst_attach(int rq, int rs, const char *rt, int pid, int64_t t0) {
    req_fd = rq; rsp_fd = rs; vpid = pid; now_ns = t0; mono_ns = 1000000000LL;
    strncpy(root, rt, sizeof root - 1);
    rootlen = strlen(root);
    memset(tracked, 0, sizeof tracked);
    active = 1;
}
void dst_clock(int64_t tick, int64_t gran, int jump_permille, int64_t jump_ns, uint64_t seed) {
    clk_tick = tick; clk_gran = gran > 0 ? gran : 1; clk_jump = jump_permille;
    clk_jump_ns = jump_ns; clk_rng = seed ? seed : 1;
}
void dst_fs(int64_t gran) { fs_gran = gran > 0 ? gran : 1; }
void dst_entropy(uint64_t seed) { ent_rng = seed ? seed : 1; }
void dst_detach(void) { active = 0; }
long dst_stat(int what) {
    switch (what) {
    case 0: return clk_reads; case 1: return clk_jumps;
    case 2: return ent_reads; case 3: return nops;
    }
    return -1;
}
int64_t dst_now(void) { return now_ns; }

/* helpers ------------------------------------------------------------------ */
static int abspath(int dirfd, const char *path, char *out) {
    char base[PATH_MAX];
    if (!path) return -1;
    if (path[0] == '/') { base[0] = 0; }
    else if (dirfd == AT_FDCWD) {
        if (syscall(SYS_getcwd, base, sizeof base) < 0) return -1;
    } else {
        char lnk[64];
        snprintf(lnk, sizeof lnk, "/proc/self/fd/%d", dirfd);
        ssize_t n = syscall(SYS_readlinkat, AT_FDCWD, lnk, base, sizeof base - 1);
        if (n < 0) return -1;
        base[n] = 0;
    }
    /* normalise lexically */
    char buf[2 * PATH_MAX + 2];
    snprintf(buf, sizeof buf, "%s/%s", base, path);
    size_t o = 0;
    char *save = NULL;
    out[0] = 0;
    for (char *c = strtok_r(buf, "/", &save); c; c = strtok_r(NULL, "/", &save)) {
        if (!strcmp(c, ".")) continue;
        if (!strcmp(c, "..")) {
            while (o > 0 && out[o - 1] != '/') o--;
            if (o > 0) o--;
            out[o] = 0;
            continue;
        }
        size_t l = strlen(c);
        if (o + l + 2 >= PATH_MAX) return -1;
        out[o++] = '/';
        memcpy(out + o, c, l);
        o += l;
        out[o] = 0;
    }
    return 0;
}
static int inroot(const char *p) {
    return rootlen && !strncmp(p, root, rootlen) && (p[rootlen] == '/' || p[rootlen] == 0);
}
static const char *rel(const char *p) { return p[rootlen] ? p + rootlen + 1 : "."; }

struct ans { int act; long arg; };

static struct ans ask(const char *op, const char *p1, const char *p2, long a, long b) {
    char buf[3 * PATH_MAX];
    struct ans r = {A_GO, 0};
    nops++;
    int n = snprintf(buf, sizeof buf, "%s\t%s\t%s\t%ld\t%ld\t%lld\n", op, p1 ? p1 : "", p2 ? p2 : "", a, b, (long long)now_ns);
    if (raw_write(req_fd, buf, n) != n) die();
    ssize_t k;   /* one answer is outstanding and it is short: one read gets it all */
    while ((k = raw_read(rsp_fd, buf, 200)) < 0 && errno == EINTR) ;
    if (k <= 0) die();
    buf[k] = 0;
    long long t = now_ns;
    long long old = now_ns;
    sscanf(buf, "%d %ld %lld", &r.act, &r.arg, &t);
    now_ns = t;
    if (t > old) mono_ns += t - old;
    if (r.act == A_DIE_BEFORE) die();
    if (r.act == A_INT) { raise(SIGINT); r.act = A_GO; }
    return r;
}

static void stamp(int fd) {
    int e = errno;
    int64_t t = now_ns - now_ns % fs_gran;
    struct timespec ts[2];
    ts[0].tv_sec = ts[1].tv_sec = t / 1000000000LL;
    ts[0].tv_nsec = ts[1].tv_nsec = t % 1000000000LL;
    syscall(SYS_utimensat, fd, NULL, ts, 0);
    errno = e;
}
static int is_tracked(int fd) { return active && fd >= 0 && fd < MAXFD && tracked[fd]; }
static const char *path_of(int fd) { return fd >= 0 && fd < MAXFD && fdpath[fd] ? fdpath[fd] : ""; }

#define LOCK() pthread_mutex_lock(&lock)
#define UNLOCK() pthread_mutex_unlock(&lock)

/* open --------------------------------------------------------------------- */
static int do_open(int dirfd, const char *path, int flags, mode_t mode) {
    char p[PATH_MAX];
    if (!active || abspath(dirfd, path, p) < 0 || !inroot(p))
        return syscall(SYS_openat, dirfd, path, flags, mode);
    LOCK();
    int wr = (flags & O_ACCMODE) != O_RDONLY;
    struct ans r = ask(wr ? "openw" : "open", rel(p), NULL, flags, 0);
    int fd = -1;
    if (r.act == A_ERR) { errno = (int)r.arg; UNLOCK(); return -1; }
    struct stat st;
    int existed = syscall(SYS_newfstatat, AT_FDCWD, p, &st, 0) == 0;
    fd = syscall(SYS_openat, dirfd, path, flags, mode);
    if (fd >= 0) {
        if ((flags & O_TRUNC && wr) || (!existed && (flags & O_CREAT))) stamp(fd);
        if (r.act == A_DIE_AFTER || r.act == A_DIE_MID) die();
        if (fd < MAXFD) {
            tracked[fd] = 1;
            free(fdpath[fd]);
            fdpath[fd] = strdup(rel(p));
        }
    } else if (r.act == A_DIE_AFTER || r.act == A_DIE_MID) die();
    UNLOCK();
    return fd;
}
#define GETMODE() mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
int open(const char *path, int flags, ...) { GETMODE(); return do_open(AT_FDCWD, path, flags, mode); }
int open64(const char *path, int flags, ...) { GETMODE(); return do_open(AT_FDCWD, path, flags, mode); }
int openat(int d, const char *path, int flags, ...) { GETMODE(); return do_open(d, path, flags, mode); }
int openat64(int d, const char *path, int flags, ...) { GETMODE(); return do_open(d, path, flags, mode); }
int creat(const char *path, mode_t mode) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode); }
int creat64(const char *path, mode_t mode) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode); }

int close(int fd) {
    if (!is_tracked(fd)) return syscall(SYS_close, fd);
    LOCK();
    int fl = syscall(SYS_fcntl, fd, F_GETFL);
    int wr = (fl & O_ACCMODE) != O_RDONLY;
    struct ans r = {A_GO, 0};
    if (wr) r = ask("close", path_of(fd), NULL, fd, 0);
    tracked[fd] = 0;
    int rc = syscall(SYS_close, fd);
    if (r.act == A_DIE_AFTER || r.act == A_DIE_MID) die();
    if (r.act == A_ERR) { errno = (int)r.arg; rc = -1; }
    UNLOCK();
    return rc;
}
int dup2(int a, int b) {
    int rc = syscall(SYS_dup2, a, b);
    if (active && rc >= 0 && b < MAXFD && a < MAXFD && a >= 0 && a != b) {
        tracked[b] = tracked[a];
        free(fdpath[b]);
        fdpath[b] = tracked[a] && fdpath[a] ? strdup(fdpath[a]) : NULL;
    }
    return rc;
}

/* read / write -------------------------------------------------------------- */
ssize_t read(int fd, void *buf, size_t n) {
    if (!is_tracked(fd)) return syscall(SYS_read, fd, buf, n);
    LOCK();
    struct ans r = ask("read", path_of(fd), NULL, (long)n, 0);
    ssize_t rc;
    if (r.act == A_ERR) { errno = (int)r.arg; UNLOCK(); return -1; }
    if (r.act == A_SHORT && n > 1) { n = (size_t)r.arg < n ? (size_t)r.arg : n; if (n < 1) n = 1; }
    rc = syscall(SYS_read, fd, buf, n);
    if (r.act == A_DIE_AFTER || r.act == A_DIE_MID) die();
    UNLOCK();
    return rc;
}
ssize_t pread64(int fd, void *buf, size_t n, off_t off) {
    if (!is_tracked(fd)) return syscall(SYS_pread64, fd, buf, n, off);
    LOCK();
    struct ans r = ask("read", path_of(fd), NULL, (long)n, 0);
    if (r.act == A_ERR) { errno = (int)r.arg; UNLOCK(); return -1; }
    if (r.act == A_SHORT && n > 1) { n = (size_t)r.arg < n ? (size_t)r.arg : n; if (n < 1) n = 1; }
    ssize_t rc = syscall(SYS_pread64, fd, buf, n, off);
    if (r.act == A_DIE_AFTER || r.act == A_DIE_MID) die();
    UNLOCK();
    return rc;
}
ssize_t pread(int fd, void *buf, size_t n, off_t off) { return pread64(fd, buf, n, off); }

static ssize_t wr_ans(struct ans r, int fd, const void *buf, size_t n, off_t off, int pw) {
    size_t m = n;
    if (r.act == A_ERR) { errno = (int)r.arg; return -1; }
    if (r.act == A_SHORT || r.act == A_DIE_MID || r.act == A_ERR_MID) {
        /* arg: per mille of the buffer (low), errno (high) */
        long pm = r.arg % 1000;
        m = (size_t)((double)n * pm / 1000.0);
        if (m >= n && n > 0) m = n - 1;
        if (r.act == A_SHORT && m < 1) m = n > 0 ? 1 : 0;
    }
    ssize_t rc = 0;
    if (m > 0 || (r.act != A_DIE_MID && r.act != A_ERR_MID)) {
        rc = pw ? syscall(SYS_pwrite64, fd, buf, m, off) : syscall(SYS_write, fd, buf, m);
        stamp(fd);
    }
    if (r.act == A_DIE_AFTER || r.act == A_DIE_MID) die();
    if (r.act == A_ERR_MID) {
        /* short count now; the scheduler makes the next write fail */
        if (rc <= 0) { errno = (int)(r.arg / 1000); return -1; }
    }
    return rc;
}
ssize_t write(int fd, const void *buf, size_t n) {
    if (!is_tracked(fd)) return syscall(SYS_write, fd, buf, n);
    LOCK();
    struct ans r = ask("write", path_of(fd), NULL, (long)n, 0);
    ssize_t rc = wr_ans(r, fd, buf, n, 0, 0);
    UNLOCK();
    return rc;
}
ssize_t pwrite64(int fd, const void *buf, size_t n, off_t off) {
    if (!is_tracked(fd)) return syscall(SYS_pwrite64, fd, buf, n, off);
    LOCK();
    struct ans r = ask("write", path_of(fd), NULL, (long)n, 0);
    ssize_t rc = wr_ans(r, fd, buf, n, off, 1);
    UNLOCK();
    return rc;
}
ssize_t pwrite(int fd, const void *buf, size_t n, off_t off) { return pwrite64(fd, buf, n, off); }
ssize_t writev(int fd, const struct iovec *iov, int cnt) {
    if (!is_tracked(fd)) return syscall(SYS_writev, fd, iov, cnt);
    for (int i = 0; i < cnt; i++)
        if (iov[i].iov_len > 0) return write(fd, iov[i].iov_base, iov[i].iov_len);
    return 0;
}
ssize_t copy_file_range(int a, off_t *oa, int b, off_t *ob, size_t n, unsigned f) {
    if (active && (is_tracked(a) || is_tracked(b))) { errno = ENOSYS; return -1; }
    return syscall(SYS_copy_file_range, a, oa, b, ob, n, f);
}
ssize_t sendfile(int out, int in, off_t *off, size_t n) {
    if (active && (is_tracked(out) || is_tracked(in))) { errno = ENOSYS; return -1; }
    return syscall(SYS_sendfile, out, in, off, n);
}
ssize_t sendfile64(int out, int in, off_t *off, size_t n) { return sendfile(out, in, off, n); }

static int fd_op(const char *name, int fd, long nr, long a) {
    struct ans r = ask(name, path_of(fd), NULL, a, 0);
    if (r.act == A_ERR) { errno = (int)r.arg; return -1; }
    int rc = syscall(nr, fd, a);
    if (nr == SYS_ftruncate && rc == 0) stamp(fd);
    if (r.act == A_DIE_AFTER || r.act == A_DIE_MID) die();
    return rc;
}
int fsync(int fd) {
    if (!is_tracked(fd)) return syscall(SYS_fsync, fd);
    LOCK();
    /* the simulated disk knows what is durable: no real flush needed */
    struct ans r = ask("fsync", path_of(fd), NULL, 0, 0);
    int rc = 0;
    if (r.act == A_ERR) { errno = (int)r.arg; rc = -1; }
    if (r.act == A_DIE_AFTER || r.act == A_DIE_MID) die();
    UNLOCK();
    return rc;
}
int fdatasync(int fd) {
    if (!is_tracked(fd)) return syscall(SYS_fdatasync, fd);
    return fsync(fd);
}
int ftruncate64(int fd, off_t len) {
    if (!is_tracked(fd)) return syscall(SYS_ftruncate, fd, len);
    LOCK();
    int rc = fd_op("ftruncate", fd, SYS_ftruncate, (long)len);
    UNLOCK();
    return rc;
}
int ftruncate(int fd, off_t len) { return ftruncate64(fd, len); }
int truncate64(const char *path, off_t len) {
    char p[PATH_MAX];
    if (!active || abspath(AT_FDCWD, path, p) < 0 || !inroot(p)) return syscall(SYS_truncate, path, len);
    int fd = do_open(AT_FDCWD, path, O_WRONLY | O_CLOEXEC, 0);
    if (fd < 0) return -1;
    int rc = ftruncate(fd, len);
    int e = errno;
    close(fd);
    errno = e;
    return rc;
}
int truncate(const char *path, off_t len) { return truncate64(path, len); }

/* paths --------------------------------------------------------------------- */
#define PATHOP1(NAME, DFD, PATH, CALL) \
    char p[PATH_MAX]; \
    if (!active || abspath(DFD, PATH, p) < 0 || !inroot(p)) return CALL; \
    LOCK(); \
    struct ans r = ask(NAME, rel(p), NULL, 0, 0); \
    if (r.act == A_ERR) { errno = (int)r.arg; UNLOCK(); return -1; } \
    int rc = CALL; \
    if (r.act == A_DIE_AFTER || r.act == A_DIE_MID) die(); \
    UNLOCK(); \
    return rc;
#define PATHOP2(NAME, D1, P1, D2, P2, CALL) \
    char p[PATH_MAX], q[PATH_MAX]; \
    if (!active || abspath(D1, P1, p) < 0 || abspath(D2, P2, q) < 0 || !(inroot(p) || inroot(q))) return CALL; \
    LOCK(); \
    struct ans r = ask(NAME, inroot(p) ? rel(p) : p, inroot(q) ? rel(q) : q, 0, 0); \
    if (r.act == A_ERR) { errno = (int)r.arg; UNLOCK(); return -1; } \
    int rc = CALL; \
    if (r.act == A_DIE_AFTER || r.act == A_DIE_MID) die(); \
    UNLOCK(); \
    return rc;

int unlink(const char *path) { PATHOP1("unlink", AT_FDCWD, path, syscall(SYS_unlink, path)) }
int unlinkat(int d, const char *path, int f) { PATHOP1("unlink", d, path, syscall(SYS_unlinkat, d, path, f)) }
int rmdir(const char *path) { PATHOP1("rmdir", AT_FDCWD, path, syscall(SYS_rmdir, path)) }
int remove(const char *path) {
    struct stat st;
    if (syscall(SYS_newfstatat, AT_FDCWD, path, &st, AT_SYMLINK_NOFOLLOW) == 0 && S_ISDIR(st.st_mode)) return rmdir(path);
    return unlink(path);
}
int mkdir(const char *path, mode_t m) { PATHOP1("mkdir", AT_FDCWD, path, syscall(SYS_mkdir, path, m)) }
int mkdirat(int d, const char *path, mode_t m) { PATHOP1("mkdir", d, path, syscall(SYS_mkdirat, d, path, m)) }
int chmod(const char *path, mode_t m) { PATHOP1("chmod", AT_FDCWD, path, syscall(SYS_chmod, path, m)) }
int fchmod(int fd, mode_t m) {
    if (!is_tracked(fd)) return syscall(SYS_fchmod, fd, m);
    LOCK();
    int rc = fd_op("fchmod", fd, SYS_fchmod, (long)m);
    UNLOCK();
    return rc;
}
int rename(const char *a, const char *b) { PATHOP2("rename", AT_FDCWD, a, AT_FDCWD, b, syscall(SYS_rename, a, b)) }
int renameat(int x, const char *a, int y, const char *b) { PATHOP2("rename", x, a, y, b, syscall(SYS_renameat, x, a, y, b)) }
int renameat2(int x, const char *a, int y, const char *b, unsigned f) { PATHOP2("rename", x, a, y, b, syscall(SYS_renameat2, x, a, y, b, f)) }
int link(const char *a, const char *b) { PATHOP2("link", AT_FDCWD, a, AT_FDCWD, b, syscall(SYS_link, a, b)) }
int linkat(int x, const char *a, int y, const char *b, int f) { PATHOP2("link", x, a, y, b, syscall(SYS_linkat, x, a, y, b, f)) }
int symlink(const char *a, const char *b) { PATHOP1("symlink", AT_FDCWD, b, syscall(SYS_symlink, a, b)) }
int stat(const char *path, struct stat *st) { PATHOP1("stat", AT_FDCWD, path, syscall(SYS_newfstatat, AT_FDCWD, path, st, 0)) }
int stat64(const char *path, struct stat64 *st) { PATHOP1("stat", AT_FDCWD, path, syscall(SYS_newfstatat, AT_FDCWD, path, st, 0)) }
int lstat(const char *path, struct stat *st) { PATHOP1("stat", AT_FDCWD, path, syscall(SYS_newfstatat, AT_FDCWD, path, st, AT_SYMLINK_NOFOLLOW)) }
int lstat64(const char *path, struct stat64 *st) { PATHOP1("stat", AT_FDCWD, path, syscall(SYS_newfstatat, AT_FDCWD, path, st, AT_SYMLINK_NOFOLLOW)) }
int fstatat(int d, const char *path, struct stat *st, int f) {
    if (f & AT_EMPTY_PATH) return syscall(SYS_newfstatat, d, path, st, f);
    PATHOP1("stat", d, path, syscall(SYS_newfstatat, d, path, st, f))
}
int fstatat64(int d, const char *path, struct stat64 *st, int f) { return fstatat(d, path, (struct stat *)st, f); }
int access(const char *path, int m) { PATHOP1("stat", AT_FDCWD, path, syscall(SYS_access, path, m)) }
int utimensat(int d, const char *path, const struct timespec ts[2], int f) {
    if (!path) { if (active && !ts) { stamp(d); return 0; } return syscall(SYS_utimensat, d, path, ts, f); }
    struct timespec v[2];
    int64_t t = now_ns - now_ns % fs_gran;
    if (active && (!ts || ts[0].tv_nsec == UTIME_NOW || ts[1].tv_nsec == UTIME_NOW)) {
        for (int i = 0; i < 2; i++) {
            if (ts && ts[i].tv_nsec != UTIME_NOW) { v[i] = ts[i]; continue; }
            v[i].tv_sec = t / 1000000000LL;
            v[i].tv_nsec = t % 1000000000LL;
        }
        ts = v;
    }
    PATHOP1("utime", d, path, syscall(SYS_utimensat, d, path, ts, f))
}
int futimens(int fd, const struct timespec ts[2]) {
    if (active && !ts) { stamp(fd); return 0; }
    return syscall(SYS_utimensat, fd, NULL, ts, 0);
}

/* time ---------------------------------------------------------------------- */
static int64_t clk_read(int mono) {
    clk_reads++;
    int64_t adv = clk_tick;
    if (clk_jump > 0 && (int)(xs(&clk_rng) % 1000) < clk_jump) {
        int64_t j = (int64_t)(xs(&clk_rng) % (uint64_t)(2 * clk_jump_ns + 1)) - clk_jump_ns;
        clk_jumps++;
        if (j > 0) mono_ns += j;
        now_ns += j;
        if (now_ns < 1000000000LL) now_ns = 1000000000LL;
    }
    now_ns += adv;
    mono_ns += adv;
    int64_t t = mono ? mono_ns : now_ns;
    return t - t % clk_gran;
}
int clock_gettime(clockid_t id, struct timespec *ts) {
    if (!active) return syscall(SYS_clock_gettime, id, ts);
    int64_t t = clk_read(id != CLOCK_REALTIME && id != CLOCK_REALTIME_COARSE && id != CLOCK_TAI);
    ts->tv_sec = t / 1000000000LL;
    ts->tv_nsec = t % 1000000000LL;
    return 0;
}
int gettimeofday(struct timeval *tv, void *tz) {
    if (!active) return syscall(SYS_gettimeofday, tv, tz);
    int64_t t = clk_read(0);
    if (tv) { tv->tv_sec = t / 1000000000LL; tv->tv_usec = (t % 1000000000LL) / 1000; }
    return 0;
}
time_t time(time_t *out) {
    time_t t;
    if (!active) { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); t = ts.tv_sec; }
    else t = clk_read(0) / 1000000000LL;
    if (out) *out = t;
    return t;
}
clock_t clock(void) {
    if (!active) { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_PROCESS_CPUTIME_ID, &ts); return ts.tv_sec * 1000000L + ts.tv_nsec / 1000; }
    return clk_read(1) / 1000;
}
int clock_nanosleep(clockid_t id, int flags, const struct timespec *rq, struct timespec *rm) {
    if (!active) return syscall(SYS_clock_nanosleep, id, flags, rq, rm) < 0 ? errno : 0;
    int64_t d = rq->tv_sec * 1000000000LL + rq->tv_nsec;
    if (flags & TIMER_ABSTIME) { int64_t cur = id == CLOCK_REALTIME ? now_ns : mono_ns; d = d > cur ? d - cur : 0; }
    now_ns += d; mono_ns += d;
    LOCK();
    ask("sleep", "", NULL, (long)(d / 1000), 0);
    UNLOCK();
    return 0;
}
int nanosleep(const struct timespec *rq, struct timespec *rm) {
    if (!active) return syscall(SYS_nanosleep, rq, rm);
    return clock_nanosleep(CLOCK_MONOTONIC, 0, rq, rm);
}

/* entropy, pid --------------------------------------------------------------- */
ssize_t getrandom(void *buf, size_t n, unsigned flags) {
    if (!active) return syscall(SYS_getrandom, buf, n, flags);
    ent_reads++;
    for (size_t i = 0; i < n; i++) ((unsigned char *)buf)[i] = (unsigned char)(xs(&ent_rng) >> 24);
    return (ssize_t)n;
}
int getentropy(void *buf, size_t n) {
    if (!active) { return syscall(SYS_getrandom, buf, n, 0) == (long)n ? 0 : -1; }
    getrandom(buf, n, 0);
    return 0;
}
pid_t getpid(void) { return active && vpid ? vpid : (pid_t)syscall(SYS_getpid); }

/* Waits of the interpreter (GIL, locks with a time-out) have deadlines on the virtual
 * clocks: turn them into the same distance on the real one, or they would spin. */
static void real_deadline(clockid_t id, const struct timespec *abs, struct timespec *out) {
    int64_t dl = abs->tv_sec * 1000000000LL + abs->tv_nsec;
    int64_t left = dl - (id == CLOCK_REALTIME ? now_ns : mono_ns);
    if (left < 0) left = 0;
    syscall(SYS_clock_gettime, id, out);
    int64_t t = out->tv_sec * 1000000000LL + out->tv_nsec + left;
    out->tv_sec = t / 1000000000LL;
    out->tv_nsec = t % 1000000000LL;
}
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *abs) {
    static int (*real)(pthread_cond_t *, pthread_mutex_t *, const struct timespec *);
    if (!real) real = dlvsym(RTLD_NEXT, "pthread_cond_timedwait", "GLIBC_2.3.2");
    if (!active) return real(c, m, abs);
    struct timespec ts;
    /* CPython makes its condition variables with the monotonic clock */
    real_deadline(CLOCK_MONOTONIC, abs, &ts);
    return real(c, m, &ts);
}
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t id, const struct timespec *abs) {
    static int (*real)(pthread_cond_t *, pthread_mutex_t *, clockid_t, const struct timespec *);
    if (!real) real = dlsym(RTLD_NEXT, "pthread_cond_clockwait");
    if (!active) return real(c, m, id, abs);
    struct timespec ts;
    real_deadline(id, abs, &ts);
    return real(c, m, id, &ts);
}
#include <semaphore.h>
int sem_clockwait(sem_t *s, clockid_t id, const struct timespec *abs) {
    static int (*real)(sem_t *, clockid_t, const struct timespec *);
    if (!real) real = dlsym(RTLD_NEXT, "sem_clockwait");
    if (!active) return real(s, id, abs);
    struct timespec ts;
    real_deadline(id, abs, &ts);
    return real(s, id, &ts);
}
int sem_timedwait(sem_t *s, const struct timespec *abs) {
    static int (*real)(sem_t *, const struct timespec *);
    if (!real) real = dlsym(RTLD_NEXT, "sem_timedwait");
    if (!active) return real(s, abs);
    struct timespec ts;
    real_deadline(CLOCK_REALTIME, abs, &ts);
    return real(s, &ts);
}
