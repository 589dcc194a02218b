/* Preloaded into the generator's Python process. Inactive until vsim_activate() is called in a forked child: from then on every file
   operation below one of the roots is a request to the simulator, which decides whether and how it happens. Writing operations outside
   the roots are reported and refused. */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#define EXPORT __attribute__((visibility("default")))

enum { OPEN = 1, READ, WRITE, CLOSE, STAT, RENAME, UNLINK, MKDIR, RMDIR, LINK, SYMLINK, CHMOD, UTIME, TRUNC, SYNC, SENDFILE, LISTDIR, ACCESS,
       READLINK, CHDIR, OTHER, ESCAPE };
enum { GO = 0, FAIL, SHORT, KILL_BEFORE, KILL_AFTER, SHORT_KILL, SIGINT_GO, LOSE };

struct req { uint32_t len, op; int32_t fd, flags; uint64_t size; uint32_t l1, l2; };
struct ver { uint32_t act; int32_t err; uint64_t n; };

static int active, req_fd = -1, ver_fd = -1, fake_pid;
static int64_t time_shift;
static uint64_t rng;
static char root[2][PATH_MAX];
static size_t root_len[2];
#define MAXFD 1024
static char* fds[MAXFD];

static uint64_t next_random(void)
{
    rng += 0x9e3779b97f4a7c15ull;
    uint64_t z = rng;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

EXPORT void vsim_activate(int rq, int vd, const char* scratch, const char* package, uint64_t seed, int64_t shift, int pid)
{
    req_fd = rq;
    ver_fd = vd;
    strncpy(root[0], scratch, PATH_MAX - 1);
    strncpy(root[1], package, PATH_MAX - 1);
    root_len[0] = strlen(root[0]);
    root_len[1] = strlen(root[1]);
    rng = seed;
    time_shift = shift;
    fake_pid = pid;
    active = 1;
}

/* absolute path without . and .., symbolic links are not followed */
static int absolute(int dirfd, const char* path, char* out)
{
    char buf[2 * PATH_MAX];
    size_t n = 0;
    if (path == NULL) {
        return -1;
    }
    if (path[0] != '/') {
        if (dirfd == AT_FDCWD) {
            long r = syscall(SYS_getcwd, buf, PATH_MAX);
            if (r <= 0) {
                return -1;
            }
        } else {
            char link[64] = "/proc/self/fd/";
            char num[16];
            int i = 0, d = dirfd;
            do { num[i++] = '0' + d % 10; d /= 10; } while (d > 0);
            size_t l = strlen(link);
            while (i > 0) { link[l++] = num[--i]; }
            link[l] = 0;
            long r = syscall(SYS_readlink, link, buf, PATH_MAX);
            if (r <= 0) {
                return -1;
            }
            buf[r] = 0;
        }
        n = strlen(buf);
        buf[n++] = '/';
    }
    if (n + strlen(path) >= sizeof(buf)) {
        return -1;
    }
    strcpy(buf + n, path);
    size_t o = 0;
    for (char* p = buf; *p;) {
        while (*p == '/') ++p;
        char* e = p;
        while (*e && *e != '/') ++e;
        size_t l = e - p;
        if (l == 0 || (l == 1 && p[0] == '.')) {
        } else if (l == 2 && p[0] == '.' && p[1] == '.') {
            while (o > 0 && out[--o] != '/') {}
        } else {
            if (o + l + 2 >= PATH_MAX) return -1;
            out[o++] = '/';
            memcpy(out + o, p, l);
            o += l;
        }
        p = e;
    }
    if (o == 0) out[o++] = '/';
    out[o] = 0;
    return 0;
}

static int under(const char* p)
{
    for (int i = 0; i < 2; ++i) {
        if (root_len[i] && strncmp(p, root[i], root_len[i]) == 0 && (p[root_len[i]] == 0 || p[root_len[i]] == '/')) {
            return i + 1;
        }
    }
    return 0;
}

static void raw(int fd, void* data, size_t n, int out)
{
    char* p = data;
    while (n > 0) {
        long r = out ? syscall(SYS_write, fd, p, n) : syscall(SYS_read, fd, p, n);
        if (r < 0 && errno == EINTR) continue;
        if (r <= 0) {
            syscall(SYS_exit_group, 99); /* the simulator is gone */
        }
        p += r;
        n -= r;
    }
}

static void die(void)
{
    syscall(SYS_kill, syscall(SYS_getpid), SIGKILL);
    for (;;) syscall(SYS_pause);
}

static struct ver ask(int op, int fd, int flags, uint64_t size, const char* p1, const char* p2)
{
    static char msg[sizeof(struct req) + 2 * PATH_MAX];
    struct req q = { 0, op, fd, flags, size, p1 ? strlen(p1) : 0, p2 ? strlen(p2) : 0 };
    q.len = sizeof(q) + q.l1 + q.l2;
    memcpy(msg, &q, sizeof(q));
    if (q.l1) memcpy(msg + sizeof(q), p1, q.l1);
    if (q.l2) memcpy(msg + sizeof(q) + q.l1, p2, q.l2);
    raw(req_fd, msg, q.len, 1);
    struct ver v;
    raw(ver_fd, &v, sizeof(v), 0);
    if (v.act == KILL_BEFORE) {
        die();
    }
    if (v.act == SIGINT_GO) {
        syscall(SYS_kill, syscall(SYS_getpid), SIGINT);
    }
    return v;
}

/* an operation on one or two paths */
#define PATH_OP(op, d1, p1, d2, p2, flags, writing, call)                                                     \
    do {                                                                                                      \
        if (!active) return call;                                                                             \
        char a1[PATH_MAX], a2[PATH_MAX];                                                                      \
        const char* second = p2;                                                                              \
        int ok = absolute(d1, p1, a1) == 0 && (!second || absolute(d2, second, a2) == 0);                     \
        if (!ok) return call;                                                                                 \
        int in1 = under(a1), in2 = second ? under(a2) : in1;                                                  \
        if ((writing) && (in1 != 1 || in2 != 1)) {                                                            \
            ask(ESCAPE, -1, op, 0, a1, second ? a2 : NULL);                                                   \
            errno = EPERM;                                                                                    \
            return -1;                                                                                        \
        }                                                                                                     \
        if (!in1 && !in2) return call;                                                                        \
        struct ver v = ask(op, -1, flags, 0, a1, second ? a2 : NULL);                                         \
        if (v.act == FAIL) {                                                                                  \
            errno = v.err;                                                                                    \
            return -1;                                                                                        \
        }                                                                                                     \
        long res = call;                                                                                      \
        if (v.act == KILL_AFTER) die();                                                                       \
        return res;                                                                                           \
    } while (0)

static int open_common(int dirfd, const char* path, int flags, mode_t mode)
{
    if (!active) return syscall(SYS_openat, dirfd, path, flags, mode);
    char a[PATH_MAX];
    if (absolute(dirfd, path, a) != 0) return syscall(SYS_openat, dirfd, path, flags, mode);
    int in = under(a);
    int writing = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
    if (writing && in != 1 && strcmp(a, "/dev/null") != 0 && strcmp(a, "/dev/tty") != 0) {
        ask(ESCAPE, -1, OPEN, 0, a, NULL);
        errno = EPERM;
        return -1;
    }
    if (!in) return syscall(SYS_openat, dirfd, path, flags, mode);
    struct ver v = ask(OPEN, -1, flags, 0, a, NULL);
    if (v.act == FAIL) {
        errno = v.err;
        return -1;
    }
    int fd = syscall(SYS_openat, dirfd, path, flags, mode);
    if (v.act == KILL_AFTER) die();
    if (fd >= 0 && fd < MAXFD) {
        free(fds[fd]);
        fds[fd] = strdup(a);
    }
    return fd;
}

EXPORT int open(const char* path, int flags, ...)
{
    va_list ap; va_start(ap, flags); mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0; va_end(ap);
    return open_common(AT_FDCWD, path, flags, m);
}
EXPORT int open64(const char* path, int flags, ...)
{
    va_list ap; va_start(ap, flags); mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0; va_end(ap);
    return open_common(AT_FDCWD, path, flags, m);
}
EXPORT int openat(int d, const char* path, int flags, ...)
{
    va_list ap; va_start(ap, flags); mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0; va_end(ap);
    return open_common(d, path, flags, m);
}
EXPORT int openat64(int d, const char* path, int flags, ...)
{
    va_list ap; va_start(ap, flags); mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0; va_end(ap);
    return open_common(d, path, flags, m);
}
EXPORT int creat(const char* path, mode_t m) { return open_common(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, m); }
EXPORT int creat64(const char* path, mode_t m) { return open_common(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, m); }

#define TRACKED(fd) (active && (fd) >= 0 && (fd) < MAXFD && fds[fd])

/* an operation on an open file that moves up to n bytes */
#define FD_MOVE(op, fd, n, call)                                                                              \
    do {                                                                                                      \
        if (!TRACKED(fd)) return call;                                                                        \
        struct ver v = ask(op, fd, 0, n, fds[fd], NULL);                                                      \
        if (v.act == FAIL) {                                                                                  \
            errno = v.err;                                                                                    \
            return -1;                                                                                        \
        }                                                                                                     \
        if ((v.act == SHORT || v.act == SHORT_KILL) && v.n < n) n = v.n;                                      \
        long res = call;                                                                                      \
        if (v.act == KILL_AFTER || v.act == SHORT_KILL) die();                                                \
        return res;                                                                                           \
    } while (0)

#define FD_OP(op, fd, call)                                                                                   \
    do {                                                                                                      \
        if (!TRACKED(fd)) return call;                                                                        \
        struct ver v = ask(op, fd, 0, 0, fds[fd], NULL);                                                      \
        if (v.act == FAIL) {                                                                                  \
            errno = v.err;                                                                                    \
            return -1;                                                                                        \
        }                                                                                                     \
        long res = call;                                                                                      \
        if (v.act == KILL_AFTER) die();                                                                       \
        return res;                                                                                           \
    } while (0)

EXPORT ssize_t read(int fd, void* b, size_t n) { FD_MOVE(READ, fd, n, syscall(SYS_read, fd, b, n)); }
EXPORT ssize_t write(int fd, const void* b, size_t n) { FD_MOVE(WRITE, fd, n, syscall(SYS_write, fd, b, n)); }
EXPORT ssize_t pread(int fd, void* b, size_t n, off_t o) { FD_MOVE(READ, fd, n, syscall(SYS_pread64, fd, b, n, o)); }
EXPORT ssize_t pread64(int fd, void* b, size_t n, off_t o) { FD_MOVE(READ, fd, n, syscall(SYS_pread64, fd, b, n, o)); }
EXPORT ssize_t pwrite(int fd, const void* b, size_t n, off_t o) { FD_MOVE(WRITE, fd, n, syscall(SYS_pwrite64, fd, b, n, o)); }
EXPORT ssize_t pwrite64(int fd, const void* b, size_t n, off_t o) { FD_MOVE(WRITE, fd, n, syscall(SYS_pwrite64, fd, b, n, o)); }
EXPORT ssize_t writev(int fd, const struct iovec* v, int c)
{
    if (!TRACKED(fd) || c == 0) return syscall(SYS_writev, fd, v, c);
    return write(fd, v[0].iov_base, v[0].iov_len);
}
EXPORT ssize_t readv(int fd, const struct iovec* v, int c)
{
    if (!TRACKED(fd) || c == 0) return syscall(SYS_readv, fd, v, c);
    return read(fd, v[0].iov_base, v[0].iov_len);
}
EXPORT ssize_t sendfile(int o, int i, off_t* off, size_t n)
{
    if (!TRACKED(o) && TRACKED(i)) FD_MOVE(READ, i, n, syscall(SYS_sendfile, o, i, off, n));
    FD_MOVE(SENDFILE, o, n, syscall(SYS_sendfile, o, i, off, n));
}
EXPORT ssize_t sendfile64(int o, int i, off_t* off, size_t n) { return sendfile(o, i, off, n); }
EXPORT ssize_t copy_file_range(int i, off_t* oi, int o, off_t* oo, size_t n, unsigned f)
{
    FD_MOVE(SENDFILE, o, n, syscall(SYS_copy_file_range, i, oi, o, oo, n, f));
}
EXPORT int ftruncate(int fd, off_t n) { FD_OP(TRUNC, fd, syscall(SYS_ftruncate, fd, n)); }
EXPORT int ftruncate64(int fd, off_t n) { FD_OP(TRUNC, fd, syscall(SYS_ftruncate, fd, n)); }
EXPORT int fsync(int fd) { FD_OP(SYNC, fd, syscall(SYS_fsync, fd)); }
EXPORT int fdatasync(int fd) { FD_OP(SYNC, fd, syscall(SYS_fdatasync, fd)); }
EXPORT int fchmod(int fd, mode_t m) { FD_OP(CHMOD, fd, syscall(SYS_fchmod, fd, m)); }
EXPORT int futimens(int fd, const struct timespec t[2]) { FD_OP(UTIME, fd, syscall(SYS_utimensat, fd, NULL, t, 0)); }
EXPORT int fstat(int fd, struct stat* s) { FD_OP(STAT, fd, syscall(SYS_fstat, fd, s)); }
EXPORT int fstat64(int fd, struct stat64* s) { FD_OP(STAT, fd, syscall(SYS_fstat, fd, s)); }
EXPORT int posix_fallocate(int fd, off_t o, off_t n)
{
    if (TRACKED(fd)) {
        struct ver v = ask(WRITE, fd, 1, 0, fds[fd], NULL);
        if (v.act == FAIL) return v.err;
    }
    return syscall(SYS_fallocate, fd, 0, o, n) < 0 ? errno : 0;
}

EXPORT int close(int fd)
{
    if (!TRACKED(fd)) return syscall(SYS_close, fd);
    struct ver v = ask(CLOSE, fd, fcntl(fd, F_GETFL), 0, fds[fd], NULL);
    free(fds[fd]);
    fds[fd] = NULL;
    if (v.act == LOSE) {
        /* what was written did not reach the disk */
        syscall(SYS_ftruncate, fd, v.n);
    }
    long res = syscall(SYS_close, fd);
    if (v.act == KILL_AFTER) die();
    if (v.act == FAIL || v.act == LOSE) {
        errno = v.err;
        return -1;
    }
    return res;
}
EXPORT int dup(int fd)
{
    int r = syscall(SYS_dup, fd);
    if (TRACKED(fd) && r >= 0 && r < MAXFD) { free(fds[r]); fds[r] = strdup(fds[fd]); }
    return r;
}
EXPORT int dup2(int fd, int to)
{
    int r = syscall(SYS_dup2, fd, to);
    if (active && r >= 0 && r < MAXFD && fd != to) { free(fds[r]); fds[r] = TRACKED(fd) ? strdup(fds[fd]) : NULL; }
    return r;
}

#define AT AT_FDCWD
EXPORT int stat(const char* p, struct stat* s) { PATH_OP(STAT, AT, p, 0, NULL, 0, 0, syscall(SYS_newfstatat, AT, p, s, 0)); }
EXPORT int stat64(const char* p, struct stat64* s) { PATH_OP(STAT, AT, p, 0, NULL, 0, 0, syscall(SYS_newfstatat, AT, p, s, 0)); }
EXPORT int lstat(const char* p, struct stat* s) { PATH_OP(STAT, AT, p, 0, NULL, 0, 0, syscall(SYS_newfstatat, AT, p, s, AT_SYMLINK_NOFOLLOW)); }
EXPORT int lstat64(const char* p, struct stat64* s) { PATH_OP(STAT, AT, p, 0, NULL, 0, 0, syscall(SYS_newfstatat, AT, p, s, AT_SYMLINK_NOFOLLOW)); }
EXPORT int fstatat(int d, const char* p, struct stat* s, int f) { PATH_OP(STAT, d, p, 0, NULL, 0, 0, syscall(SYS_newfstatat, d, p, s, f)); }
EXPORT int fstatat64(int d, const char* p, struct stat64* s, int f) { PATH_OP(STAT, d, p, 0, NULL, 0, 0, syscall(SYS_newfstatat, d, p, s, f)); }
EXPORT int statx(int d, const char* restrict p, int f, unsigned m, struct statx* restrict s) { PATH_OP(STAT, d, p, 0, NULL, 0, 0, syscall(SYS_statx, d, p, f, m, s)); }
EXPORT int access(const char* p, int m) { PATH_OP(ACCESS, AT, p, 0, NULL, 0, 0, syscall(SYS_access, p, m)); }
EXPORT int faccessat(int d, const char* p, int m, int f) { PATH_OP(ACCESS, d, p, 0, NULL, 0, 0, syscall(SYS_faccessat2, d, p, m, f)); }
EXPORT ssize_t readlink(const char* p, char* b, size_t n) { PATH_OP(READLINK, AT, p, 0, NULL, 0, 0, syscall(SYS_readlink, p, b, n)); }
EXPORT ssize_t readlinkat(int d, const char* p, char* b, size_t n) { PATH_OP(READLINK, d, p, 0, NULL, 0, 0, syscall(SYS_readlinkat, d, p, b, n)); }
EXPORT int chdir(const char* p) { PATH_OP(CHDIR, AT, p, 0, NULL, 0, 0, syscall(SYS_chdir, p)); }
EXPORT int rename(const char* a, const char* b) { PATH_OP(RENAME, AT, a, AT, b, 0, 1, syscall(SYS_rename, a, b)); }
EXPORT int renameat(int d, const char* a, int e, const char* b) { PATH_OP(RENAME, d, a, e, b, 0, 1, syscall(SYS_renameat, d, a, e, b)); }
EXPORT int renameat2(int d, const char* a, int e, const char* b, unsigned f) { PATH_OP(RENAME, d, a, e, b, 0, 1, syscall(SYS_renameat2, d, a, e, b, f)); }
EXPORT int unlink(const char* p) { PATH_OP(UNLINK, AT, p, 0, NULL, 0, 1, syscall(SYS_unlink, p)); }
EXPORT int unlinkat(int d, const char* p, int f) { PATH_OP((f & AT_REMOVEDIR) ? RMDIR : UNLINK, d, p, 0, NULL, 0, 1, syscall(SYS_unlinkat, d, p, f)); }
EXPORT int mkdir(const char* p, mode_t m) { PATH_OP(MKDIR, AT, p, 0, NULL, 0, 1, syscall(SYS_mkdir, p, m)); }
EXPORT int mkdirat(int d, const char* p, mode_t m) { PATH_OP(MKDIR, d, p, 0, NULL, 0, 1, syscall(SYS_mkdirat, d, p, m)); }
EXPORT int rmdir(const char* p) { PATH_OP(RMDIR, AT, p, 0, NULL, 0, 1, syscall(SYS_rmdir, p)); }
EXPORT int link(const char* a, const char* b) { PATH_OP(LINK, AT, a, AT, b, 0, 1, syscall(SYS_link, a, b)); }
EXPORT int linkat(int d, const char* a, int e, const char* b, int f) { PATH_OP(LINK, d, a, e, b, 0, 1, syscall(SYS_linkat, d, a, e, b, f)); }
EXPORT int symlink(const char* t, const char* p) { PATH_OP(SYMLINK, AT, p, 0, NULL, 0, 1, syscall(SYS_symlink, t, p)); }
EXPORT int symlinkat(const char* t, int d, const char* p) { PATH_OP(SYMLINK, d, p, 0, NULL, 0, 1, syscall(SYS_symlinkat, t, d, p)); }
EXPORT int mknod(const char* p, mode_t m, dev_t dev) { PATH_OP(OTHER, AT, p, 0, NULL, 0, 1, syscall(SYS_mknod, p, m, dev)); }
EXPORT int mkfifo(const char* p, mode_t m) { PATH_OP(OTHER, AT, p, 0, NULL, 0, 1, syscall(SYS_mknod, p, m | S_IFIFO, 0)); }
EXPORT int chmod(const char* p, mode_t m) { PATH_OP(CHMOD, AT, p, 0, NULL, 0, 1, syscall(SYS_chmod, p, m)); }
EXPORT int fchmodat(int d, const char* p, mode_t m, int f) { PATH_OP(CHMOD, d, p, 0, NULL, 0, 1, syscall(SYS_fchmodat, d, p, m)); }
EXPORT int chown(const char* p, uid_t u, gid_t g) { PATH_OP(CHMOD, AT, p, 0, NULL, 0, 1, syscall(SYS_chown, p, u, g)); }
EXPORT int lchown(const char* p, uid_t u, gid_t g) { PATH_OP(CHMOD, AT, p, 0, NULL, 0, 1, syscall(SYS_lchown, p, u, g)); }
EXPORT int fchownat(int d, const char* p, uid_t u, gid_t g, int f) { PATH_OP(CHMOD, d, p, 0, NULL, 0, 1, syscall(SYS_fchownat, d, p, u, g, f)); }
EXPORT int truncate(const char* p, off_t n) { PATH_OP(TRUNC, AT, p, 0, NULL, 0, 1, syscall(SYS_truncate, p, n)); }
EXPORT int truncate64(const char* p, off_t n) { PATH_OP(TRUNC, AT, p, 0, NULL, 0, 1, syscall(SYS_truncate, p, n)); }
EXPORT int utimensat(int d, const char* p, const struct timespec t[2], int f) { PATH_OP(UTIME, d, p, 0, NULL, 0, 1, syscall(SYS_utimensat, d, p, t, f)); }
EXPORT int utimes(const char* p, const struct timeval t[2]) { PATH_OP(UTIME, AT, p, 0, NULL, 0, 1, syscall(SYS_utimes, p, t)); }

/* directories are listed in an order drawn from the seed */
#define MAXDIR 32
static struct listing { DIR* dir; struct dirent64** e; int n, pos; } dirs[MAXDIR];

EXPORT DIR* opendir(const char* p)
{
    static DIR* (*real)(const char*);
    if (!real) real = dlsym(RTLD_NEXT, "opendir");
    if (!active) return real(p);
    char a[PATH_MAX];
    if (absolute(AT, p, a) != 0 || !under(a)) return real(p);
    struct ver v = ask(LISTDIR, -1, 0, 0, a, NULL);
    if (v.act == FAIL) {
        errno = v.err;
        return NULL;
    }
    return real(p);
}

static int by_name(const void* a, const void* b) { return strcmp((*(struct dirent64* const*)a)->d_name, (*(struct dirent64* const*)b)->d_name); }

EXPORT struct dirent64* readdir64(DIR* d)
{
    static struct dirent64* (*real)(DIR*);
    if (!real) real = dlsym(RTLD_NEXT, "readdir64");
    if (!active) return real(d);
    struct listing* l = NULL;
    for (int i = 0; i < MAXDIR && !l; ++i) if (dirs[i].dir == d) l = &dirs[i];
    if (!l) {
        for (int i = 0; i < MAXDIR && !l; ++i) if (!dirs[i].dir) l = &dirs[i];
        if (!l) return real(d);
        l->dir = d;
        l->e = NULL;
        l->n = l->pos = 0;
        struct dirent64* x;
        while ((x = real(d))) {
            l->e = realloc(l->e, (l->n + 1) * sizeof(*l->e));
            l->e[l->n] = malloc(sizeof(*x));
            memcpy(l->e[l->n++], x, x->d_reclen < sizeof(*x) ? x->d_reclen : sizeof(*x));
        }
        qsort(l->e, l->n, sizeof(*l->e), by_name);
        for (int i = l->n - 1; i > 0; --i) {
            int j = next_random() % (i + 1);
            struct dirent64* t = l->e[i]; l->e[i] = l->e[j]; l->e[j] = t;
        }
    }
    return l->pos < l->n ? l->e[l->pos++] : NULL;
}
EXPORT struct dirent* readdir(DIR* d) { return (struct dirent*)readdir64(d); }
EXPORT int closedir(DIR* d)
{
    static int (*real)(DIR*);
    if (!real) real = dlsym(RTLD_NEXT, "closedir");
    for (int i = 0; i < MAXDIR; ++i) if (dirs[i].dir == d) dirs[i].dir = NULL;
    return real(d);
}

/* clocks, process id and randomness */
static int64_t slept; /* sleeping advances the clock instead of waiting */
EXPORT int clock_nanosleep(clockid_t c, int flags, const struct timespec* t, struct timespec* rem)
{
    if (!active) return syscall(SYS_clock_nanosleep, c, flags, t, rem) < 0 ? errno : 0;
    struct timespec n;
    int64_t d = t->tv_sec * 1000000000ll + t->tv_nsec;
    if (flags & TIMER_ABSTIME) {
        clock_gettime(c, &n);
        d -= n.tv_sec * 1000000000ll + n.tv_nsec;
    }
    if (d > 0) slept += d;
    return 0;
}
EXPORT int nanosleep(const struct timespec* t, struct timespec* rem) { return clock_nanosleep(CLOCK_MONOTONIC, 0, t, rem); }
EXPORT int clock_gettime(clockid_t c, struct timespec* t)
{
    int r = syscall(SYS_clock_gettime, c, t);
    if (active && r == 0 && c == CLOCK_MONOTONIC) {
        int64_t ns = t->tv_sec * 1000000000ll + t->tv_nsec + slept;
        t->tv_sec = ns / 1000000000ll;
        t->tv_nsec = ns % 1000000000ll;
    }
    if (active && r == 0 && c == CLOCK_REALTIME) {
        static int64_t ticks; /* the simulated clock, independent of the real one */
        int64_t ns = time_shift * 1000000000ll + (++ticks) * 1000000ll + slept;
        t->tv_sec = ns / 1000000000ll;
        t->tv_nsec = ns % 1000000000ll;
    }
    return r;
}
EXPORT time_t time(time_t* p)
{
    struct timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    if (p) *p = t.tv_sec;
    return t.tv_sec;
}
EXPORT int gettimeofday(struct timeval* restrict p, void* restrict z)
{
    struct timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    if (p) { p->tv_sec = t.tv_sec; p->tv_usec = t.tv_nsec / 1000; }
    return 0;
}
EXPORT pid_t getpid(void) { return active ? fake_pid : (pid_t)syscall(SYS_getpid); }
EXPORT ssize_t getrandom(void* b, size_t n, unsigned f)
{
    if (!active) return syscall(SYS_getrandom, b, n, f);
    for (size_t i = 0; i < n; ++i) ((unsigned char*)b)[i] = next_random();
    return n;
}
EXPORT int getentropy(void* b, size_t n) { return getrandom(b, n, 0) < 0 ? -1 : 0; }
/* no other programs are run from within the simulation */
EXPORT int execve(const char* p, char* const a[], char* const e[])
{
    if (!active) return syscall(SYS_execve, p, a, e);
    ask(ESCAPE, -1, OTHER, 0, p, NULL);
    errno = EPERM;
    return -1;
}
