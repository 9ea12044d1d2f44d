/* LD_PRELOAD fault and crash injector.
 *
 * Every call that reads, lists, creates, writes, links, renames, removes or re-dates something under an armed path
 * prefix is an event; events are numbered.  When event number k comes up the chosen action is carried out.
 * Probing calls (stat, access) are not events, nor are directory listings through a relative path (the scenarios use
 * absolute ones; it is the third-party bagit package that changes into the bag's directory and lists from there).
 * Of the reads through one descriptor the first six are events, of the entries of a directory the fourth is (the
 * first real one after . and .. at the latest, or the end of the listing).
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { M_OFF, M_COUNT, M_FAIL, M_STICKY, M_DIE, M_TORN, M_INT, M_SHORT, M_BADFILE };
enum { T_OPENR = 1, T_OPENW, T_READ, T_WRITE, T_CLOSE, T_MKDIR, T_LINK, T_RENAME, T_UNLINK, T_META, T_LIST, T_TRUNC };
#define MAXFD 4096
#define MAXEV 65536
static char prefix[PATH_MAX];
static size_t plen;
static int mode = M_OFF, err_no = EIO, sticky_on = 0;
static long K = -1, N = 0;
static unsigned char fdk[MAXFD];      /* 1 readable, 2 writable, 4 directory */
static unsigned char types[MAXEV];
static char hit[PATH_MAX + 64];
static int cur_fd = -1, bad_on = 0;        /* M_BADFILE: the file behind the descriptor of call K stays unusable */
static dev_t bad_dev; static ino_t bad_ino;
static DIR *dirs[64];
static unsigned char dirn[64], fdreads[MAXFD];

#define REAL(ret, name, ...) \
    static ret (*real)(__VA_ARGS__); if (!real) real = (ret (*)(__VA_ARGS__)) dlsym(RTLD_NEXT, name)

void mbv_arm(const char *p, int m, long k, int e) {
    snprintf(prefix, sizeof prefix, "%s", p); plen = strlen(prefix);
    mode = m; K = k; err_no = e; N = 0; hit[0] = 0; sticky_on = 0; bad_on = 0;
    memset(types, 0, sizeof types);
}
long mbv_disarm(void) { mode = M_OFF; return N; }
int mbv_type(long k) { return k >= 0 && k < MAXEV ? types[k] : 0; }
const char *mbv_hit(void) { return hit; }

static int under(const char *path) {
    if (mode == M_OFF || !path) return 0;
    if (path[0] == '/') return !strncmp(path, prefix, plen);
    char b[PATH_MAX]; int e = errno;
    int r = getcwd(b, sizeof b) != NULL && !strncmp(b, prefix, plen);
    errno = e;
    return r;
}
static int under_at(int dfd, const char *path) {
    if (mode == M_OFF || !path) return 0;
    if (path[0] == '/' || dfd == AT_FDCWD) return under(path);
    return dfd >= 0 && dfd < MAXFD && fdk[dfd];
}
static int needs_space(int t) { return t == T_OPENW || t == T_WRITE || t == T_MKDIR || t == T_LINK; }

/* 0: go on; 1: fail (errno set); 2: torn (do half, then die); 3: short */
static int event(int t, const char *what) {
    if (mode == M_OFF) return 0;
    long k = N++;
    if (k < MAXEV) types[k] = (unsigned char) t;
    if (mode == M_STICKY && sticky_on && needs_space(t)) { errno = err_no; return 1; }
    if (mode == M_BADFILE && bad_on && t == bad_on && cur_fd >= 0) {
        struct stat st;
        if (!fstat(cur_fd, &st) && st.st_dev == bad_dev && st.st_ino == bad_ino) { errno = err_no; return 1; }
    }
    if (mode == M_COUNT || k != K) return 0;
    static const char *nm[] = {"?", "open for reading", "open for writing", "read", "write", "close", "mkdir", "link",
                               "rename", "unlink", "utime/chmod", "list", "truncate"};
    snprintf(hit, sizeof hit, "%s %s", nm[t], what ? what : "");
    switch (mode) {
    case M_FAIL: errno = err_no; return 1;
    case M_STICKY: sticky_on = 1; if (needs_space(t)) { errno = err_no; return 1; } return 0;
    case M_DIE: _exit(77);
    case M_TORN: if (t == T_WRITE) return 2; return 0;
    case M_INT: raise(SIGINT); return 0;
    case M_SHORT: if (t == T_WRITE) return 3; return 0;
    case M_BADFILE: {
        struct stat st;
        if (cur_fd >= 0 && !fstat(cur_fd, &st)) { bad_on = t; bad_dev = st.st_dev; bad_ino = st.st_ino; }
        errno = err_no; return 1;
    }
    }
    return 0;
}
static int fdevent(int fd, int t, const char *what) { cur_fd = fd; int r = event(t, what); cur_fd = -1; return r; }
static void track(int fd, int flags) {
    if (fd >= 0 && fd < MAXFD) fdreads[fd] = 0;
    if (fd >= 0 && fd < MAXFD)
        fdk[fd] = (flags & O_DIRECTORY) ? 4 : ((flags & O_ACCMODE) == O_RDONLY ? 1 : 2);
}
static int otype(int flags) {
    if (flags & O_DIRECTORY) return T_LIST;
    return (flags & O_ACCMODE) != O_RDONLY || (flags & O_CREAT) ? T_OPENW : T_OPENR;
}

#define OPENBODY(nm) \
    mode_t md = 0; \
    if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); md = va_arg(ap, mode_t); va_end(ap); } \
    REAL(int, nm, const char *, int, ...); \
    if (!under(path)) return real(path, flags, md); \
    if (event(otype(flags), path) == 1) return -1; \
    int fd = real(path, flags, md); track(fd, flags); return fd;
int open(const char *path, int flags, ...) { OPENBODY("open") }
int open64(const char *path, int flags, ...) { OPENBODY("open64") }
#define OPENATBODY(nm) \
    mode_t md = 0; \
    if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); md = va_arg(ap, mode_t); va_end(ap); } \
    REAL(int, nm, int, const char *, int, ...); \
    if (!under_at(dfd, path)) return real(dfd, path, flags, md); \
    if (event(otype(flags), path) == 1) return -1; \
    int fd = real(dfd, path, flags, md); track(fd, flags); return fd;
int openat(int dfd, const char *path, int flags, ...) { OPENATBODY("openat") }
int openat64(int dfd, const char *path, int flags, ...) { OPENATBODY("openat64") }

int close(int fd) {
    REAL(int, "close", int);
    int k = fd >= 0 && fd < MAXFD ? fdk[fd] : 0;
    if (k) fdk[fd] = 0;
    if (mode != M_OFF && k == 2 && event(T_CLOSE, "") == 1) { int e = errno; real(fd); errno = e; return -1; }
    return real(fd);
}
static int dupto(int old, int nw) { if (old >= 0 && old < MAXFD && nw >= 0 && nw < MAXFD) fdk[nw] = fdk[old]; return nw; }
int dup(int a) { REAL(int, "dup", int); return dupto(a, real(a)); }
int dup2(int a, int b) { REAL(int, "dup2", int, int); return dupto(a, real(a, b)); }
int dup3(int a, int b, int f) { REAL(int, "dup3", int, int, int); return dupto(a, real(a, b, f)); }
int fcntl64(int fd, int cmd, ...) {
    va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
    REAL(int, "fcntl64", int, int, ...);
    int r = real(fd, cmd, arg);
    if (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) dupto(fd, r);
    return r;
}
#define TRACKED(fd) (mode != M_OFF && (fd) >= 0 && (fd) < MAXFD && fdk[fd])

ssize_t read(int fd, void *b, size_t n) {
    REAL(ssize_t, "read", int, void *, size_t);
    if (TRACKED(fd) && fdreads[fd] < 6) { fdreads[fd]++; if (fdevent(fd, T_READ, "") == 1) return -1; }
    return real(fd, b, n);
}
ssize_t pread64(int fd, void *b, size_t n, off64_t o) {
    REAL(ssize_t, "pread64", int, void *, size_t, off64_t);
    if (TRACKED(fd) && fdevent(fd, T_READ, "") == 1) return -1;
    return real(fd, b, n, o);
}
ssize_t write(int fd, const void *b, size_t n) {
    REAL(ssize_t, "write", int, const void *, size_t);
    if (TRACKED(fd)) switch (fdevent(fd, T_WRITE, "")) {
        case 1: return -1;
        case 2: real(fd, b, n / 2); _exit(77);
        case 3: return n > 1 ? real(fd, b, n / 2) : real(fd, b, n);
    }
    return real(fd, b, n);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
    REAL(ssize_t, "pwrite64", int, const void *, size_t, off64_t);
    if (TRACKED(fd)) switch (fdevent(fd, T_WRITE, "")) {
        case 1: return -1;
        case 2: real(fd, b, n / 2, o); _exit(77);
        case 3: return n > 1 ? real(fd, b, n / 2, o) : real(fd, b, n, o);
    }
    return real(fd, b, n, o);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
    REAL(ssize_t, "writev", int, const struct iovec *, int);
    if (TRACKED(fd) && fdevent(fd, T_WRITE, "") == 1) return -1;
    return real(fd, v, c);
}
ssize_t sendfile64(int o, int i, off64_t *off, size_t n) {
    REAL(ssize_t, "sendfile64", int, int, off64_t *, size_t);
    if (TRACKED(o)) switch (fdevent(o, T_WRITE, "")) {
        case 1: return -1;
        case 2: { struct stat st; size_t h = fstat(i, &st) ? 1 : (size_t) st.st_size / 2; if (h) real(o, i, off, h); _exit(77); }
        case 3: { struct stat st; size_t h = fstat(i, &st) ? 1 : (size_t) st.st_size / 2; if (h) return real(o, i, off, h); }
    }
    return real(o, i, off, n);
}
ssize_t copy_file_range(int i, off64_t *oi, int o, off64_t *oo, size_t n, unsigned f) {
    REAL(ssize_t, "copy_file_range", int, off64_t *, int, off64_t *, size_t, unsigned);
    if (TRACKED(o) && fdevent(o, T_WRITE, "") == 1) return -1;
    return real(i, oi, o, oo, n, f);
}
int fsync(int fd) { REAL(int, "fsync", int); if (TRACKED(fd) && fdevent(fd, T_WRITE, "fsync") == 1) return -1; return real(fd); }
int ftruncate64(int fd, off64_t n) { REAL(int, "ftruncate64", int, off64_t); if (TRACKED(fd) && fdevent(fd, T_TRUNC, "") == 1) return -1; return real(fd, n); }
int truncate64(const char *p, off64_t n) { REAL(int, "truncate64", const char *, off64_t); if (under(p) && event(T_TRUNC, p) == 1) return -1; return real(p, n); }

int mkdir(const char *p, mode_t m) { REAL(int, "mkdir", const char *, mode_t); if (under(p) && event(T_MKDIR, p) == 1) return -1; return real(p, m); }
int mkdirat(int d, const char *p, mode_t m) { REAL(int, "mkdirat", int, const char *, mode_t); if (under_at(d, p) && event(T_MKDIR, p) == 1) return -1; return real(d, p, m); }
int link(const char *a, const char *b) { REAL(int, "link", const char *, const char *); if ((under(a) || under(b)) && event(T_LINK, b) == 1) return -1; return real(a, b); }
int linkat(int d1, const char *a, int d2, const char *b, int f) { REAL(int, "linkat", int, const char *, int, const char *, int); if ((under_at(d1, a) || under_at(d2, b)) && event(T_LINK, b) == 1) return -1; return real(d1, a, d2, b, f); }
int symlink(const char *a, const char *b) { REAL(int, "symlink", const char *, const char *); if (under(b) && event(T_LINK, b) == 1) return -1; return real(a, b); }
int symlinkat(const char *a, int d, const char *b) { REAL(int, "symlinkat", const char *, int, const char *); if (under_at(d, b) && event(T_LINK, b) == 1) return -1; return real(a, d, b); }
int rename(const char *a, const char *b) { REAL(int, "rename", const char *, const char *); if ((under(a) || under(b)) && event(T_RENAME, b) == 1) return -1; return real(a, b); }
int renameat(int d1, const char *a, int d2, const char *b) { REAL(int, "renameat", int, const char *, int, const char *); if ((under_at(d1, a) || under_at(d2, b)) && event(T_RENAME, b) == 1) return -1; return real(d1, a, d2, b); }
int unlink(const char *p) { REAL(int, "unlink", const char *); if (under(p) && event(T_UNLINK, p) == 1) return -1; return real(p); }
int rmdir(const char *p) { REAL(int, "rmdir", const char *); if (under(p) && event(T_UNLINK, p) == 1) return -1; return real(p); }
int unlinkat(int d, const char *p, int f) { REAL(int, "unlinkat", int, const char *, int); if (under_at(d, p) && event(T_UNLINK, p) == 1) return -1; return real(d, p, f); }
int utimensat(int d, const char *p, const struct timespec t[2], int f) { REAL(int, "utimensat", int, const char *, const struct timespec *, int); if (under_at(d, p) && event(T_META, p) == 1) return -1; return real(d, p, t, f); }
int futimens(int fd, const struct timespec t[2]) { REAL(int, "futimens", int, const struct timespec *); if (TRACKED(fd) && fdevent(fd, T_META, "") == 1) return -1; return real(fd, t); }
int chmod(const char *p, mode_t m) { REAL(int, "chmod", const char *, mode_t); if (under(p) && event(T_META, p) == 1) return -1; return real(p, m); }
int fchmod(int fd, mode_t m) { REAL(int, "fchmod", int, mode_t); if (TRACKED(fd) && fdevent(fd, T_META, "") == 1) return -1; return real(fd, m); }
int fchmodat(int d, const char *p, mode_t m, int f) { REAL(int, "fchmodat", int, const char *, mode_t, int); if (under_at(d, p) && event(T_META, p) == 1) return -1; return real(d, p, m, f); }

static void adddir(DIR *d) { if (d) for (int i = 0; i < 64; i++) if (!dirs[i]) { dirs[i] = d; dirn[i] = 0; break; } }
static int isdirp(DIR *d, int forget) { for (int i = 0; i < 64; i++) if (dirs[i] == d) { if (forget) dirs[i] = 0; return 1; } return 0; }
DIR *opendir(const char *p) {
    REAL(DIR *, "opendir", const char *);
    int u = p && p[0] == '/' && under(p);   /* relative: the bagit package, inside the bag's directory */
    if (u && event(T_LIST, p) == 1) return NULL;
    DIR *d = real(p);
    if (u) adddir(d);
    return d;
}
DIR *fdopendir(int fd) {
    REAL(DIR *, "fdopendir", int);
    int u = TRACKED(fd);
    if (u && event(T_LIST, "") == 1) return NULL;
    DIR *d = real(fd);
    if (u) adddir(d);
    return d;
}
struct dirent64 *readdir64(DIR *d) {
    REAL(struct dirent64 *, "readdir64", DIR *);
    if (mode != M_OFF)
        for (int i = 0; i < 64; i++)
            if (dirs[i] == d && dirn[i] < 4 && dirn[i]++ == 3 && event(T_LIST, "(entry)") == 1) return NULL;
    return real(d);
}
int closedir(DIR *d) { REAL(int, "closedir", DIR *); isdirp(d, 1); return real(d); }
