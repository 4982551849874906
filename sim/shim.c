/* libsim.so - the seam between the system under test and the operating system.
 *
 * LD_PRELOADed into the (single) process that runs the real irrep code.  While
 * "armed" it sees every libc call that touches a file of the simulated world
 * (input files, output files, irrep tables, stdout), numbers it, records it in
 * a shared-memory event log that survives the death of the process, and decides
 * from a plan (written by the simulator before arming) what the call returns.
 * Randomness from the kernel and the clocks come from seeded / virtual sources.
 * Unarmed it is transparent.
 */
#define _GNU_SOURCE
#undef _FILE_OFFSET_BITS
#undef _FORTIFY_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#define MAXEV 60000
#define MAXPLAN 64
#define MAXFILES 128
#define MAXFD 512
#define PATHLEN 256

enum { OP_OPEN = 1, OP_READ, OP_WRITE, OP_CLOSE, OP_STAT, OP_RENAME, OP_UNLINK,
       OP_MKDIR, OP_FSYNC, OP_TRUNC, OP_FREAD, OP_FWRITE, OP_MMAP, OP_ALLOC,
       OP_LSEEK, OP_LINK, OP_CHMOD, OP_DIR };
enum { F_NONE = 0, F_ERR, F_SHORT, F_CRASH, F_CRASH_PART, F_SIGINT, F_ERR_AFTER,
       F_SWAP, F_ERR_PART };

typedef struct { uint32_t op; int32_t file; int64_t arg; int64_t ret; int32_t err;
                 int32_t fault; int32_t flags; int32_t fd; } event_t;
/* a plan entry fires on the `at`-th event (0 based), or - if file >= 0 - on every
 * event from `at` on whose op/file match, `times` times (sticky faults: disk full) */
typedef struct { int64_t at; int32_t kind; int32_t err; int64_t n; int32_t sticky;
                 int32_t opmask; int32_t fired; int32_t pad; } plan_t;

typedef struct {
    int32_t armed, nplan, nfiles, trackalloc;
    int64_t nev, overflow;
    uint64_t rng;              /* seeded getrandom stream */
    int64_t now_ns, tick_ns;   /* virtual clock */
    int64_t clock_calls, rand_calls;
    int64_t alloc_min, alloc_seen, alloc_fail_at, alloc_failed;
    int64_t capacity;          /* bytes that may still be written (disk size); <0 unlimited */
    int32_t stdout_tracked, nroots;
    int64_t jump_at, jump_ns;  /* clock jump: at n-th clock call add jump_ns */
    char roots[4][PATHLEN];
    char files[MAXFILES][PATHLEN];
    plan_t plan[MAXPLAN];
    event_t ev[MAXEV];
} ctl_t;

static ctl_t *C = NULL;
static int fdfile[MAXFD];   /* 1+file index */
static int fdflags[MAXFD];
static volatile int depth = 0;

size_t sim_ctl_size(void) { return sizeof(ctl_t); }
void *sim_ctl_new(void) {
    void *p = mmap(NULL, sizeof(ctl_t), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    return p == MAP_FAILED ? NULL : p;
}
void sim_arm(void *p) {
    C = (ctl_t *)p;
    memset(fdfile, 0, sizeof fdfile);
    C->armed = 1;
}
void sim_bypass(int d) { depth += d; }
void sim_disarm(void) { if (C) C->armed = 0; C = NULL; }

#define REAL(ret, name, ...) \
    static ret (*real_##name)(__VA_ARGS__) = NULL; \
    if (!real_##name) real_##name = (ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, #name)

static int on(void) { return C && C->armed && !depth; }

/* lexical normalisation: "//", "/./" and "/../" */
static void normal(char *p) {
    char *r = p, *w = p;
    while (*r) {
        if (r[0] == '/' && r[1] == '/') { r++; continue; }
        if (r[0] == '/' && r[1] == '.' && (r[2] == '/' || !r[2])) { r += 2; continue; }
        if (r[0] == '/' && r[1] == '.' && r[2] == '.' && (r[3] == '/' || !r[3])) {
            r += 3;
            while (w > p && *--w != '/') ;
            continue;
        }
        *w++ = *r++;
    }
    *w = 0;
}
static int file_index2(const char *path, int any);
static int file_index(const char *path) { return file_index2(path, 0); }
static int file_index2(const char *path, int any) {
    char buf[PATHLEN * 2];
    if (!path) return -1;
    if (path[0] != '/') {
        char cwd[PATHLEN];
        if (syscall(SYS_getcwd, cwd, sizeof cwd) < 0) return -1;
        while (path[0] == '.' && path[1] == '/') path += 2;
        if (strlen(cwd) + strlen(path) + 2 > sizeof buf) return -1;
        strcpy(buf, cwd); strcat(buf, "/"); strcat(buf, path);
    } else {
        if (strlen(path) + 1 > sizeof buf) return -1;
        strcpy(buf, path);
    }
    int ok = 0;
    normal(buf);
    if (any && !(!strncmp(buf, "/dev/", 5) && strncmp(buf, "/dev/shm/", 9)) && strncmp(buf, "/proc/", 6)) ok = 1;
    for (int i = 0; i < C->nroots; i++) {
        size_t n = strlen(C->roots[i]);
        if (n && !strncmp(buf, C->roots[i], n)) { ok = 1; break; }
    }
    if (!ok || strlen(buf) >= PATHLEN) return -1;
    for (int i = 0; i < C->nfiles; i++)
        if (!strcmp(C->files[i], buf)) return i;
    if (C->nfiles >= MAXFILES) return -1;
    strcpy(C->files[C->nfiles], buf);
    return C->nfiles++;
}
static int fd_index(int fd) {
    if (fd == 1 && C->stdout_tracked) return 0;   /* file 0 is "<stdout>" by convention */
    if (fd < 0 || fd >= MAXFD || !fdfile[fd]) return -1;
    return fdfile[fd] - 1;
}
static void fd_set_(int fd, int idx, int flags) {
    if (fd >= 0 && fd < MAXFD) { fdfile[fd] = idx + 1; fdflags[fd] = flags; }
}

static event_t *newev(int op, int file, int64_t arg, int flags, int fd) {
    static event_t dummy;
    int64_t i = C->nev++;
    event_t *e;
    if (i >= MAXEV) { C->overflow++; e = &dummy; } else e = &C->ev[i];
    e->op = op; e->file = file; e->arg = arg; e->ret = 0; e->err = 0; e->fault = 0;
    e->flags = flags; e->fd = fd;
    return e;
}
static plan_t *match(int64_t i, int op) {
    for (int k = 0; k < C->nplan; k++) {
        plan_t *p = &C->plan[k];
        if (p->opmask && !(p->opmask & (1 << op))) continue;
        if (p->sticky ? (i >= p->at && p->fired < p->sticky) : (i == p->at)) return p;
    }
    return NULL;
}
static void die(void) { syscall(SYS_kill, (int)syscall(SYS_getpid), SIGKILL); for (;;) pause(); }

/* generic decision for calls without data: returns 1 if the call must fail with errno set */
static int decide(event_t *e, int64_t i, int op) {
    plan_t *p = match(i, op);
    if (!p) return 0;
    switch (p->kind) {
    case F_ERR: case F_ERR_PART:
        p->fired++; e->fault = p->kind; e->err = p->err; e->ret = -1; errno = p->err; return 1;
    case F_CRASH: case F_CRASH_PART:
        p->fired++; e->fault = F_CRASH; die(); return 1;
    case F_SIGINT:
        p->fired++; e->fault = F_SIGINT; raise(SIGINT); return 0;
    case F_ERR_AFTER:  /* handled by caller where it makes sense (close) */
        p->fired++; e->fault = F_ERR_AFTER; return 2;
    default: return 0;
    }
}

/* A path that is about to be changed.  Outside the world nothing is ever changed: the
   attempt is recorded and refused. */
static int mut_index(const char *path) { return file_index2(path, 1); }
static int outside(int idx) {
    if (idx < 0) return 0;
    size_t n = strlen(C->roots[0]);
    return strncmp(C->files[idx], C->roots[0], n) && strncmp(C->roots[0], C->files[idx], n - 1);
}
static int refuse(event_t *e, int idx) {
    if (!outside(idx)) return 0;
    e->ret = -1; e->err = EROFS; errno = EROFS;
    return 1;
}
#define WRITING(fl) (((fl) & O_ACCMODE) != O_RDONLY || ((fl) & (O_CREAT | O_TRUNC)))

/* ---- open ------------------------------------------------------------ */
static int do_open(int (*fn)(const char *, int, mode_t), const char *path, int flags, mode_t mode) {
    int idx = WRITING(flags) ? mut_index(path) : file_index(path);
    if (idx < 0) return fn(path, flags, mode);
    int64_t i = C->nev;
    event_t *e = newev(OP_OPEN, idx, 0, flags, -1);
    if (WRITING(flags) && refuse(e, idx)) return -1;
    if (decide(e, i, OP_OPEN) == 1) return -1;
    if ((flags & (O_CREAT | O_TRUNC)) && (flags & O_ACCMODE) != O_RDONLY && C->capacity == 0 && (flags & O_CREAT)) {
        struct stat st;
        if (syscall(SYS_newfstatat, AT_FDCWD, path, &st, 0) != 0) {
            e->ret = -1; e->err = ENOSPC; e->fault = F_ERR; errno = ENOSPC; return -1;
        }
    }
    int fd = fn(path, flags, mode);
    e->ret = fd; e->err = fd < 0 ? errno : 0; e->fd = fd;
    if (fd >= 0) fd_set_(fd, idx, flags);
    return fd;
}
#define OPENFN(name) \
int name(const char *path, int flags, ...) { \
    REAL(int, name, const char *, int, mode_t); \
    mode_t mode = 0; \
    if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); } \
    if (!on()) return real_##name(path, flags, mode); \
    return do_open(real_##name, path, flags, mode); }
OPENFN(open)
OPENFN(open64)

static int (*oat_fn)(int, const char *, int, mode_t);
static int oat_dir;
static int oat_tramp(const char *p, int f, mode_t m) { return oat_fn(oat_dir, p, f, m); }
#define OPENATFN(name) \
int name(int dirfd, const char *path, int flags, ...) { \
    REAL(int, name, int, const char *, int, mode_t); \
    mode_t mode = 0; \
    if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); } \
    if (!on() || (dirfd != AT_FDCWD && path[0] != '/')) return real_##name(dirfd, path, flags, mode); \
    oat_fn = real_##name; oat_dir = dirfd; \
    return do_open(oat_tramp, path, flags, mode); }
OPENATFN(openat)
OPENATFN(openat64)

int creat(const char *path, mode_t mode) { return open(path, O_CREAT | O_WRONLY | O_TRUNC, mode); }
int creat64(const char *path, mode_t mode) { return open(path, O_CREAT | O_WRONLY | O_TRUNC, mode); }

/* stdio opened by C code (not by CPython): track the descriptor */
static FILE *do_fopen(FILE *(*fn)(const char *, const char *), const char *path, const char *mode) {
    int wr = mode[0] != 'r' || strchr(mode, '+');
    int idx = wr ? mut_index(path) : file_index(path);
    if (idx < 0) return fn(path, mode);
    int fl = mode[0] == 'r' ? (strchr(mode, '+') ? O_RDWR : O_RDONLY) : (O_WRONLY | O_CREAT | (mode[0] == 'w' ? O_TRUNC : O_APPEND));
    int64_t i = C->nev;
    event_t *e = newev(OP_OPEN, idx, 0, fl, -1);
    if (wr && refuse(e, idx)) return NULL;
    if (decide(e, i, OP_OPEN) == 1) return NULL;
    FILE *f = fn(path, mode);
    e->ret = f ? fileno(f) : -1; e->err = f ? 0 : errno;
    if (f) { e->fd = fileno(f); fd_set_(fileno(f), idx, fl); }
    return f;
}
FILE *fopen(const char *p, const char *m) { REAL(FILE *, fopen, const char *, const char *); return on() ? do_fopen(real_fopen, p, m) : real_fopen(p, m); }
FILE *fopen64(const char *p, const char *m) { REAL(FILE *, fopen64, const char *, const char *); return on() ? do_fopen(real_fopen64, p, m) : real_fopen64(p, m); }

/* ---- read ------------------------------------------------------------ */
static ssize_t do_read(int fd, size_t n, ssize_t (*fn)(int, void *, size_t, off_t), void *buf, off_t off) {
    int idx = fd_index(fd);
    int64_t i = C->nev;
    event_t *e = newev(OP_READ, idx, (int64_t)n, fdflags[fd < MAXFD ? fd : 0], fd);
    plan_t *p = match(i, OP_READ);
    size_t want = n;
    if (p && p->kind == F_SHORT) {
        p->fired++; e->fault = F_SHORT;
        if (want > (size_t)p->n && p->n > 0) want = (size_t)p->n;
    } else if (p && decide(e, i, OP_READ) == 1) return -1;
    ssize_t r = fn(fd, buf, want, off);
    e->ret = r; e->err = r < 0 ? errno : 0;
    if (e->fault == F_SHORT && (size_t)r == n) e->fault = 0; /* did not shorten anything */
    return r;
}
static ssize_t rd_plain(int fd, void *b, size_t n, off_t o) { (void)o; REAL(ssize_t, read, int, void *, size_t); return real_read(fd, b, n); }
static ssize_t rd_p(int fd, void *b, size_t n, off_t o) { REAL(ssize_t, pread, int, void *, size_t, off_t); return real_pread(fd, b, n, o); }
ssize_t read(int fd, void *b, size_t n) {
    if (!on() || fd == 1 || fd_index(fd) < 0) return rd_plain(fd, b, n, 0);
    return do_read(fd, n, rd_plain, b, 0);
}
ssize_t pread(int fd, void *b, size_t n, off_t o) {
    if (!on() || fd == 1 || fd_index(fd) < 0) return rd_p(fd, b, n, o);
    return do_read(fd, n, rd_p, b, o);
}
ssize_t pread64(int fd, void *b, size_t n, off_t o) { return pread(fd, b, n, o); }

size_t fread(void *b, size_t sz, size_t nm, FILE *f) {
    REAL(size_t, fread, void *, size_t, size_t, FILE *);
    int fd;
    if (!on() || (fd = fileno(f)) == 1 || fd_index(fd) < 0) return real_fread(b, sz, nm, f);
    int idx = fd_index(fd);
    int64_t i = C->nev;
    event_t *e = newev(OP_FREAD, idx, (int64_t)(sz * nm), fdflags[fd], fd);
    plan_t *p = match(i, OP_FREAD);
    if (p && (p->kind == F_ERR || p->kind == F_ERR_PART || p->kind == F_SHORT)) {
        /* the device fails (or the file ends) after p->n bytes */
        p->fired++;
        size_t got = 0, items = sz ? (size_t)p->n / sz : 0;
        if (items >= nm) items = nm ? nm - 1 : 0;
        if (items) got = real_fread(b, sz, items, f);
        e->ret = (int64_t)got; e->err = p->err; e->fault = p->kind; errno = p->err;
        return got;
    } else if (p) decide(e, i, OP_FREAD);
    size_t r = real_fread(b, sz, nm, f);
    e->ret = (int64_t)r;
    return r;
}

/* ---- write ----------------------------------------------------------- */
static ssize_t do_write(int fd, const void *b, size_t n, ssize_t (*fn)(int, const void *, size_t, off_t), off_t off) {
    int idx = fd_index(fd);
    int64_t i = C->nev;
    event_t *e = newev(OP_WRITE, idx, (int64_t)n, fdflags[fd < MAXFD ? fd : 0], fd);
    plan_t *p = match(i, OP_WRITE);
    size_t want = n;
    if (p) switch (p->kind) {
    case F_SHORT:
        p->fired++; e->fault = F_SHORT;
        if (p->n > 0 && want > (size_t)p->n) want = (size_t)p->n; else e->fault = 0;
        break;
    case F_CRASH_PART:
        p->fired++; e->fault = F_CRASH_PART;
        if (p->n > 0) fn(fd, b, want < (size_t)p->n ? want : (size_t)p->n, off);
        die(); break;
    case F_ERR_PART: /* torn write: some bytes reach the disk, then the device reports an error */
        p->fired++; e->fault = F_ERR_PART;
        if (p->n > 0) fn(fd, b, want < (size_t)p->n ? want : (size_t)p->n, off);
        e->ret = -1; e->err = p->err; errno = p->err; return -1;
    default:
        if (decide(e, i, OP_WRITE) == 1) return -1;
    }
    if (C->capacity >= 0 && fd != 1) {
        if (C->capacity == 0 && want) { e->ret = -1; e->err = ENOSPC; e->fault = F_ERR; errno = ENOSPC; return -1; }
        if ((int64_t)want > C->capacity) { want = (size_t)C->capacity; e->fault = F_SHORT; }
    }
    ssize_t r = fn(fd, b, want, off);
    if (r > 0 && C->capacity >= 0 && fd != 1) C->capacity -= r;
    e->ret = r; e->err = r < 0 ? errno : 0;
    return r;
}
static ssize_t wr_plain(int fd, const void *b, size_t n, off_t o) { (void)o; REAL(ssize_t, write, int, const void *, size_t); return real_write(fd, b, n); }
static ssize_t wr_p(int fd, const void *b, size_t n, off_t o) { REAL(ssize_t, pwrite, int, const void *, size_t, off_t); return real_pwrite(fd, b, n, o); }
ssize_t write(int fd, const void *b, size_t n) {
    if (!on() || fd_index(fd) < 0) return wr_plain(fd, b, n, 0);
    return do_write(fd, b, n, wr_plain, 0);
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) {
    if (!on() || fd_index(fd) < 0) return wr_p(fd, b, n, o);
    return do_write(fd, b, n, wr_p, o);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) { return pwrite(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec *iov, int cnt) {
    REAL(ssize_t, writev, int, const struct iovec *, int);
    if (!on() || fd_index(fd) < 0 || cnt < 1) return real_writev(fd, iov, cnt);
    return do_write(fd, iov[0].iov_base, iov[0].iov_len, wr_plain, 0);
}
size_t fwrite(const void *b, size_t sz, size_t nm, FILE *f) {
    REAL(size_t, fwrite, const void *, size_t, size_t, FILE *);
    int fd;
    if (!on() || (fd = fileno(f)) < 0 || fd_index(fd) < 0) return real_fwrite(b, sz, nm, f);
    int idx = fd_index(fd);
    int64_t i = C->nev;
    event_t *e = newev(OP_FWRITE, idx, (int64_t)(sz * nm), fdflags[fd], fd);
    if (match(i, OP_FWRITE) && decide(e, i, OP_FWRITE) == 1) return 0;
    size_t r = real_fwrite(b, sz, nm, f);
    e->ret = (int64_t)r;
    return r;
}

/* ---- descriptors ----------------------------------------------------- */
int close(int fd) {
    REAL(int, close, int);
    int idx;
    if (!on() || fd == 1 || (idx = fd_index(fd)) < 0) { if (C && fd >= 0 && fd < MAXFD) fdfile[fd] = 0; return real_close(fd); }
    int64_t i = C->nev;
    event_t *e = newev(OP_CLOSE, idx, 0, fdflags[fd], fd);
    int d = decide(e, i, OP_CLOSE);
    fdfile[fd] = 0;
    int r = real_close(fd);
    if (d) { errno = e->err; return -1; }   /* Linux: the descriptor is gone either way */
    e->ret = r;
    return r;
}
int fclose(FILE *f) {
    REAL(int, fclose, FILE *);
    if (C && C->armed) { int fd = fileno(f); if (fd >= 0 && fd < MAXFD) fdfile[fd] = 0; }
    return real_fclose(f);
}
int dup(int fd) { REAL(int, dup, int); int r = real_dup(fd); if (on() && r >= 0 && r < MAXFD) { int x = fd_index(fd); fd_set_(r, x, fd < MAXFD ? fdflags[fd] : 0); } return r; }
int dup2(int a, int b) { REAL(int, dup2, int, int); int r = real_dup2(a, b); if (on() && r >= 0 && r != 1 && r < MAXFD) fd_set_(r, fd_index(a), a < MAXFD ? fdflags[a] : 0); return r; }
int dup3(int a, int b, int c) { REAL(int, dup3, int, int, int); int r = real_dup3(a, b, c); if (on() && r >= 0 && r != 1 && r < MAXFD) fd_set_(r, fd_index(a), a < MAXFD ? fdflags[a] : 0); return r; }
static int fcntl_common(int r, int fd, int cmd) {
    if (on() && (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) && r >= 0 && r < MAXFD) fd_set_(r, fd_index(fd), fd < MAXFD ? fdflags[fd] : 0);
    return r;
}
int fcntl(int fd, int cmd, ...) {
    REAL(int, fcntl, int, int, ...);
    va_list ap; va_start(ap, cmd); void *arg = va_arg(ap, void *); va_end(ap);
    return fcntl_common(real_fcntl(fd, cmd, arg), fd, cmd);
}
int fcntl64(int fd, int cmd, ...) {
    REAL(int, fcntl64, int, int, ...);
    va_list ap; va_start(ap, cmd); void *arg = va_arg(ap, void *); va_end(ap);
    return fcntl_common(real_fcntl64(fd, cmd, arg), fd, cmd);
}
int fsync(int fd) {
    REAL(int, fsync, int);
    if (!on() || fd_index(fd) < 0) return real_fsync(fd);
    int64_t i = C->nev; event_t *e = newev(OP_FSYNC, fd_index(fd), 0, 0, fd);
    if (decide(e, i, OP_FSYNC) == 1) return -1;
    return 0;
}
int fdatasync(int fd) { return fsync(fd); }
static int trunc_common(int fd, off_t n) {
    if (!on() || fd_index(fd) < 0) return (int)syscall(SYS_ftruncate, fd, n);
    int64_t i = C->nev; event_t *e = newev(OP_TRUNC, fd_index(fd), n, fdflags[fd], fd);
    if (decide(e, i, OP_TRUNC) == 1) return -1;
    return (int)syscall(SYS_ftruncate, fd, n);
}
int ftruncate(int fd, off_t n) { return trunc_common(fd, n); }
int ftruncate64(int fd, off_t n) { return trunc_common(fd, n); }
int truncate(const char *p, off_t n) {
    if (on() && mut_index(p) >= 0) { int64_t i = C->nev; event_t *e = newev(OP_TRUNC, mut_index(p), n, O_WRONLY, -1); if (refuse(e, e->file)) return -1; if (decide(e, i, OP_TRUNC) == 1) return -1; }
    return (int)syscall(SYS_truncate, p, n);
}
int truncate64(const char *p, off_t n) { return truncate(p, n); }

/* ---- names ----------------------------------------------------------- */
#define PATHEV(OP, path, extra) \
    int64_t i = C->nev; event_t *e = newev(OP, file_index(path), extra, 0, -1); \
    if (decide(e, i, OP) == 1) return -1;
#define MUTEV(OP, path, extra) \
    int64_t i = C->nev; event_t *e = newev(OP, mut_index(path), extra, 0, -1); \
    if (refuse(e, e->file)) return -1; \
    if (decide(e, i, OP) == 1) return -1;
int rename(const char *a, const char *b) {
    REAL(int, rename, const char *, const char *);
    if (on() && (mut_index(a) >= 0 || mut_index(b) >= 0)) { MUTEV(OP_RENAME, a, mut_index(b)) if (refuse(e, (int)e->arg)) return -1; }
    return real_rename(a, b);
}
int renameat(int d1, const char *a, int d2, const char *b) {
    REAL(int, renameat, int, const char *, int, const char *);
    if (on() && (mut_index(a) >= 0 || mut_index(b) >= 0)) { MUTEV(OP_RENAME, a, mut_index(b)) if (refuse(e, (int)e->arg)) return -1; }
    return real_renameat(d1, a, d2, b);
}
int unlink(const char *a) {
    REAL(int, unlink, const char *);
    if (on() && mut_index(a) >= 0) { MUTEV(OP_UNLINK, a, 0) }
    return real_unlink(a);
}
int unlinkat(int d, const char *a, int fl) {
    REAL(int, unlinkat, int, const char *, int);
    if (on() && mut_index(a) >= 0) { MUTEV(OP_UNLINK, a, fl) }
    return real_unlinkat(d, a, fl);
}
int rmdir(const char *a) {
    REAL(int, rmdir, const char *);
    if (on() && mut_index(a) >= 0) { MUTEV(OP_UNLINK, a, 0) }
    return real_rmdir(a);
}
int mkdir(const char *a, mode_t m) {
    REAL(int, mkdir, const char *, mode_t);
    if (on() && mut_index(a) >= 0) { MUTEV(OP_MKDIR, a, 0) }
    return real_mkdir(a, m);
}
int mkdirat(int d, const char *a, mode_t m) {
    REAL(int, mkdirat, int, const char *, mode_t);
    if (on() && mut_index(a) >= 0) { MUTEV(OP_MKDIR, a, 0) }
    return real_mkdirat(d, a, m);
}
int link(const char *a, const char *b) {
    REAL(int, link, const char *, const char *);
    if (on() && mut_index(b) >= 0) { MUTEV(OP_LINK, b, 0) }
    return real_link(a, b);
}
int symlink(const char *a, const char *b) {
    REAL(int, symlink, const char *, const char *);
    if (on() && mut_index(b) >= 0) { MUTEV(OP_LINK, b, 0) }
    return real_symlink(a, b);
}
int chmod(const char *a, mode_t m) {
    REAL(int, chmod, const char *, mode_t);
    if (on() && mut_index(a) >= 0) { MUTEV(OP_CHMOD, a, 0) }
    return real_chmod(a, m);
}
int fchmod(int fd, mode_t m) {
    if (on() && fd_index(fd) >= 0) { int64_t i = C->nev; event_t *e = newev(OP_CHMOD, fd_index(fd), 0, fdflags[fd], fd); if (decide(e, i, OP_CHMOD) == 1) return -1; }
    return (int)syscall(SYS_fchmod, fd, m);
}
int fchmodat(int d, const char *a, mode_t m, int fl) {
    REAL(int, fchmodat, int, const char *, mode_t, int);
    if (on() && mut_index(a) >= 0) { MUTEV(OP_CHMOD, a, 0) }
    return real_fchmodat(d, a, m, fl);
}
int utimensat(int d, const char *a, const struct timespec t[2], int fl) {
    REAL(int, utimensat, int, const char *, const struct timespec *, int);
    if (on() && a && mut_index(a) >= 0) { MUTEV(OP_CHMOD, a, 0) }
    return real_utimensat(d, a, t, fl);
}

/* ---- stat: only path based ones can fail interestingly ---------------- */
#define STATFN(name, st) \
int name(const char *path, struct st *b) { \
    REAL(int, name, const char *, struct st *); \
    if (on() && file_index(path) >= 0) { PATHEV(OP_STAT, path, 0) int r = real_##name(path, b); e->ret = r; return r; } \
    return real_##name(path, b); }
STATFN(stat, stat)
STATFN(stat64, stat64)
STATFN(lstat, stat)
STATFN(lstat64, stat64)
#define FSTATAT(name, st) \
int name(int d, const char *path, struct st *b, int fl) { \
    REAL(int, name, int, const char *, struct st *, int); \
    if (on() && path && file_index(path) >= 0 && path[0]) { PATHEV(OP_STAT, path, 0) int r = real_##name(d, path, b, fl); e->ret = r; return r; } \
    return real_##name(d, path, b, fl); }
FSTATAT(fstatat, stat)
FSTATAT(fstatat64, stat64)

void *mmap(void *a, size_t n, int pr, int fl, int fd, off_t o) {
    if (on() && fd >= 0 && fd != 1 && fd_index(fd) >= 0) {
        int64_t i = C->nev; event_t *e = newev(OP_MMAP, fd_index(fd), (int64_t)n, fdflags[fd], fd);
        if (decide(e, i, OP_MMAP) == 1) return MAP_FAILED;
    }
    return (void *)syscall(SYS_mmap, a, n, pr, fl, fd, o);
}
void *mmap64(void *a, size_t n, int pr, int fl, int fd, off_t o) { return mmap(a, n, pr, fl, fd, o); }

/* ---- randomness and time --------------------------------------------- */
static uint64_t nextrand(void) {
    uint64_t z = (C->rng += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
static void fillrand(void *b, size_t n) {
    unsigned char *p = b;
    C->rand_calls++;
    for (size_t i = 0; i < n; i++) p[i] = (unsigned char)(nextrand() >> 24);
}
ssize_t getrandom(void *b, size_t n, unsigned fl) {
    if (on()) { fillrand(b, n); return (ssize_t)n; }
    return syscall(SYS_getrandom, b, n, fl);
}
int getentropy(void *b, size_t n) {
    if (on()) { fillrand(b, n); return 0; }
    return syscall(SYS_getrandom, b, n, 0) == (ssize_t)n ? 0 : -1;
}
static int64_t vnow(void) {
    C->clock_calls++;
    if (C->jump_at && C->clock_calls == C->jump_at) C->now_ns += C->jump_ns;
    C->now_ns += C->tick_ns;
    return C->now_ns;
}
int clock_gettime(clockid_t id, struct timespec *ts) {
    if (on() && C->tick_ns && (id == CLOCK_REALTIME || id == CLOCK_MONOTONIC || id == CLOCK_REALTIME_COARSE || id == CLOCK_MONOTONIC_COARSE || id == CLOCK_BOOTTIME)) {
        int64_t t = vnow(); ts->tv_sec = t / 1000000000; ts->tv_nsec = t % 1000000000; return 0;
    }
    return (int)syscall(SYS_clock_gettime, id, ts);
}
int gettimeofday(struct timeval *tv, void *tz) {
    (void)tz;
    if (on() && C->tick_ns) { int64_t t = vnow(); tv->tv_sec = t / 1000000000; tv->tv_usec = (t % 1000000000) / 1000; return 0; }
    struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0;
}
time_t time(time_t *t) {
    struct timespec ts;
    if (on() && C->tick_ns) ts.tv_sec = vnow() / 1000000000;
    else syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts);
    if (t) *t = ts.tv_sec;
    return ts.tv_sec;
}

/* ---- allocations: the n-th one of at least alloc_min bytes fails (and, if sticky, all later ones) */
extern void *__libc_malloc(size_t);
extern void *__libc_calloc(size_t, size_t);
extern void *__libc_realloc(void *, size_t);
static int no_memory(size_t n) {
    if (!C || !C->armed || depth || !C->trackalloc || (int64_t)n < C->alloc_min) return 0;
    int64_t i = C->alloc_seen++;
    if (C->alloc_fail_at < 0 || !(i == C->alloc_fail_at || (C->trackalloc > 1 && i > C->alloc_fail_at))) return 0;
    C->alloc_failed++;
    errno = ENOMEM;
    return 1;
}
void *malloc(size_t n) { return no_memory(n) ? NULL : __libc_malloc(n); }
void *calloc(size_t a, size_t b) { return (!b || a <= ((size_t)-1) / b) && no_memory(a * b) ? NULL : __libc_calloc(a, b); }
void *realloc(void *p, size_t n) { return no_memory(n) ? NULL : __libc_realloc(p, n); }
