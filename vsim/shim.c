/* Storage seam of the simulator: interposes (LD_PRELOAD) the C library's file
 * calls for paths below one scratch directory.  Every such call is numbered
 * and logged with its data; faults are taken from a plan indexed by call
 * number, from sticky rules, or from a seeded generator.  Calls on other
 * files go straight through. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <unistd.h>

enum { K_OPEN = 1, K_READ, K_WRITE, K_TRUNC, K_CLOSE, K_SYNC, K_RENAME, K_UNLINK, K_MKDIR, K_RMDIR };
enum { F_NONE = 0, F_EINTR, F_SHORT, F_EIO, F_ENOSPC, F_EACCES, F_EMFILE, F_CLOSE_EIO, F_EOF, F_EDQUOT, F_ENOENT, NFAULT };

typedef struct { int32_t kind, file, fault, err; int64_t off, len, res, dataoff; int32_t flags, file2; } entry_t;
typedef struct { int64_t index; int32_t fault; int32_t sticky; int64_t arg; } plan_t;

#define MAXFD 4096
#define MAXPATH 256
#define MAXPLAN 64
static int armed;
static char prefix[512];
static size_t plen;
static int fdfile[MAXFD];             /* 0 = untracked, else file id + 1 */
static char paths[MAXPATH][512];
static int npaths;
static entry_t *lg; static int64_t nlog, caplog;
static char *dat; static int64_t ndat, capdat;
static int keepdata;
static plan_t plan[MAXPLAN]; static int nplan;
static uint64_t rs; static uint32_t p_short_r, p_short_w, p_eintr;
static int64_t quota = -1;
static int64_t fired[NFAULT];
static int eintr_run;

static int (*r_open)(const char *, int, ...);
static int (*r_openat)(int, const char *, int, ...);
static ssize_t (*r_read)(int, void *, size_t);
static ssize_t (*r_write)(int, const void *, size_t);
static ssize_t (*r_pread)(int, void *, size_t, off64_t);
static ssize_t (*r_pwrite)(int, const void *, size_t, off64_t);
static int (*r_ftruncate)(int, off64_t);
static int (*r_truncate)(const char *, off64_t);
static int (*r_close)(int);
static int (*r_fsync)(int);
static int (*r_fdatasync)(int);
static int (*r_rename)(const char *, const char *);
static int (*r_unlink)(const char *);
static int (*r_mkdir)(const char *, mode_t);
static int (*r_rmdir)(const char *);

static void init(void) {
    if (r_open) return;
    r_openat = dlsym(RTLD_NEXT, "openat64"); r_read = dlsym(RTLD_NEXT, "read");
    r_write = dlsym(RTLD_NEXT, "write"); r_pread = dlsym(RTLD_NEXT, "pread64");
    r_pwrite = dlsym(RTLD_NEXT, "pwrite64"); r_ftruncate = dlsym(RTLD_NEXT, "ftruncate64");
    r_truncate = dlsym(RTLD_NEXT, "truncate64"); r_close = dlsym(RTLD_NEXT, "close");
    r_fsync = dlsym(RTLD_NEXT, "fsync"); r_fdatasync = dlsym(RTLD_NEXT, "fdatasync");
    r_rename = dlsym(RTLD_NEXT, "rename"); r_unlink = dlsym(RTLD_NEXT, "unlink"); r_mkdir = dlsym(RTLD_NEXT, "mkdir"); r_rmdir = dlsym(RTLD_NEXT, "rmdir");
    r_open = dlsym(RTLD_NEXT, "open64");
}

/* ---- control interface (called through ctypes) ---- */
void vs_prefix(const char *p) { snprintf(prefix, sizeof prefix, "%s", p); plen = strlen(prefix); }
void vs_reset(void) { armed = 0; nlog = 0; ndat = 0; nplan = 0; quota = -1; p_short_r = p_short_w = p_eintr = 0;
    npaths = 0; eintr_run = 0; memset(fdfile, 0, sizeof fdfile); memset(fired, 0, sizeof fired); }
void vs_arm(int on, int keep) { armed = on; keepdata = keep; }
void vs_clear_faults(void) { nplan = 0; quota = -1; p_short_r = p_short_w = p_eintr = 0; }
int vs_plan(int64_t idx, int fault, int sticky, int64_t arg) {
    if (nplan >= MAXPLAN) return -1;
    plan[nplan].index = idx; plan[nplan].fault = fault; plan[nplan].sticky = sticky; plan[nplan++].arg = arg; return 0; }
void vs_random(uint64_t seed, uint32_t sr, uint32_t sw, uint32_t ei) { rs = seed * 2862933555777941757ULL + 3037000493ULL; p_short_r = sr; p_short_w = sw; p_eintr = ei; }
void vs_quota(int64_t q) { quota = q; }
int64_t vs_nlog(void) { return nlog; }
void *vs_log(void) { return lg; }
int64_t vs_ndat(void) { return ndat; }
void *vs_dat(void) { return dat; }
int vs_npaths(void) { return npaths; }
const char *vs_path(int i) { return paths[i]; }
int64_t vs_fired(int f) { return fired[f]; }
int vs_entry_size(void) { return sizeof(entry_t); }

static uint32_t rnd(void) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return (uint32_t)(rs >> 11); }

/* absolute name without "." and empty parts, for names relative to the working directory */
static const char *absname(const char *p, char *b, size_t n) {
    if (!p || !plen || !*p) return p;
    size_t k = 0;
    if (*p != '/') { if (!getcwd(b, n - 2)) return p; k = strlen(b); }
    else if (!strstr(p, "//") && !strstr(p, "/./")) return p;
    while (*p) {
        while (*p == '/') p++;
        if (p[0] == '.' && (p[1] == '/' || !p[1])) { p++; continue; }
        if (!*p) break;
        if (k + 2 >= n) return p;
        b[k++] = '/';
        while (*p && *p != '/' && k + 2 < n) b[k++] = *p++;
    }
    b[k] = 0; return b;
}
#define ABS(p) char p##_b[4352]; p = absname(p, p##_b, sizeof p##_b)
static int track(const char *p) { return plen && p && !strncmp(p, prefix, plen) && (p[plen] == '/' || !p[plen]); }
static int fid(const char *p) {
    for (int i = 0; i < npaths; i++) if (!strcmp(paths[i], p)) return i;
    if (npaths >= MAXPATH) return MAXPATH - 1;
    snprintf(paths[npaths], sizeof paths[0], "%s", p); return npaths++;
}
static entry_t *add(int kind, int file, int64_t off, int64_t len) {
    if (nlog == caplog) { caplog = caplog ? caplog * 2 : 4096; lg = realloc(lg, caplog * sizeof *lg); }
    entry_t *e = &lg[nlog++]; memset(e, 0, sizeof *e);
    e->kind = kind; e->file = file; e->off = off; e->len = len; e->dataoff = -1; e->file2 = -1; return e;
}
static int applies(int fault, int kind) {
    switch (fault) {
    case F_EINTR: case F_SHORT: return kind == K_READ || kind == K_WRITE;
    case F_EIO: return kind == K_READ || kind == K_WRITE || kind == K_OPEN || kind == K_TRUNC || kind == K_SYNC;
    case F_ENOSPC: case F_EDQUOT: return kind == K_WRITE || kind == K_TRUNC;
    case F_EACCES: case F_EMFILE: case F_ENOENT: return kind == K_OPEN;
    case F_CLOSE_EIO: return kind == K_CLOSE;
    case F_EOF: return kind == K_READ;
    }
    return 0;
}
/* fault for the operation about to get log index nlog */
static int decide(int kind, int wr, int64_t len, int64_t *arg) {
    for (int i = 0; i < nplan; i++)
        if ((plan[i].index == nlog || (plan[i].sticky && plan[i].index <= nlog)) && applies(plan[i].fault, kind)) {
            if (plan[i].sticky && plan[i].fault == F_EIO && plan[i].arg && !(plan[i].arg & (1 << kind))) continue;
            *arg = plan[i].arg; return plan[i].fault; }
    if (kind == K_WRITE && quota >= 0) {
        if (quota == 0) return F_ENOSPC;
        if (len > quota) { *arg = quota; return F_SHORT; }
    }
    if (kind == K_READ || kind == K_WRITE) {
        uint32_t r = rnd() & 65535;
        if (p_eintr && r < p_eintr && eintr_run < 3) { eintr_run++; return F_EINTR; }
        eintr_run = 0;
        r = rnd() & 65535;
        if (len > 1 && r < (wr ? p_short_w : p_short_r)) { uint32_t k = rnd();
            *arg = (k & 1) ? 1 + (rnd() % (len - 1)) : 1 + (rnd() % (len < 16 ? len - 1 : 15)); return F_SHORT; }
    }
    return F_NONE;
}
static int err_of(int f) {
    switch (f) { case F_EINTR: return EINTR; case F_ENOSPC: return ENOSPC; case F_EDQUOT: return EDQUOT;
    case F_EACCES: return EACCES; case F_EMFILE: return EMFILE; case F_ENOENT: return ENOENT; default: return EIO; }
}

static int do_open(int at, int dirfd, const char *path, int flags, mode_t mode) {
    init();
    const char *given = path;
    ABS(path);
    if (at && *given != '/' && dirfd != AT_FDCWD) path = given;
    if (!armed || !track(path)) {
        path = given;
        int fd = at ? r_openat(dirfd, path, flags, mode) : r_open(path, flags, mode);
        if (fd >= 0 && fd < MAXFD) fdfile[fd] = 0;
        return fd;
    }
    int64_t arg = 0; int f = decide(K_OPEN, 0, 0, &arg);
    int id = fid(path);
    struct stat64 st; int64_t old = stat64(path, &st) == 0 ? st.st_size : -1;
    entry_t *e = add(K_OPEN, id, old, 0); e->flags = flags; e->fault = f;
    if (f) { fired[f]++; e->res = -1; e->err = err_of(f); errno = e->err; return -1; }
    int fd = r_open(path, flags, mode);
    e->res = fd; e->err = fd < 0 ? errno : 0;
    if (fd >= 0 && fd < MAXFD) fdfile[fd] = id + 1;
    return fd;
}
#define MODE(fl) mode_t m = 0; if ((fl) & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); m = va_arg(ap, int); va_end(ap); }
int open(const char *p, int fl, ...) { MODE(fl) return do_open(0, 0, p, fl, m); }
int open64(const char *p, int fl, ...) { MODE(fl) return do_open(0, 0, p, fl | O_LARGEFILE, m); }
int openat(int d, const char *p, int fl, ...) { MODE(fl) return do_open(1, d, p, fl, m); }
int openat64(int d, const char *p, int fl, ...) { MODE(fl) return do_open(1, d, p, fl | O_LARGEFILE, m); }
int creat(const char *p, mode_t m) { return do_open(0, 0, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *p, mode_t m) { return do_open(0, 0, p, O_CREAT | O_WRONLY | O_TRUNC, m); }

static int istracked(int fd) { return armed && fd >= 0 && fd < MAXFD && fdfile[fd]; }

static ssize_t do_read(int fd, void *b, size_t n, off64_t off, int pos) {
    init();
    if (!istracked(fd)) return pos ? r_pread(fd, b, n, off) : r_read(fd, b, n);
    int64_t o = pos ? off : lseek64(fd, 0, SEEK_CUR), arg = 0;
    int f = decide(K_READ, 0, n, &arg);
    entry_t *e = add(K_READ, fdfile[fd] - 1, o, n); e->fault = f;
    if (f) fired[f]++;
    if (f == F_EOF) { e->res = 0; return 0; }
    if (f && f != F_SHORT) { e->res = -1; e->err = err_of(f); errno = e->err; return -1; }
    if (f == F_SHORT) { if (arg < 1) arg = 1; if ((size_t)arg < n) n = arg; }
    ssize_t r = pos ? r_pread(fd, b, n, off) : r_read(fd, b, n);
    e->res = r; e->err = r < 0 ? errno : 0; return r;
}
ssize_t read(int fd, void *b, size_t n) { return do_read(fd, b, n, 0, 0); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { return do_read(fd, b, n, o, 1); }
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { return do_read(fd, b, n, o, 1); }

static ssize_t do_write(int fd, const void *b, size_t n, off64_t off, int pos) {
    init();
    if (!istracked(fd)) return pos ? r_pwrite(fd, b, n, off) : r_write(fd, b, n);
    int64_t o = off, arg = 0;
    if (!pos) { int fl = fcntl(fd, F_GETFL); if (fl & O_APPEND) { struct stat64 st; fstat64(fd, &st); o = st.st_size; } else o = lseek64(fd, 0, SEEK_CUR); }
    int f = decide(K_WRITE, 1, n, &arg);
    entry_t *e = add(K_WRITE, fdfile[fd] - 1, o, n); e->fault = f;
    if (f) fired[f]++;
    if (f && f != F_SHORT) { e->res = -1; e->err = err_of(f); errno = e->err; return -1; }
    if (f == F_SHORT) { if (arg < 1) arg = 1; if ((size_t)arg < n) n = arg; }
    ssize_t r = pos ? r_pwrite(fd, b, n, off) : r_write(fd, b, n);
    e->res = r; e->err = r < 0 ? errno : 0;
    if (r > 0) {
        if (quota >= 0) quota -= r < quota ? r : quota;
        if (keepdata) {
            if (ndat + r > capdat) { capdat = (ndat + r) * 2 + 65536; dat = realloc(dat, capdat); }
            memcpy(dat + ndat, b, r); e->dataoff = ndat; ndat += r;
        }
    }
    return r;
}
ssize_t write(int fd, const void *b, size_t n) { return do_write(fd, b, n, 0, 0); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return do_write(fd, b, n, o, 1); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return do_write(fd, b, n, o, 1); }

static int simple_fault(entry_t *e, int f) { e->fault = f; if (!f) return 0; fired[f]++; e->res = -1; e->err = err_of(f); errno = e->err; return 1; }
int ftruncate64(int fd, off64_t n) {
    init();
    if (!istracked(fd)) return r_ftruncate(fd, n);
    int64_t arg = 0; int f = decide(K_TRUNC, 1, 0, &arg);
    entry_t *e = add(K_TRUNC, fdfile[fd] - 1, n, 0);
    if (simple_fault(e, f)) return -1;
    int r = r_ftruncate(fd, n); e->res = r; e->err = r < 0 ? errno : 0; return r;
}
int ftruncate(int fd, off_t n) { return ftruncate64(fd, n); }
int truncate64(const char *p, off64_t n) {
    init(); ABS(p);
    if (!armed || !track(p)) return r_truncate(p, n);
    entry_t *e = add(K_TRUNC, fid(p), n, 0); int r = r_truncate(p, n); e->res = r; e->err = r < 0 ? errno : 0; return r;
}
int truncate(const char *p, off_t n) { return truncate64(p, n); }
static int do_sync(int fd, int (*fn)(int)) {
    if (!istracked(fd)) return fn(fd);
    int64_t arg = 0; int f = decide(K_SYNC, 1, 0, &arg);
    entry_t *e = add(K_SYNC, fdfile[fd] - 1, 0, 0);
    if (simple_fault(e, f)) return -1;
    int r = fn(fd); e->res = r; e->err = r < 0 ? errno : 0; return r;
}
int fsync(int fd) { init(); return do_sync(fd, r_fsync); }
int fdatasync(int fd) { init(); return do_sync(fd, r_fdatasync); }
int close(int fd) {
    init();
    if (!istracked(fd)) { if (fd >= 0 && fd < MAXFD) fdfile[fd] = 0; return r_close(fd); }
    int64_t arg = 0; int f = decide(K_CLOSE, 0, 0, &arg);
    entry_t *e = add(K_CLOSE, fdfile[fd] - 1, 0, 0); e->fault = f;
    fdfile[fd] = 0;
    int r = r_close(fd);
    if (f) { fired[f]++; e->res = -1; e->err = EIO; errno = EIO; return -1; }
    e->res = r; return r;
}
int rename(const char *a, const char *b) {
    init(); ABS(a); ABS(b);
    if (!armed || !(track(a) || track(b))) return r_rename(a, b);
    int x = fid(a), y = fid(b); entry_t *e = add(K_RENAME, x, 0, 0); e->file2 = y;
    int r = r_rename(a, b); e->res = r; e->err = r < 0 ? errno : 0; return r;
}
int mkdir(const char *p, mode_t m) {
    init(); ABS(p);
    if (!armed || !track(p)) return r_mkdir(p, m);
    entry_t *e = add(K_MKDIR, fid(p), 0, 0); int r = r_mkdir(p, m); e->res = r; e->err = r < 0 ? errno : 0; return r;
}
int rmdir(const char *p) {
    init(); ABS(p);
    if (!armed || !track(p)) return r_rmdir(p);
    entry_t *e = add(K_RMDIR, fid(p), 0, 0); int r = r_rmdir(p); e->res = r; e->err = r < 0 ? errno : 0; return r;
}
int unlink(const char *p) {
    init(); ABS(p);
    if (!armed || !track(p)) return r_unlink(p);
    entry_t *e = add(K_UNLINK, fid(p), 0, 0); int r = r_unlink(p); e->res = r; e->err = r < 0 ? errno : 0; return r;
}
