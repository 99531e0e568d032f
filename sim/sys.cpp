// Random source, clock and file I/O seams. The file I/O symbols defined here take precedence over
// libc's for gridpp, libstdc++, libnetcdf and HDF5; files below g_io->root are simulated storage
// (backed by a scratch directory), everything else passes through.
#include "rt.h"
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>

IoState *g_io;
namespace {
int8_t fdmap[4096]; bool fdinit; bool fdwr[4096];
void fd_init() { if (!fdinit) { fdinit = true; memset(fdmap, -1, sizeof fdmap); } }
int fd_file(int fd) { fd_init(); return (fd >= 0 && fd < 4096) ? fdmap[fd] : -1; }
bool simfile(const char *p) {
    if (!g_io || !g_io->on || !p) return false;
    if (p[0] != '/') return true;           // runs have their scratch directory as current directory
    size_t n = strlen(g_io->root);
    return n && strncmp(p, g_io->root, n) == 0;
}
int file_index(const char *p) {
    for (uint32_t i = 0; i < g_io->nfiles; i++) if (!strcmp(g_io->files[i], p)) return (int)i;
    if (g_io->nfiles >= MAX_FILES) return MAX_FILES - 1;
    strncpy(g_io->files[g_io->nfiles], p, 255);
    return (int)g_io->nfiles++;
}
void fd_bind(int fd, int f, bool wr) { fd_init(); if (fd >= 0 && fd < 4096) { fdmap[fd] = (int8_t)f; fdwr[fd] = wr; } }
// the last write of each descriptor, for a close that reports that it was lost
struct LastWrite { int fd; uint64_t off, len, size, kept; char old[1 << 18]; };
LastWrite last_write[8]; uint32_t last_next;
bool losing() { for (uint32_t k = 0; k < g_io->nfaults; k++) if (g_io->faults[k].kind == FK_LOST) return true; return false; }
void keep_write(int fd, uint64_t off, uint64_t len, uint64_t size) {
    LastWrite *w = NULL; for (auto &q : last_write) if (q.len && q.fd == fd) w = &q;
    if (!w) w = &last_write[last_next++ & 7];
    if (len > sizeof w->old) { off += len - sizeof w->old; len = sizeof w->old; }
    w->fd = fd; w->off = off; w->len = len; w->size = size; w->kept = 0;
    if (off < size) { ssize_t r = syscall(SYS_pread64, fd, w->old, std::min(len, size - off), off); w->kept = r > 0 ? (uint64_t)r : 0; }
}
void lose_write(int fd) {
    for (auto &w : last_write) if (w.len && w.fd == fd) {
        struct stat st; if (fstat(fd, &st) == 0 && (uint64_t)st.st_size == w.off + w.len && w.size < w.off + w.len) { if (syscall(SYS_ftruncate, fd, std::max(w.size, w.off)) && getenv("SIM_VERBOSE")) perror("truncate"); }
        else if (w.size < w.off + w.len) { static char z[sizeof w.old]; if (syscall(SYS_pwrite64, fd, z + 0, w.len - w.kept, w.off + w.kept) < 0 && getenv("SIM_VERBOSE")) perror("zero"); }
        if (w.kept && syscall(SYS_pwrite64, fd, w.old, w.kept, w.off) < 0 && getenv("SIM_VERBOSE")) perror("restore");
        w.len = 0;
    }
}
void die() { kill(getpid(), SIGKILL); for (;;) pause(); }

// returns the fault to apply to this operation (kind), or 0
uint32_t io_event(int op, int wr, int file, uint64_t off, uint64_t len, uint32_t *idx, uint32_t *arg) {
    uint32_t i = g_io->nio++;
    if (i > (g_io->max_ops ? g_io->max_ops : 300000)) _exit(96);      // retries for ever
    *idx = i; *arg = 0;
    if (i < MAX_IO) { IoEvent &e = g_io->ev[i]; e.op = op; e.wr = wr; e.file = file; e.off = off; e.len = len; e.res = 0; e.fault = 0; }
    g_io->hash = (g_io->hash ^ ((uint64_t)op * 131 + wr) ^ (len << 8) ^ ((uint64_t)file << 40)) * 0x100000001B3ull + off;
    for (uint32_t k = 0; k < g_io->nfaults; k++) {
        if (g_io->faults[k].at != i) continue;
        if (g_io->faults[k].sticky && g_io->faults[k].kind != FK_EINTR) g_io->sticky_kind[file < 0 ? MAX_FILES : file][op][wr] = g_io->faults[k].kind;
        g_io->fired[k]++;
        *arg = g_io->faults[k].arg;
        if (i < MAX_IO) g_io->ev[i].fault = g_io->faults[k].kind;
        return g_io->faults[k].kind;
    }
    uint32_t s = g_io->sticky_kind[file < 0 ? MAX_FILES : file][op][wr];
    if (!s) s = g_io->sticky_kind[MAX_FILES][op][wr];
    if (s && i < MAX_IO) g_io->ev[i].fault = s;
    return s;
}
int err_of(uint32_t k) {
    switch (k) {
    case FK_EIO: return EIO; case FK_ENOSPC: case FK_SHORT_ENOSPC: return ENOSPC; case FK_EINTR: return EINTR;
    case FK_EACCES: return EACCES; case FK_ENOENT: return ENOENT; case FK_EMFILE: return EMFILE; case FK_EDQUOT: return EDQUOT;
    case FK_LOST: return EIO; case FK_EAGAIN: return EAGAIN; case FK_ESTALE: return ESTALE;
    default: return 0;
    }
}
void res(uint32_t idx, int64_t r) { if (idx < MAX_IO) g_io->ev[idx].res = r; }

ssize_t do_write(int fd, const void *b, size_t n, int64_t off, bool positioned) {
    int f = fd_file(fd);
    if (f < 0) return positioned ? syscall(SYS_pwrite64, fd, b, n, off) : syscall(SYS_write, fd, b, n);
    uint64_t pos = positioned ? (uint64_t)off : (uint64_t)syscall(SYS_lseek, fd, 0, SEEK_CUR);
    uint32_t idx, arg; uint32_t k = io_event(IO_WRITE, 1, f, pos, n, &idx, &arg);
    if (k == FK_CRASH_BEFORE) die();
    size_t m = n;
    struct stat st; uint64_t size = fstat(fd, &st) == 0 ? (uint64_t)st.st_size : 0, grow = pos + n > size ? std::min<uint64_t>(n, pos + n - size) : 0;
    if (k == FK_SHORT) { m = n > 1 ? (arg ? arg % n : n / 2) : n; if (m == 0) m = 1; }
    else if (k == FK_CRASH_TORN) {      // the kernel copies page by page: a killed write ends at a page boundary
        uint64_t p0 = pos / 4096 + 1, p1 = (pos + n - 1) / 4096;
        if (p1 < p0) die();
        m = (size_t)((p0 + arg % (p1 - p0 + 1)) * 4096 - pos);
    }
    else if (k == FK_SHORT_ENOSPC) { if (g_io->space_left < 0) g_io->space_left = grow ? (int64_t)(arg % grow) : 0; }    // the disk is full from here on
    else if (int e = err_of(k)) { res(idx, -e); errno = e; return -1; }
    g_io->grown += grow; if (g_io->max_grown && g_io->grown > g_io->max_grown) _exit(96);
    if (g_io->space_left >= 0 && grow) {    // only what makes a file longer needs space
        if ((uint64_t)g_io->space_left < grow) { m = n - (size_t)(grow - g_io->space_left); g_io->space_fired++; if (m == 0) { res(idx, -ENOSPC); errno = ENOSPC; return -1; } }
        g_io->space_left = (uint64_t)g_io->space_left < grow ? 0 : g_io->space_left - (int64_t)grow;
    }
    if (m && losing()) keep_write(fd, pos, m, size);
    ssize_t r = positioned ? syscall(SYS_pwrite64, fd, b, m, off) : syscall(SYS_write, fd, b, m);
    if (k == FK_CRASH_AFTER || k == FK_CRASH_TORN) die();
    res(idx, r);
    return r;
}
ssize_t do_read(int fd, void *b, size_t n, int64_t off, bool positioned) {
    int f = fd_file(fd);
    if (f < 0) return positioned ? syscall(SYS_pread64, fd, b, n, off) : syscall(SYS_read, fd, b, n);
    uint64_t pos = positioned ? (uint64_t)off : (uint64_t)syscall(SYS_lseek, fd, 0, SEEK_CUR);
    uint32_t idx, arg; uint32_t k = io_event(IO_READ, 0, f, pos, n, &idx, &arg);
    if (k == FK_CRASH_BEFORE || k == FK_CRASH_AFTER || k == FK_CRASH_TORN) die();
    size_t m = n;
    if (k == FK_SHORT && n > 1) { m = arg ? arg % n : n / 2; if (m == 0) m = 1; }
    else if (int e = err_of(k)) { res(idx, -e); errno = e; return -1; }
    ssize_t r = positioned ? syscall(SYS_pread64, fd, b, m, off) : syscall(SYS_read, fd, b, m);
    res(idx, r);
    return r;
}
int do_open(const char *path, int flags, mode_t mode) {
    if (!simfile(path)) return (int)syscall(SYS_openat, AT_FDCWD, path, flags, mode);
    int wr = (flags & O_ACCMODE) != O_RDONLY;
    int f = file_index(path);
    uint32_t idx, arg; uint32_t k = io_event(IO_OPEN, wr, f, flags, 0, &idx, &arg);
    if (k == FK_CRASH_BEFORE || k == FK_CRASH_TORN) die();
    if (int e = err_of(k)) { res(idx, -e); errno = e; return -1; }
    int fd = (int)syscall(SYS_openat, AT_FDCWD, path, flags, mode);
    if (k == FK_CRASH_AFTER) die();
    if (fd >= 0) fd_bind(fd, f, wr);
    res(idx, fd >= 0 ? 0 : -errno);
    return fd;
}
template <class F> F next(const char *n) { return (F)dlsym(RTLD_NEXT, n); }
int gen_fault(int op, int wr, int f, uint64_t off, uint64_t len, uint32_t *kind, uint32_t *idx) {
    uint32_t arg; *kind = io_event(op, wr, f, off, len, idx, &arg);
    if (*kind == FK_CRASH_BEFORE || *kind == FK_CRASH_TORN) die();
    if (int e = err_of(*kind)) { res(*idx, -e); errno = e; return -1; }
    return 0;
}
// ---------------- clock
int64_t clk_us; bool clk_init; Rng clk_rng(1);
int64_t clock_now_us() {
    if (!clk_init) { clk_init = true; clk_us = (int64_t)g_cfg.clock_start * 1000000; clk_rng = Rng(g_cfg.clock_seed + 77); }
    g_st.clock_reads++;
    switch (g_cfg.clock_mode) {
    case 1: break;
    case 2: clk_us -= (int64_t)clk_rng.below(5000000); break;
    case 3: {
        static const int64_t J[] = { 1, 60, 3600, 86400, 31536000, 315360000 };
        int64_t d = J[clk_rng.below(6)] * 1000000; if (clk_rng.chance(0.5)) d = -d;
        clk_us += d; if (clk_us < 0) clk_us = 86400000000ll; if (clk_us > 7000000000000000ll) clk_us = 7000000000000000ll; break;
    }
    case 4: clk_us += clk_rng.chance(0.1) ? (int64_t)clk_rng.below(2000000000u) : 10; break;
    default: clk_us += 100; break;
    }
    return clk_us;
}
uint64_t rnd_n; Rng rnd(1); bool rnd_init;
int next_rand() {
    if (!rnd_init) { rnd_init = true; rnd = Rng(g_cfg.rand_seed + 5); }
    g_st.rand_draws++;
    switch (g_cfg.rand_mode) {
    case 1: return 0;
    case 2: return RAND_MAX;
    case 3: return (rnd_n++ & 1) ? RAND_MAX : 0;
    case 4: return (int)rnd.below(4);
    case 5: return RAND_MAX - (int)rnd.below(8);
    default: return (int)(rnd.next() >> 33);
    }
}
}
double sim_now() { return clock_now_us() * 1e-6; }

extern "C" {
// ---- random source and clock, redirected in gridpp's objects at link time
int sim_rand() { return next_rand(); }
int sim_rand_r(unsigned *) { return next_rand(); }
long sim_random() { return next_rand(); }
void sim_srand(unsigned) {}
void sim_srandom(unsigned) {}
double sim_drand48() { return next_rand() / ((double)RAND_MAX + 1.0); }
long sim_lrand48() { return next_rand(); }
int sim_gettimeofday(struct timeval *t, void *) { int64_t u = clock_now_us(); t->tv_sec = u / 1000000; t->tv_usec = u % 1000000; return 0; }
time_t sim_time(time_t *t) { time_t v = clock_now_us() / 1000000; if (t) *t = v; return v; }
int sim_clock_gettime(int, struct timespec *t) { int64_t u = clock_now_us(); t->tv_sec = u / 1000000; t->tv_nsec = (u % 1000000) * 1000; return 0; }
long sim_clock() { return (long)clock_now_us(); }
int64_t sim_chrono_steady() { return clock_now_us() * 1000; }
int64_t sim_chrono_now() { return clock_now_us() * 1000; }
int sim_usleep(unsigned) { return 0; }
unsigned sim_sleep(unsigned) { return 0; }
unsigned sim_random_device(void *) { return (unsigned)next_rand() * 2u + (unsigned)(next_rand() & 1); }

// ---- file I/O, takes precedence over libc for every library in the process
int open(const char *p, int fl, ...) { mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, fl); m = va_arg(a, mode_t); va_end(a); } return do_open(p, fl, m); }
int open64(const char *p, int fl, ...) { mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, fl); m = va_arg(a, mode_t); va_end(a); } return do_open(p, fl | O_LARGEFILE, m); }
int creat(const char *p, mode_t m) { return do_open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
ssize_t read(int fd, void *b, size_t n) { return do_read(fd, b, n, 0, false); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { return do_read(fd, b, n, o, true); }
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { return do_read(fd, b, n, o, true); }
ssize_t write(int fd, const void *b, size_t n) { return do_write(fd, b, n, 0, false); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return do_write(fd, b, n, o, true); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return do_write(fd, b, n, o, true); }
ssize_t writev(int fd, const struct iovec *v, int n) {
    if (fd_file(fd) < 0) return syscall(SYS_writev, fd, v, n);
    size_t t = 0; for (int i = 0; i < n; i++) t += v[i].iov_len;
    char *b = (char *)malloc(t ? t : 1); size_t k = 0;
    for (int i = 0; i < n; i++) { memcpy(b + k, v[i].iov_base, v[i].iov_len); k += v[i].iov_len; }
    ssize_t r = do_write(fd, b, t, 0, false);
    int e = errno; free(b); errno = e;
    return r;
}
off64_t lseek64(int fd, off64_t o, int w) {
    int f = fd_file(fd);
    if (f >= 0) { uint32_t k, i; if (gen_fault(IO_SEEK, 0, f, (uint64_t)o, w, &k, &i)) return -1; }
    return syscall(SYS_lseek, fd, o, w);
}
off_t lseek(int fd, off_t o, int w) { return lseek64(fd, o, w); }
int ftruncate64(int fd, off64_t n) {
    int f = fd_file(fd);
    uint32_t k = 0, i = 0;
    if (f >= 0 && gen_fault(IO_TRUNC, 1, f, (uint64_t)n, 0, &k, &i)) return -1;
    int r = (int)syscall(SYS_ftruncate, fd, n);
    if (k == FK_CRASH_AFTER) die();
    return r;
}
int ftruncate(int fd, off_t n) { return ftruncate64(fd, n); }
int fsync(int fd) {
    int f = fd_file(fd);
    uint32_t k = 0, i = 0;
    if (f >= 0 && gen_fault(IO_SYNC, 1, f, 0, 0, &k, &i)) return -1;
    return (int)syscall(SYS_fsync, fd);
}
int fdatasync(int fd) { return fsync(fd); }
int close(int fd) {
    int f = fd_file(fd);
    uint32_t k = 0, i = 0; int bad = 0;
    if (f >= 0) { bad = gen_fault(IO_CLOSE, fdwr[fd], f, 0, 0, &k, &i); fdmap[fd] = -1; if (k == FK_LOST) lose_write(fd); for (auto &w : last_write) if (w.fd == fd) w.len = 0; }
    int e = bad ? err_of(k) : errno;
    int r = (int)syscall(SYS_close, fd);
    if (k == FK_CRASH_AFTER) die();
    if (bad) { errno = e; return -1; }
    return r;
}
int unlink(const char *p) {
    uint32_t k = 0, i = 0;
    if (simfile(p) && gen_fault(IO_UNLINK, 1, file_index(p), 0, 0, &k, &i)) return -1;
    int r = (int)syscall(SYS_unlink, p);
    if (k == FK_CRASH_AFTER) die();
    return r;
}
int remove(const char *p) { return unlink(p); }
int rename(const char *a, const char *b) {
    uint32_t k = 0, i = 0;
    if (simfile(b) && gen_fault(IO_UNLINK, 1, file_index(b), 1, 0, &k, &i)) return -1;
    int r = (int)syscall(SYS_rename, a, b);
    if (k == FK_CRASH_AFTER) die();
    return r;
}
static FILE *do_fopen(const char *p, const char *m, const char *nm) {
    typedef FILE *(*F)(const char *, const char *);
    F real = next<F>(nm);
    if (!simfile(p)) return real(p, m);
    int wr = strpbrk(m, "wa+") != NULL;
    int f = file_index(p);
    uint32_t k, i;
    if (gen_fault(IO_OPEN, wr, f, 0, 0, &k, &i)) return NULL;
    FILE *r = real(p, m);
    if (k == FK_CRASH_AFTER) die();
    if (r) fd_bind(fileno(r), f, wr);
    return r;
}
FILE *fopen(const char *p, const char *m) { return do_fopen(p, m, "fopen"); }
FILE *fopen64(const char *p, const char *m) { return do_fopen(p, m, "fopen64"); }
int fclose(FILE *s) {
    typedef int (*F)(FILE *);
    static F real = next<F>("fclose");
    int fd = fileno(s); int f = fd_file(fd);
    uint32_t k = 0, i = 0; int bad = 0;
    if (f >= 0) { bad = gen_fault(IO_CLOSE, fdwr[fd], f, 0, 0, &k, &i); fdmap[fd] = -1; if (k == FK_LOST) lose_write(fd); for (auto &w : last_write) if (w.fd == fd) w.len = 0; }
    int e = bad ? err_of(k) : errno;
    int r = real(s);
    if (k == FK_CRASH_AFTER) die();
    if (bad) { errno = e; return EOF; }
    return r;
}
size_t fread(void *b, size_t sz, size_t n, FILE *s) {
    typedef size_t (*F)(void *, size_t, size_t, FILE *);
    static F real = next<F>("fread");
    int f = fd_file(fileno(s));
    if (f >= 0) { uint32_t k, i; if (gen_fault(IO_READ, 0, f, 0, sz * n, &k, &i)) { s->_flags |= 0x20; return 0; }   /* the stream's error flag */ if (k == FK_CRASH_AFTER) die(); }
    return real(b, sz, n, s);
}
size_t fwrite(const void *b, size_t sz, size_t n, FILE *s) {
    typedef size_t (*F)(const void *, size_t, size_t, FILE *);
    static F real = next<F>("fwrite");
    int f = fd_file(fileno(s));
    if (f >= 0) { uint32_t k, i; if (gen_fault(IO_WRITE, 1, f, 0, sz * n, &k, &i)) { s->_flags |= 0x20; return 0; } size_t r = real(b, sz, n, s); if (k == FK_CRASH_AFTER) die(); return r; }
    return real(b, sz, n, s);
}
}
