// The file seam: real files in the scratch directory, with injected failures, short and interrupted transfers, crashes.
#include "rt.h"
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <stdio_ext.h>
#include <sys/stat.h>
#include <link.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

static inline long raw6(long n, long a, long b, long c, long d, long e, long f)
{
    long r;
    register long r10 asm("r10") = d;
    register long r8 asm("r8") = e;
    register long r9 asm("r9") = f;
    asm volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return r;
}
static long ret(long r)
{
    if (r < 0 && r > -4096) {
        errno = (int)-r;
        return -1;
    }
    return r;
}

static constexpr int kFds = 1024;
static int16_t fd_path[kFds]; // index + 1
static uint64_t nio_all;

static int path_index(const char *p)
{
    Result &r = g.shm->res;
    for (uint32_t i = 0; i < r.npaths; i++)
        if (!strncmp(r.paths[i], p, sizeof r.paths[i] - 1))
            return (int)i;
    if (r.npaths == kMaxPaths)
        return -1;
    strncpy(r.paths[r.npaths], p, sizeof r.paths[0] - 1);
    return (int)r.npaths++;
}

static bool tracked_path(const char *p)
{
    static const char *sys[] = {"/etc", "/usr", "/proc", "/sys", "/dev", "/lib", nullptr};
    for (int i = 0; sys[i]; i++)
        if (!strncmp(p, sys[i], strlen(sys[i])))
            return false;
    return true;
}

static const char *path_of(int fd)
{
    return g.shm->res.paths[fd_path[fd] - 1];
}
static bool tracked_fd(int fd)
{
    return self && g.active && fd >= 0 && fd < kFds && fd_path[fd];
}

static void log_op(uint32_t op, int path, int path2, long result, uint64_t off, uint32_t arg)
{
    Result &r = g.shm->res;
    hash_event(g.steps, (uint64_t)op << 40 | (uint64_t)(uint32_t)result << 8 | (uint32_t)path);
    if (r.nio < kMaxIo)
        r.io[r.nio] = IoOp{g.steps, op, path, path2, (int32_t)result, off, arg, (uint32_t)self->slot};
    r.nio++;
}

// Crash around a file operation. Returns true if the operation is to be cut in the middle.
static bool crash_here(bool after)
{
    Request &rq = g.shm->req;
    bool mid = false;
    for (uint32_t i = 0; i < rq.nfaults; i++) {
        Fault &f = rq.faults[i];
        if (f.kind != F_CRASH_IO || f.nth != nio_all)
            continue;
        if (f.arg == 2 && !after) {
            mid = true;
            continue;
        }
        if ((f.arg == 0) == !after || (f.arg == 2 && after)) {
            g.shm->res.fired[F_CRASH_IO]++;
            end_run(E_CRASH, "crash at a file operation");
        }
    }
    return mid;
}
static bool begin_op(Thr *t, uint32_t what)
{
    sync_point(t, what);
    return crash_here(false);
}
static void end_op()
{
    crash_here(true);
    nio_all++;
}

static void opened(const char *path, int fd, int flags)
{
    bool wr = (flags & O_ACCMODE) != O_RDONLY;
    int pi = path_index(path);
    if (fd >= 0 && fd < kFds && pi >= 0)
        fd_path[fd] = (int16_t)(pi + 1);
    log_op(wr ? 'o' : 'R', pi, -1, fd >= 0 ? 0 : -errno, 0, (flags & O_TRUNC) ? 1 : 0);
}

static int do_open(int dirfd, const char *path, int flags, mode_t mode)
{
    Thr *t = self;
    if (!t || !g.active || t->internal || !tracked_path(path))
        return (int)ret(raw6(SYS_openat, dirfd, (long)path, flags, mode, 0, 0));
    begin_op(t, 80);
    g.shm->res.n_open++;
    bool wr = (flags & O_ACCMODE) != O_RDONLY;
    if (wr && !g.shm->res.marked && !strcmp(path, g.shm->req.report_path))
        site_mark();
    int64_t arg = 0;
    int fd;
    if (fault_fire(F_OPEN_FAIL, path, &arg)) {
        errno = (int)arg;
        fd = -1;
    } else
        fd = (int)ret(raw6(SYS_openat, dirfd, (long)path, flags, mode, 0, 0));
    int e = errno;
    opened(path, fd, flags);
    end_op();
    errno = e;
    return fd;
}

static void do_close_log(int fd, bool fail, int err)
{
    log_op('c', fd_path[fd] - 1, -1, fail ? -err : 0, 0, 0);
    fd_path[fd] = 0;
}

static ssize_t do_read(int fd, void *buf, size_t n, const struct iovec *, int)
{
    Thr *t = self;
    begin_op(t, 81);
    g.shm->res.n_read++;
    const char *p = path_of(fd);
    int64_t arg = 0;
    long r;
    if (fault_fire(F_READ_EINTR, p, nullptr))
        r = -EINTR;
    else if (fault_fire(F_READ_FAIL, p, &arg))
        r = -arg;
    else {
        if (fault_fire(F_READ_SHORT, p, &arg) && arg >= 1 && n > (size_t)arg)
            n = (size_t)arg;
        r = raw6(SYS_read, fd, (long)buf, (long)n, 0, 0, 0);
    }
    log_op('r', fd_path[fd] - 1, -1, r, 0, (uint32_t)n);
    end_op();
    return ret(r);
}

static ssize_t do_writev(int fd, const struct iovec *v, int cnt)
{
    Thr *t = self;
    bool mid = begin_op(t, 82);
    g.shm->res.n_write++;
    const char *p = path_of(fd);
    size_t n = 0;
    for (int i = 0; i < cnt; i++)
        n += v[i].iov_len;
    size_t want = n;
    int64_t arg = 0;
    long r = 0;
    uint64_t off = 0;
    if (fault_fire(F_WRITE_EINTR, p, nullptr))
        r = -EINTR;
    else if (fault_fire(F_WRITE_FAIL, p, &arg))
        r = -arg;
    else {
        if (fault_fire(F_WRITE_SHORT, p, &arg) && arg >= 1 && n > (size_t)arg)
            n = (size_t)arg;
        Request &rq = g.shm->req;
        for (uint32_t i = 0; i < rq.nfaults && r == 0; i++) {
            Fault &f = rq.faults[i];
            if (f.kind != F_DISK_FULL || (f.filter[0] && !strstr(p, f.filter)))
                continue;
            uint64_t room = f.seen < (uint64_t)f.arg ? f.arg - f.seen : 0;
            if (n > room) {
                f.fired++;
                g.shm->res.fired[F_DISK_FULL]++;
                if (!room)
                    r = -ENOSPC;
                n = room;
            }
            f.seen += n;
        }
        if (mid)
            n = n / 2;
        if (r == 0 && (n || !want)) {
            off = (uint64_t)raw6(SYS_lseek, fd, 0, SEEK_CUR, 0, 0, 0);
            size_t left = n;
            for (int i = 0; i < cnt && left; i++) {
                size_t k = v[i].iov_len < left ? v[i].iov_len : left;
                size_t done = 0;
                while (done < k) {
                    long w = raw6(SYS_write, fd, (long)v[i].iov_base + (long)done, (long)(k - done), 0, 0, 0);
                    if (w < 0) {
                        if (r == 0)
                            r = w;
                        break;
                    }
                    done += (size_t)w;
                    r += w;
                }
                if (done < k)
                    break;
                left -= k;
            }
            uint64_t end = (uint64_t)raw6(SYS_lseek, fd, 0, SEEK_CUR, 0, 0, 0);
            if (r > 0)
                off = end - (uint64_t)r; // appending moves first
        }
    }
    if (r > 0)
        g.shm->res.bytes_written += (uint64_t)r;
    log_op('w', fd_path[fd] - 1, -1, r, off, (uint32_t)want);
    end_op();
    return ret(r);
}

template <class F> static F real_fn(F &cache, const char *name)
{
    if (!cache)
        cache = reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
    return cache;
}

// Streams that the program itself opens write through our file operations. (libc's own would reach the kernel directly.)
static constexpr int kStreams = 64;
static struct {
    FILE *f;
    int fd;
} streams[kStreams];
extern "C" char __executable_start, etext;
// the logging library, which writes log.txt
static char *log_lib[2];
static int find_log_lib(dl_phdr_info *i, size_t, void *)
{
    if (i->dlpi_name && strstr(i->dlpi_name, "libspdlog"))
        for (int k = 0; k < i->dlpi_phnum; k++)
            if (i->dlpi_phdr[k].p_type == PT_LOAD && (i->dlpi_phdr[k].p_flags & PF_X)) {
                log_lib[0] = (char *)i->dlpi_addr + i->dlpi_phdr[k].p_vaddr;
                log_lib[1] = log_lib[0] + i->dlpi_phdr[k].p_memsz;
            }
    return 0;
}
__attribute__((constructor)) static void find_libs()
{
    dl_iterate_phdr(find_log_lib, nullptr);
}
static bool own_code(void *pc)
{
    return ((char *)pc >= &__executable_start && (char *)pc < &etext) || ((char *)pc >= log_lib[0] && (char *)pc < log_lib[1]);
}
static ssize_t cookie_read(void *c, char *b, size_t n)
{
    ssize_t r;
    do
        r = read((int)(long)c, b, n);
    while (r < 0 && errno == EINTR);
    return r;
}
static ssize_t cookie_write(void *c, const char *b, size_t n)
{
    size_t done = 0;
    while (done < n) {
        ssize_t r = write((int)(long)c, b + done, n - done);
        if (r < 0 && errno == EINTR)
            continue;
        if (r <= 0)
            break;
        done += (size_t)r;
    }
    return (ssize_t)done;
}
static int cookie_seek(void *c, off64_t *o, int whence)
{
    long r = raw6(SYS_lseek, (long)c, *o, whence, 0, 0, 0);
    if (r < 0) {
        errno = (int)-r;
        return -1;
    }
    *o = r;
    return 0;
}
static int cookie_close(void *c)
{
    for (auto &s : streams)
        if (s.f && s.fd == (int)(long)c)
            s.f = nullptr;
    return close((int)(long)c);
}
static FILE *stream_of(int fd, const char *mode)
{
    cookie_io_functions_t io = {cookie_read, cookie_write, cookie_seek, cookie_close};
    FILE *f = fopencookie((void *)(long)fd, mode, io);
    if (f) {
        __fsetlocking(f, FSETLOCKING_BYCALLER);
        for (auto &s : streams)
            if (!s.f) {
                s.f = f;
                s.fd = fd;
                break;
            }
    }
    return f;
}

extern "C" {
int fileno(FILE *f) noexcept
{
    static int (*rf)(FILE *);
    real_fn(rf, "fileno");
    for (auto &s : streams)
        if (s.f == f)
            return s.fd;
    return rf(f);
}
FILE *fdopen(int fd, const char *mode) noexcept
{
    static FILE *(*rf)(int, const char *);
    real_fn(rf, "fdopen");
    if (tracked_fd(fd) && own_code(__builtin_return_address(0)))
        return stream_of(fd, mode);
    return rf(fd, mode);
}
int open(const char *path, int flags, ...)
{
    va_list ap;
    va_start(ap, flags);
    mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0;
    va_end(ap);
    return do_open(AT_FDCWD, path, flags, m);
}
int open64(const char *path, int flags, ...)
{
    va_list ap;
    va_start(ap, flags);
    mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0;
    va_end(ap);
    return do_open(AT_FDCWD, path, flags, m);
}
int openat(int d, const char *path, int flags, ...)
{
    va_list ap;
    va_start(ap, flags);
    mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0;
    va_end(ap);
    return do_open(d, path, flags, m);
}
int openat64(int d, const char *path, int flags, ...)
{
    va_list ap;
    va_start(ap, flags);
    mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0;
    va_end(ap);
    return do_open(d, path, flags, m);
}
int creat(const char *path, mode_t m)
{
    return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, m);
}
FILE *fopen(const char *path, const char *mode)
{
    static FILE *(*rf)(const char *, const char *);
    real_fn(rf, "fopen");
    Thr *t = self;
    if (!t || !g.active || t->internal || !tracked_path(path))
        return rf(path, mode);
    int flags = mode[0] == 'r' ? O_RDONLY : O_WRONLY | O_CREAT | (mode[0] == 'w' ? O_TRUNC : O_APPEND);
    if (strchr(mode, '+'))
        flags = (flags & ~O_ACCMODE) | O_RDWR;
    if (own_code(__builtin_return_address(0))) {
        int fd = do_open(AT_FDCWD, path, flags, 0666);
        return fd < 0 ? nullptr : stream_of(fd, mode);
    }
    begin_op(t, 80);
    g.shm->res.n_open++;
    if ((flags & O_ACCMODE) != O_RDONLY && !g.shm->res.marked && !strcmp(path, g.shm->req.report_path))
        site_mark();
    int64_t arg = 0;
    FILE *f;
    if (fault_fire(F_OPEN_FAIL, path, &arg)) {
        errno = (int)arg;
        f = nullptr;
    } else {
        f = rf(path, mode);
    }
    int e = errno;
    opened(path, f ? fileno(f) : -1, flags);
    end_op();
    errno = e;
    return f;
}
FILE *fopen64(const char *path, const char *mode) __attribute__((alias("fopen")));
int fclose(FILE *f)
{
    static int (*rf)(FILE *);
    real_fn(rf, "fclose");
    for (auto &s : streams)
        if (s.f == f)
            return rf(f);
    int fd = fileno(f);
    if (!tracked_fd(fd))
        return rf(f);
    begin_op(self, 83);
    g.shm->res.n_close++;
    int64_t arg = 0;
    bool fail = fault_fire(F_CLOSE_FAIL, path_of(fd), &arg);
    int rc = rf(f);
    if (rc != 0 && !fail) {
        fail = true;
        arg = errno;
    }
    do_close_log(fd, fail, (int)arg);
    end_op();
    if (fail) {
        errno = (int)arg;
        return EOF;
    }
    return 0;
}
int close(int fd)
{
    if (!tracked_fd(fd))
        return (int)ret(raw6(SYS_close, fd, 0, 0, 0, 0, 0));
    begin_op(self, 83);
    g.shm->res.n_close++;
    int64_t arg = 0;
    bool fail = fault_fire(F_CLOSE_FAIL, path_of(fd), &arg);
    raw6(SYS_close, fd, 0, 0, 0, 0, 0);
    do_close_log(fd, fail, (int)arg);
    end_op();
    if (fail) {
        errno = (int)arg;
        return -1;
    }
    return 0;
}
ssize_t read(int fd, void *b, size_t n)
{
    if (!tracked_fd(fd))
        return ret(raw6(SYS_read, fd, (long)b, (long)n, 0, 0, 0));
    return do_read(fd, b, n, nullptr, 0);
}
ssize_t __read_chk(int fd, void *b, size_t n, size_t)
{
    return read(fd, b, n);
}
ssize_t write(int fd, const void *b, size_t n)
{
    if (!tracked_fd(fd))
        return ret(raw6(SYS_write, fd, (long)b, (long)n, 0, 0, 0));
    struct iovec v = {const_cast<void *>(b), n};
    return do_writev(fd, &v, 1);
}
ssize_t writev(int fd, const struct iovec *v, int cnt)
{
    if (!tracked_fd(fd))
        return ret(raw6(SYS_writev, fd, (long)v, cnt, 0, 0, 0));
    return do_writev(fd, v, cnt);
}
static int do_sync(int fd, long nr)
{
    if (!tracked_fd(fd))
        return (int)ret(raw6(nr, fd, 0, 0, 0, 0, 0));
    begin_op(self, 84);
    int64_t arg = 0;
    bool fail = fault_fire(F_FSYNC_FAIL, path_of(fd), &arg);
    log_op('s', fd_path[fd] - 1, -1, fail ? -arg : 0, 0, 0);
    end_op();
    if (fail) {
        errno = (int)arg;
        return -1;
    }
    return 0;
}
int fsync(int fd)
{
    return do_sync(fd, SYS_fsync);
}
int fdatasync(int fd)
{
    return do_sync(fd, SYS_fdatasync);
}
int rename(const char *a, const char *b) noexcept
{
    Thr *t = self;
    if (!t || !g.active)
        return (int)ret(raw6(SYS_rename, (long)a, (long)b, 0, 0, 0, 0));
    begin_op(t, 85);
    int64_t arg = 0;
    long r = fault_fire(F_RENAME_FAIL, b, &arg) ? -arg : raw6(SYS_rename, (long)a, (long)b, 0, 0, 0, 0);
    if (!g.shm->res.marked && !strcmp(b, g.shm->req.report_path))
        site_mark();
    log_op('n', path_index(a), path_index(b), r, 0, 0);
    end_op();
    return (int)ret(r);
}
static int do_unlink(const char *a)
{
    Thr *t = self;
    if (!t || !g.active)
        return (int)ret(raw6(SYS_unlink, (long)a, 0, 0, 0, 0, 0));
    begin_op(t, 86);
    long r = raw6(SYS_unlink, (long)a, 0, 0, 0, 0, 0);
    log_op('u', path_index(a), -1, r, 0, 0);
    end_op();
    return (int)ret(r);
}
int unlink(const char *a) noexcept
{
    return do_unlink(a);
}
int remove(const char *a) noexcept
{
    return do_unlink(a);
}
}
