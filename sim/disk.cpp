// Disk seam: the C library's file calls of the code under test go through here.
// Backing storage is a real file in a private scratch directory; faults are injected in between.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "core.h"
#include "internal.h"
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

namespace sim {
Disk disk;
std::string scratch_dir;
const std::string& scratch() { return scratch_dir; }
std::string scratch_file(const char* name) { return scratch_dir + name; }

enum { MAXFD = 1024 };
struct Fd { bool tracked; bool append; char path[200]; };
static Fd fds[MAXFD];
struct Cookie { int fd; FILE* f; };
static Cookie cookies[MAXFD];

static int n_open, n_close, n_seek;
static int64_t w_total, r_total;
static bool w_err_done, r_err_done;
static int eintr_run;
static Rng io_rng(1);

void Disk::set(const IoPlan& p)
{
    plan = p;
    opens = closes = reads = writes = seeks = bytes_written = bytes_read = 0;
    hard_fault = false; faulted.clear();
    n_open = n_close = n_seek = 0; w_total = r_total = 0; w_err_done = r_err_done = false; eintr_run = 0;
    io_rng = Rng(p.seed);
}
void Disk::reset() { set(IoPlan()); journal.clear(); journal_on = false; on_io = nullptr; }
void disk_child_init() { memset(fds, 0, sizeof fds); memset(cookies, 0, sizeof cookies); disk.reset(); }

static bool mine(const char* path) { return sut_depth > 0 && !scratch_dir.empty() && path && !strncmp(path, scratch_dir.c_str(), scratch_dir.size()); }
static const char* shortname(const char* path) { const char* s = strrchr(path, '/'); return s ? s + 1 : path; }
static void hard(const char* path) { disk.hard_fault = true; disk.faulted[path]++; }
static void io_hook() { if (disk.on_io) { Quiet q; disk.on_io(); } }

static int do_open(const char* path, int flags, int mode)
{
    io_hook();
    Quiet q;
    n_open++;
    if (disk.plan.open_fail == n_open) {
        fired(F_OPEN); hard(path); log("  [open %s: errno %d]", shortname(path), disk.plan.open_errno);
        errno = disk.plan.open_errno; return -1;
    }
    int fd = (int)syscall(SYS_openat, AT_FDCWD, path, flags, mode);
    if (fd < 0) return fd;
    disk.opens++;
    if (fd < MAXFD) { fds[fd].tracked = true; fds[fd].append = flags & O_APPEND; snprintf(fds[fd].path, sizeof fds[fd].path, "%s", path); }
    if (disk.journal_on && (flags & (O_TRUNC | O_CREAT)) && (flags & O_ACCMODE) != O_RDONLY) {
        if (flags & O_TRUNC) disk.journal.push_back({ 'T', path, "", 0, "" });
        else disk.journal.push_back({ 'A', path, "", 0, "" });
    }
    return fd;
}
static bool tracked(int fd) { return fd >= 0 && fd < MAXFD && fds[fd].tracked; }

static ssize_t raw_write(int fd, const char* p, size_t n)
{
    int64_t off = syscall(SYS_lseek, fd, 0, SEEK_CUR);
    if (fds[fd].append) off = syscall(SYS_lseek, fd, 0, SEEK_END);
    ssize_t r = syscall(SYS_write, fd, p, n);
    if (r > 0) {
        w_total += r; disk.bytes_written += r;
        if (disk.journal_on) disk.journal.push_back({ 'W', fds[fd].path, "", off, std::string(p, r) });
    }
    return r;
}
static ssize_t do_write(int fd, const void* buf, size_t n)
{
    io_hook();
    Quiet q;
    IoPlan& p = disk.plan;
    disk.writes++;
    if (p.eintr_w && eintr_run < 3 && io_rng.below(4) == 0) { eintr_run++; fired(F_EINTRW); errno = EINTR; return -1; }
    eintr_run = 0;
    size_t m = n;
    if (p.short_w && m > 1 && io_rng.below(2)) { size_t c = p.maxchunk ? p.maxchunk : m; if (c > m) c = m; m = 1 + io_rng.below(c); if (m < n) fired(F_SHORTW); }
    if (p.werr_byte >= 0 && (p.werr_persistent || !w_err_done) && w_total + (int64_t)m > p.werr_byte) {
        int64_t room = p.werr_byte - w_total;
        if (room <= 0) {
            w_err_done = true; hard(fds[fd].path); fired(p.werr_errno == ENOSPC ? F_ENOSPC : F_EIOW);
            log("  [write %zu bytes to %s at %lld: errno %d]", n, shortname(fds[fd].path), (long long)w_total, p.werr_errno);
            errno = p.werr_errno; return -1;
        }
        m = (size_t)room;
    }
    return raw_write(fd, (const char*)buf, m);
}
static ssize_t do_read(int fd, void* buf, size_t n)
{
    io_hook();
    Quiet q;
    IoPlan& p = disk.plan;
    disk.reads++;
    if (p.eintr_r && eintr_run < 3 && io_rng.below(4) == 0) { eintr_run++; fired(F_EINTRR); errno = EINTR; return -1; }
    eintr_run = 0;
    size_t m = n;
    if (p.short_r && m > 1 && io_rng.below(2)) { size_t c = p.maxchunk ? p.maxchunk : m; if (c > m) c = m; m = 1 + io_rng.below(c); }
    // positions are file offsets here: loaders may seek
    int64_t off = syscall(SYS_lseek, fd, 0, SEEK_CUR);
    if (p.reof_byte >= 0 && off + (int64_t)m > p.reof_byte) {
        int64_t room = p.reof_byte - off;
        if (room <= 0) {
            struct stat st; if (fstat(fd, &st) == 0 && off < st.st_size) { hard(fds[fd].path); fired(F_EOFR); log("  [read %s at %lld: early end of file]", shortname(fds[fd].path), (long long)off); }
            return 0;
        }
        m = (size_t)room;
    }
    if (p.rerr_byte >= 0 && (p.rerr_persistent || !r_err_done) && off + (int64_t)m > p.rerr_byte) {
        int64_t room = p.rerr_byte - off;
        if (room <= 0) {
            r_err_done = true; hard(fds[fd].path); fired(F_EIOR);
            log("  [read %s at %lld: errno %d]", shortname(fds[fd].path), (long long)off, p.rerr_errno);
            errno = p.rerr_errno; return -1;
        }
        m = (size_t)room;
    }
    ssize_t r = syscall(SYS_read, fd, buf, m);
    if (r > 0) { r_total += r; disk.bytes_read += r; if ((size_t)r == m && m < n) fired(F_SHORTR); }
    return r;
}
static int64_t do_seek(int fd, int64_t off, int wh)
{
    io_hook();
    Quiet q;
    disk.seeks++; n_seek++;
    // a position query costs no disk access, only real movements can fail
    if (disk.plan.seek_fail && disk.plan.seek_fail == n_seek) {
        fired(F_SEEK); hard(fds[fd].path); log("  [seek in %s fails]", shortname(fds[fd].path)); errno = EIO; return -1;
    }
    return syscall(SYS_lseek, fd, off, wh);
}
static int do_close(int fd)
{
    io_hook();
    Quiet q;
    disk.closes++; n_close++;
    bool f = disk.plan.close_fail == n_close;
    if (f) {
        fired(F_CLOSE); hard(fds[fd].path); log("  [close %s: fails, %u bytes of the tail lost]", shortname(fds[fd].path), disk.plan.close_lose);
        struct stat st;
        int acc = fcntl(fd, F_GETFL) & O_ACCMODE;
        if (acc != O_RDONLY && disk.plan.close_lose && fstat(fd, &st) == 0) {
            int64_t sz = st.st_size > (int64_t)disk.plan.close_lose ? st.st_size - disk.plan.close_lose : 0;
            if (ftruncate(fd, sz)) {}
            if (disk.journal_on) disk.journal.push_back({ 'Z', fds[fd].path, "", sz, "" });
        }
    }
    fds[fd].tracked = false;
    syscall(SYS_close, fd);
    if (f) { errno = EIO; return -1; }
    return 0;
}

// ---------------------------------------------------------------- harness side
void put_file(const std::string& path, const std::string& b)
{
    int fd = (int)syscall(SYS_openat, AT_FDCWD, path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    size_t o = 0;
    while (fd >= 0 && o < b.size()) { ssize_t r = syscall(SYS_write, fd, b.data() + o, b.size() - o); if (r <= 0) break; o += r; }
    if (fd < 0 || o < b.size()) { fprintf(stderr, "harness: cannot write %s\n", path.c_str()); _exit(72); }
    syscall(SYS_close, fd);
}
bool get_file(const std::string& path, std::string& b)
{
    b.clear();
    int fd = (int)syscall(SYS_openat, AT_FDCWD, path.c_str(), O_RDONLY, 0);
    if (fd < 0) return false;
    int64_t sz = syscall(SYS_lseek, fd, 0, SEEK_END);
    syscall(SYS_lseek, fd, 0, SEEK_SET);
    if (sz > 0) { b.resize(sz); ssize_t r = syscall(SYS_read, fd, &b[0], sz); if (r < 0) r = 0; b.resize(r); }
    syscall(SYS_close, fd);
    return true;
}
void del_file(const std::string& path) { syscall(SYS_unlinkat, AT_FDCWD, path.c_str(), 0); }
int open_fds()
{
    int n = 0;
    for (int i = 0; i < MAXFD; i++) if (fcntl(i, F_GETFD) != -1) n++;
    return n;
}
Snapshot crash_image(const Snapshot& before, const std::vector<JournalOp>& j, size_t nops, size_t part)
{
    Snapshot s = before;
    auto apply_write = [&](const JournalOp& o, size_t n) {
        std::string& f = s[o.path];
        if (f.size() < (size_t)o.off + n) f.resize(o.off + n, '\0');
        memcpy(&f[o.off], o.data.data(), n);
    };
    for (size_t i = 0; i < nops && i < j.size(); i++) {
        const JournalOp& o = j[i];
        switch (o.kind) {
        case 'T': s[o.path] = ""; break;
        case 'A': s[o.path]; break;
        case 'W': apply_write(o, o.data.size()); break;
        case 'R': if (s.count(o.path)) { s[o.path2] = s[o.path]; s.erase(o.path); } break;
        case 'U': s.erase(o.path); break;
        case 'Z': s[o.path].resize(o.off); break;
        }
    }
    if (nops < j.size() && j[nops].kind == 'W' && part) apply_write(j[nops], part < j[nops].data.size() ? part : j[nops].data.size());
    return s;
}

// ---------------------------------------------------------------- FILE* on tracked files
static ssize_t ck_read(void* c, char* b, size_t n) { SutScope s; return do_read(((Cookie*)c)->fd, b, n); }
static ssize_t ck_write(void* c, const char* b, size_t n)
{
    SutScope s; size_t o = 0;
    while (o < n) { ssize_t r = do_write(((Cookie*)c)->fd, b + o, n - o); if (r < 0) { if (errno == EINTR) continue; return o ? (ssize_t)o : 0; } o += r; }
    return (ssize_t)o;
}
static int ck_seek(void* c, off64_t* off, int wh) { SutScope s; int64_t r = do_seek(((Cookie*)c)->fd, *off, wh); if (r < 0) return -1; *off = r; return 0; }
static int ck_close(void* c) { Cookie* k = (Cookie*)c; int fd = k->fd; k->f = nullptr; k->fd = -1; return tracked(fd) ? do_close(fd) : 0; }

static FILE* do_fopen(const char* path, const char* mode)
{
    int fl; bool plus = strchr(mode, '+');
    switch (mode[0]) {
    case 'r': fl = plus ? O_RDWR : O_RDONLY; break;
    case 'w': fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC; break;
    case 'a': fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND; break;
    default: errno = EINVAL; return nullptr;
    }
    if (strchr(mode, 'x')) fl |= O_EXCL;
    int fd = do_open(path, fl, 0666);
    if (fd < 0) return nullptr;
    Cookie* c = fd < MAXFD ? &cookies[fd] : nullptr;
    if (!c) { syscall(SYS_close, fd); errno = EMFILE; return nullptr; }
    c->fd = fd;
    cookie_io_functions_t io = { ck_read, ck_write, ck_seek, ck_close };
    Quiet q;
    c->f = fopencookie(c, mode, io);
    if (!c->f) { fds[fd].tracked = false; syscall(SYS_close, fd); }
    return c->f;
}
static Cookie* cookie_of(FILE* f)
{
    if (!f) return nullptr;
    for (int i = 0; i < MAXFD; i++) if (cookies[i].f == f) return &cookies[i];
    return nullptr;
}
template <class F> static F next(const char* n) { return (F)dlsym(RTLD_NEXT, n); }
} // namespace sim

using namespace sim;
extern "C" {
FILE* fopen(const char* p, const char* m)
{
    if (mine(p)) return do_fopen(p, m);
    static FILE* (*r)(const char*, const char*) = next<FILE* (*)(const char*, const char*)>("fopen");
    return r(p, m);
}
FILE* fopen64(const char* p, const char* m)
{
    if (mine(p)) return do_fopen(p, m);
    static FILE* (*r)(const char*, const char*) = next<FILE* (*)(const char*, const char*)>("fopen64");
    return r(p, m);
}
int fileno(FILE* f) noexcept
{
    if (Cookie* c = cookie_of(f)) return c->fd;
    static int (*r)(FILE*) = next<int (*)(FILE*)>("fileno");
    return r(f);
}
int open(const char* p, int fl, ...)
{
    int mode = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, fl); mode = va_arg(a, int); va_end(a); }
    if (mine(p)) return do_open(p, fl, mode);
    return (int)syscall(SYS_openat, AT_FDCWD, p, fl, mode);
}
int open64(const char* p, int fl, ...)
{
    int mode = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, fl); mode = va_arg(a, int); va_end(a); }
    if (mine(p)) return do_open(p, fl, mode);
    return (int)syscall(SYS_openat, AT_FDCWD, p, fl, mode);
}
int creat(const char* p, mode_t mode) { return open(p, O_WRONLY | O_CREAT | O_TRUNC, mode); }
int openat(int d, const char* p, int fl, ...)
{
    int mode = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, fl); mode = va_arg(a, int); va_end(a); }
    if (mine(p)) return do_open(p, fl, mode);
    return (int)syscall(SYS_openat, d, p, fl, mode);
}
ssize_t write(int fd, const void* b, size_t n) { return tracked(fd) ? do_write(fd, b, n) : (ssize_t)syscall(SYS_write, fd, b, n); }
ssize_t read(int fd, void* b, size_t n) { return tracked(fd) ? do_read(fd, b, n) : (ssize_t)syscall(SYS_read, fd, b, n); }
ssize_t writev(int fd, const struct iovec* v, int c)
{
    if (!tracked(fd)) return (ssize_t)syscall(SYS_writev, fd, v, c);
    size_t total = 0; for (int i = 0; i < c; i++) total += v[i].iov_len;
    char small[4096]; char* b = total <= sizeof small ? small : (char*)malloc(total);
    size_t o = 0; for (int i = 0; i < c; i++) { memcpy(b + o, v[i].iov_base, v[i].iov_len); o += v[i].iov_len; }
    ssize_t r = do_write(fd, b, total);
    int e = errno; if (b != small) free(b); errno = e;
    return r;
}
ssize_t readv(int fd, const struct iovec* v, int c)
{
    if (!tracked(fd)) return (ssize_t)syscall(SYS_readv, fd, v, c);
    for (int i = 0; i < c; i++) if (v[i].iov_len) return do_read(fd, v[i].iov_base, v[i].iov_len);
    return 0;
}
ssize_t pwrite(int fd, const void* b, size_t n, off_t o) { if (tracked(fd)) { syscall(SYS_lseek, fd, o, SEEK_SET); return do_write(fd, b, n); } return (ssize_t)syscall(SYS_pwrite64, fd, b, n, o); }
ssize_t pread(int fd, void* b, size_t n, off_t o) { if (tracked(fd)) { syscall(SYS_lseek, fd, o, SEEK_SET); return do_read(fd, b, n); } return (ssize_t)syscall(SYS_pread64, fd, b, n, o); }
off_t lseek(int fd, off_t o, int w) noexcept { return tracked(fd) ? do_seek(fd, o, w) : (off_t)syscall(SYS_lseek, fd, o, w); }
off64_t lseek64(int fd, off64_t o, int w) noexcept { return tracked(fd) ? do_seek(fd, o, w) : (off64_t)syscall(SYS_lseek, fd, o, w); }
int close(int fd)
{
    return tracked(fd) ? do_close(fd) : (int)syscall(SYS_close, fd);
}
int rename(const char* a, const char* b) noexcept
{
    int r = (int)syscall(SYS_renameat, AT_FDCWD, a, AT_FDCWD, b);
    if (r == 0 && mine(b) && disk.journal_on) { Quiet q; disk.journal.push_back({ 'R', a, b, 0, "" }); }
    return r;
}
int unlink(const char* a) noexcept
{
    bool m = mine(a);
    int r = (int)syscall(SYS_unlinkat, AT_FDCWD, a, 0);
    if (r == 0 && m && disk.journal_on) { Quiet q; disk.journal.push_back({ 'U', a, "", 0, "" }); }
    return r;
}
int remove(const char* a) noexcept { return unlink(a); }
int ftruncate(int fd, off_t n) noexcept
{
    int r = (int)syscall(SYS_ftruncate, fd, n);
    if (r == 0 && tracked(fd) && sut_depth > 0 && disk.journal_on) { Quiet q; disk.journal.push_back({ 'Z', fds[fd].path, "", n, "" }); }
    return r;
}
int fsync(int fd) { if (tracked(fd)) { io_hook(); return 0; } return (int)syscall(SYS_fsync, fd); }
int fdatasync(int fd) { if (tracked(fd)) { io_hook(); return 0; } return (int)syscall(SYS_fdatasync, fd); }
}
