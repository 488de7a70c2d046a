// File faults for paths under one prefix: everything else goes straight to the kernel.
#include "internal.h"
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

namespace sim::in {
namespace {
char prefix[256];
bool watched_fd[1024];
bool watched(char const* p) { return prefix[0] && p && !strncmp(p, prefix, strlen(prefix)); }
bool wfd(int fd) { return active && self && !self_nop() && fd >= 0 && fd < 1024 && watched_fd[fd]; }
bool live() { return active && self && !self_nop(); }
int const open_errs[] = {EMFILE, EACCES, EIO, ENOENT};
char scratch[256];
}
char const* scratch_base() { return scratch; }
} // namespace sim::in
using namespace sim;
using namespace sim::in;
namespace sim {
void io_faults_prefix(std::string const& p) { snprintf(prefix, sizeof prefix, "%s", p.c_str()); }
std::string scratch_dir() {
    if (!scratch[0]) {
        char const* b = res->scratch;
        snprintf(scratch, sizeof scratch, "%s", b);
        mkdir(b, 0700);
        res->scratch_used = 1;
    }
    return scratch;
}
}
extern "C" {
static int raw_open(char const* p, int fl, int mode) { return static_cast<int>(syscall(SYS_openat, AT_FDCWD, p, fl, mode)); }
static int sim_open(char const* p, int fl, int mode) {
    bool w = live() && watched(p);
    if (w) {
        yield_sync();
        if (int v = fault_n(f_io_open, 0.1, 4)) { errno = open_errs[v - 1]; return -1; }
        if ((fl & (O_WRONLY | O_RDWR)) && fault(f_io_full, 0.05)) { errno = ENOSPC; return -1; }
    }
    int fd = raw_open(p, fl, mode);
    if (fd >= 0 && fd < 1024) watched_fd[fd] = w;
    return fd;
}
int open(char const* p, int fl, ...) { va_list a; va_start(a, fl); int m = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(a, int) : 0; va_end(a); return sim_open(p, fl, m); }
int open64(char const* p, int fl, ...) { va_list a; va_start(a, fl); int m = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(a, int) : 0; va_end(a); return sim_open(p, fl, m); }
static FILE* sim_fopen(char const* p, char const* mode, char const* name) {
    static FILE* (*f)(char const*, char const*) = nullptr;
    if (!f) f = reinterpret_cast<decltype(f)>(dlsym(RTLD_NEXT, name));
    bool w = live() && watched(p);
    if (w) {
        yield_sync();
        if (int v = fault_n(f_io_open, 0.1, 4)) { errno = open_errs[v - 1]; return nullptr; }
        if (mode[0] != 'r' && fault(f_io_full, 0.05)) { errno = ENOSPC; return nullptr; }
    }
    FILE* r = f(p, mode);
    if (r) { int fd = fileno(r); if (fd >= 0 && fd < 1024) watched_fd[fd] = w; }
    return r;
}
FILE* fopen(char const* p, char const* mode) { return sim_fopen(p, mode, "fopen"); }
FILE* fopen64(char const* p, char const* mode) { return sim_fopen(p, mode, "fopen64"); }
ssize_t read(int fd, void* b, size_t n) {
    if (wfd(fd)) {
        yield_sync();
        if (fault(f_io_eintr, 0.1)) { errno = EINTR; return -1; }
        if (fault(f_io_error, 0.05)) { errno = EIO; return -1; }
        if (n > 1 && fault(f_io_short, 0.2)) n = 1 + (n * 7 / 13) % (n - 1);
    }
    return syscall(SYS_read, fd, b, n);
}
static ssize_t wr(int fd, void const* b, size_t n) {
    if (wfd(fd)) {
        yield_sync();
        if (fault(f_io_eintr, 0.1)) { errno = EINTR; return -1; }
        if (fault(f_io_full, 0.05)) { errno = ENOSPC; return -1; }
        if (fault(f_io_error, 0.05)) { errno = EIO; return -1; }
        if (n > 1 && fault(f_io_short, 0.2)) n = 1 + (n * 7 / 13) % (n - 1);
    }
    return syscall(SYS_write, fd, b, n);
}
ssize_t write(int fd, void const* b, size_t n) { return wr(fd, b, n); }
ssize_t writev(int fd, iovec const* v, int c) {
    if (!wfd(fd)) return syscall(SYS_writev, fd, v, c);
    for (int i = 0; i < c; ++i) if (v[i].iov_len) return wr(fd, v[i].iov_base, v[i].iov_len);
    return 0;
}
off_t lseek(int fd, off_t o, int wh) noexcept {
    if (wfd(fd) && fault(f_io_error, 0.02)) { errno = EIO; return -1; }
    return syscall(SYS_lseek, fd, o, wh);
}
off64_t lseek64(int fd, off64_t o, int wh) noexcept {
    if (wfd(fd) && fault(f_io_error, 0.02)) { errno = EIO; return -1; }
    return syscall(SYS_lseek, fd, o, wh);
}
int close(int fd) { if (fd >= 0 && fd < 1024) watched_fd[fd] = false; return static_cast<int>(syscall(SYS_close, fd)); }
}
