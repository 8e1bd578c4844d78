#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "faults.h"
#include "sim.h"
#include <new>
#include <cstdlib>
#include <cstdio>
#include <cstring>
#include <cerrno>
#include <cstdarg>
#include <dlfcn.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/uio.h>
#include <malloc.h>

namespace faults
{
    static __thread bool armed = false, persistent_ = false, only_new = false;
    static __thread uint64_t cnt = 0, nth_ = 0, failed = 0;
    void allocArm(uint64_t nth, bool persistent) { armed = true; only_new = false; cnt = 0; nth_ = nth; failed = 0; persistent_ = persistent; }
    void allocArmNew(uint64_t nth) { allocArm(nth); only_new = true; }
    uint64_t allocDisarm() { armed = false; return failed; }
    uint64_t allocCount() { return cnt; }
    static inline bool allocFails()
    {
        if (!armed) return false;
        ++cnt;
        if (nth_ && (cnt == nth_ || (persistent_ && cnt > nth_))) { ++failed; return true; }
        return false;
    }
    static Disk d; static DiskStats s;
    static uint64_t calls = 0, total_w = 0, total_r = 0;
    static bool tracked[1024];
    void (*io_point)() = NULL;
    void diskReset() { d = Disk(); memset(&s, 0, sizeof s); calls = total_w = total_r = 0; }
    Disk& disk() { return d; }
    DiskStats& diskStats() { return s; }
    static bool ours(const char* p) { const std::string& sc = sim::scratch(); return p && !sc.empty() && strncmp(p, sc.c_str(), sc.size()) == 0; }
    static bool openFails()
    {
        ++s.opens;
        if (io_point) io_point();
        if (d.open_fails && (d.open_fail_at == 0 || (uint64_t)d.open_fail_at == s.opens)) { ++s.failed_opens; errno = d.open_errno; return true; }
        return false;
    }
    static void track(int fd, bool on) { if (fd >= 0 && fd < 1024) tracked[fd] = on; }
    static bool isTracked(int fd) { return fd >= 0 && fd < 1024 && tracked[fd]; }
    // returns how many bytes may be written now, or -1 with errno
    static ssize_t writePolicy(size_t n)
    {
        if (io_point) io_point();
        ++s.writes; ++calls;
        if (d.eintr_every && calls % d.eintr_every == 0) { ++s.eintr; errno = EINTR; return -1; }
        size_t k = n;
        if (d.max_chunk && k > d.max_chunk) { k = d.max_chunk; ++s.short_writes; }
        if (d.capacity >= 0)
        {
            uint64_t left = total_w >= (uint64_t)d.capacity ? 0 : (uint64_t)d.capacity - total_w;
            if (left == 0 && k > 0) { ++s.failed_writes; if (d.then_recovers) d.capacity = -1; errno = d.error ? d.error : ENOSPC; return -1; }
            if (k > left) { k = left; ++s.short_writes; }
        }
        return k;
    }
}
using namespace faults;
#ifdef NO_WRAP_MALLOC
#define RAW_MALLOC malloc
#else
extern "C" void* __real_malloc(size_t);
#define RAW_MALLOC __real_malloc
#endif

static void* rawNew(std::size_t n)
{
    if (allocFails()) return NULL;
    return RAW_MALLOC(n ? n : 1);
}
void* operator new(std::size_t n) { void* p = rawNew(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](std::size_t n) { void* p = rawNew(n); if (!p) throw std::bad_alloc(); return p; }
// std::stable_sort and others ask for optional buffers in this way and do without when there is none, hence
// their failures are not errors which have to be reported
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return RAW_MALLOC(n ? n : 1); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return RAW_MALLOC(n ? n : 1); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, std::size_t) noexcept { free(p); }
void operator delete[](void* p, std::size_t) noexcept { free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { free(p); }

extern "C"
{
    // --wrap: calls of the header-only code compiled into the harness objects
#ifndef NO_WRAP_MALLOC
    void* __real_realloc(void*, size_t); void* __real_calloc(size_t, size_t);
    void* __wrap_malloc(size_t n) { if (!only_new && allocFails()) { errno = ENOMEM; return NULL; } return __real_malloc(n); }
    void* __wrap_realloc(void* p, size_t n) { if (!only_new && allocFails()) { errno = ENOMEM; return NULL; } return __real_realloc(p, n); }
    void* __wrap_calloc(size_t a, size_t b) { if (!only_new && allocFails()) { errno = ENOMEM; return NULL; } return __real_calloc(a, b); }
#endif

#define REAL(ret, name, args) typedef ret (*F_##name) args; static F_##name r_##name; if (!r_##name) r_##name = (F_##name)dlsym(RTLD_NEXT, #name)

    FILE* fopen(const char* p, const char* m)
    {
        REAL(FILE*, fopen, (const char*, const char*));
        bool o = ours(p);
        if (o && openFails()) return NULL;
        FILE* f = r_fopen(p, m);
        if (f && o) track(fileno(f), true);
        return f;
    }
    FILE* fopen64(const char* p, const char* m)
    {
        REAL(FILE*, fopen64, (const char*, const char*));
        bool o = ours(p);
        if (o && openFails()) return NULL;
        FILE* f = r_fopen64(p, m);
        if (f && o) track(fileno(f), true);
        return f;
    }
    int open(const char* p, int fl, ...)
    {
        REAL(int, open, (const char*, int, ...));
        va_list ap; va_start(ap, fl); mode_t m = va_arg(ap, int); va_end(ap);
        bool o = ours(p);
        if (o && openFails()) return -1;
        int fd = r_open(p, fl, m);
        if (o) track(fd, true);
        return fd;
    }
    int open64(const char* p, int fl, ...)
    {
        REAL(int, open64, (const char*, int, ...));
        va_list ap; va_start(ap, fl); mode_t m = va_arg(ap, int); va_end(ap);
        bool o = ours(p);
        if (o && openFails()) return -1;
        int fd = r_open64(p, fl, m);
        if (o) track(fd, true);
        return fd;
    }
    int fclose(FILE* f)
    {
        REAL(int, fclose, (FILE*));
        int fd = fileno(f);
        bool t = isTracked(fd);
        track(fd, false);
        if (t && io_point) io_point();
        int r = r_fclose(f);
        if (t && d.close_fails) { ++s.failed_writes; errno = EIO; return EOF; }
        return r;
    }
    int close(int fd)
    {
        REAL(int, close, (int));
        track(fd, false);
        return r_close(fd);
    }
    ssize_t write(int fd, const void* b, size_t n)
    {
        REAL(ssize_t, write, (int, const void*, size_t));
        if (!isTracked(fd)) return r_write(fd, b, n);
        ssize_t k = writePolicy(n);
        if (k < 0) return -1;
        ssize_t r = r_write(fd, b, k);
        if (r > 0) { total_w += r; s.bytes_written += r; }
        return r;
    }
    ssize_t writev(int fd, const struct iovec* v, int c)
    {
        REAL(ssize_t, writev, (int, const struct iovec*, int));
        if (!isTracked(fd)) return r_writev(fd, v, c);
        size_t n = 0;
        for (int i = 0; i < c; ++i) n += v[i].iov_len;
        ssize_t k = writePolicy(n);
        if (k < 0) return -1;
        REAL(ssize_t, write, (int, const void*, size_t));
        size_t left = k; ssize_t done = 0;
        for (int i = 0; i < c && left > 0; ++i)
        {
            size_t m = v[i].iov_len < left ? v[i].iov_len : left;
            ssize_t r = r_write(fd, v[i].iov_base, m);
            if (r < 0) return done ? done : r;
            done += r; left -= r; total_w += r; s.bytes_written += r;
        }
        return done;
    }
    ssize_t read(int fd, void* b, size_t n)
    {
        REAL(ssize_t, read, (int, void*, size_t));
        if (!isTracked(fd)) return r_read(fd, b, n);
        if (io_point) io_point();
        ++s.reads; ++calls;
        if (d.eintr_every && calls % d.eintr_every == 0) { ++s.eintr; errno = EINTR; return -1; }
        size_t k = n;
        if (d.max_read && k > d.max_read) { k = d.max_read; ++s.short_reads; }
        if (d.read_fail_at >= 0)
        {
            if (total_r >= (uint64_t)d.read_fail_at) { ++s.failed_reads; errno = EIO; return -1; }
            if (k > (uint64_t)d.read_fail_at - total_r) k = (uint64_t)d.read_fail_at - total_r;
        }
        ssize_t r = r_read(fd, b, k);
        if (r > 0) total_r += r;
        return r;
    }
}
