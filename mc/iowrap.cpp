// Interposed file I/O of the module (linked with -Wl,--wrap): records every call and makes the n-th one fail.
#include <cerrno>
#include <cstdarg>
#include <cstdint>
#include <cstring>
#include <fcntl.h>
#include <mutex>
#include <string>
#include <sys/stat.h>
#include <sys/types.h>
#include <unistd.h>
#include <vector>

extern "C"
{
    int __real_open(const char *, int, ...);
    ssize_t __real_pread(int, void *, size_t, off_t);
    ssize_t __real_pwrite(int, const void *, size_t, off_t);
    int __real_close(int);
    int __real_ftruncate(int, off_t);
}

namespace
{
    struct Call
    {
        int kind; // 0 open 1 pread 2 pwrite 3 close 4 ftruncate
        int64_t off, len;
        std::string data;
        int flags;
    };
    std::mutex mtx;
    bool on = false;
    std::vector<Call> calls;
    int64_t failAt = -1; // index among the calls of failKind (-1: of any kind)
    int failKind = -1;
    int64_t failMode = -1; // -1: error; k >= 0: only k bytes are transferred; -2: half of it
    int64_t seen = 0;

    // returns 0 normal, 1 error, 2 short (len changed)
    int hit(int kind, size_t & len)
    {
        if (! on)
            return 0;
        if (failKind >= 0 && kind != failKind)
            return 0;
        if (seen++ != failAt)
            return 0;
        if (failMode == -1)
            return 1;
        size_t n = failMode == -2 ? len / 2 : (size_t)failMode;
        if (n < len)
        {
            len = n;
            return 2;
        }
        return 0;
    }
}

extern "C"
{
    __attribute__((visibility("default"))) void vf_io_start(int64_t at, int kind, int64_t mode)
    {
        std::lock_guard<std::mutex> g(mtx);
        calls.clear();
        seen = 0;
        failAt = at;
        failKind = kind;
        failMode = mode;
        on = true;
    }
    __attribute__((visibility("default"))) int64_t vf_io_stop()
    {
        std::lock_guard<std::mutex> g(mtx);
        on = false;
        return (int64_t)calls.size();
    }
    __attribute__((visibility("default"))) void vf_io_get(int64_t i, int64_t * out, const char ** data)
    {
        Call & c = calls[i];
        out[0] = c.kind;
        out[1] = c.off;
        out[2] = c.len;
        out[3] = (int64_t)c.data.size();
        out[4] = c.flags;
        *data = c.data.data();
    }

    int __wrap_open(const char * path, int flags, ...)
    {
        va_list ap;
        va_start(ap, flags);
        int mode = va_arg(ap, int);
        va_end(ap);
        std::lock_guard<std::mutex> g(mtx);
        size_t n = 1;
        if (on)
            calls.push_back({ 0, 0, 0, "", flags });
        if (hit(0, n))
        {
            errno = EIO;
            return -1;
        }
        return __real_open(path, flags, mode);
    }
    ssize_t __wrap_pread(int fd, void * buf, size_t len, off_t off)
    {
        std::lock_guard<std::mutex> g(mtx);
        if (on)
            calls.push_back({ 1, off, (int64_t)len, "", 0 });
        if (hit(1, len) == 1)
        {
            errno = EIO;
            return -1;
        }
        return __real_pread(fd, buf, len, off);
    }
    ssize_t __wrap_pwrite(int fd, const void * buf, size_t len, off_t off)
    {
        std::lock_guard<std::mutex> g(mtx);
        if (on)
            calls.push_back({ 2, off, (int64_t)len, std::string((const char *)buf, len), 0 });
        if (hit(2, len) == 1)
        {
            errno = ENOSPC;
            return -1;
        }
        return __real_pwrite(fd, buf, len, off);
    }
    int __wrap_close(int fd)
    {
        std::lock_guard<std::mutex> g(mtx);
        if (on)
            calls.push_back({ 3, 0, 0, "", 0 });
        return __real_close(fd);
    }
    int __wrap_ftruncate(int fd, off_t n)
    {
        std::lock_guard<std::mutex> g(mtx);
        if (on)
            calls.push_back({ 4, n, 0, "", 0 });
        return __real_ftruncate(fd, n);
    }
}
