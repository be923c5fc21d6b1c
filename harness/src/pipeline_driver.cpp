// The command-line program of the library, with the possibility to end the process at the k-th
// operation that changes a file below a directory (crash points). No library code is replaced.
//   VP_CRASH_DIR   directory
//   VP_CRASH_AT    number of the operation, from 1 (absent: only count)
//   VP_CRASH_MODE  before | half | after   (half: only a part of the data is written)
//   VP_CRASH_COUNT file that receives the number of operations at a regular end
#include "main.cpp"

#include <atomic>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>

namespace {
std::atomic<long> ops{0};
long at() {
    static long v = getenv("VP_CRASH_AT") ? atol(getenv("VP_CRASH_AT")) : -1;
    return v;
}
const char *dir() {
    static const char *v = getenv("VP_CRASH_DIR");
    return v;
}
char mode() {
    static char v = getenv("VP_CRASH_MODE") ? getenv("VP_CRASH_MODE")[0] : 'b';
    return v;
}
bool below(const char *path) { return dir() && path && strncmp(path, dir(), strlen(dir())) == 0; }
bool below(int fd) {
    if (!dir() || fd < 3) {
        return false;
    }
    char link[64], path[4096];
    snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
    ssize_t n = readlink(link, path, sizeof path - 1);
    if (n <= 0) {
        return false;
    }
    path[n] = 0;
    return below(path);
}
[[noreturn]] void die() {
    kill(getpid(), SIGKILL);
    for (;;) {
        pause();
    }
}
struct Op {
    bool hit;
    explicit Op(bool relevant) : hit(relevant && ++ops == at()) {
        if (hit && mode() == 'b') {
            die();
        }
    }
    bool half() const { return hit && mode() == 'h'; }
    ~Op() {
        if (hit) {
            die();
        }
    }
};
template <typename F>
F next(const char *name) {
    return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}
struct Report {
    ~Report() {
        if (const char *p = getenv("VP_CRASH_COUNT")) {
            if (FILE *f = fopen(p, "w")) {
                fprintf(f, "%ld\n", ops.load());
                fclose(f);
            }
        }
    }
} report;
} // namespace

extern "C" {
ssize_t write(int fd, const void *buf, size_t n) {
    static auto f = next<ssize_t (*)(int, const void *, size_t)>("write");
    Op op(below(fd));
    return f(fd, buf, op.half() ? n / 2 : n);
}
ssize_t writev(int fd, const struct iovec *v, int n) {
    static auto f = next<ssize_t (*)(int, const struct iovec *, int)>("writev");
    Op op(below(fd));
    return f(fd, v, op.half() ? (n + 1) / 2 : n);
}
ssize_t pwrite(int fd, const void *buf, size_t n, off_t o) {
    static auto f = next<ssize_t (*)(int, const void *, size_t, off_t)>("pwrite");
    Op op(below(fd));
    return f(fd, buf, op.half() ? n / 2 : n, o);
}
ssize_t pwrite64(int fd, const void *buf, size_t n, off64_t o) {
    static auto f = next<ssize_t (*)(int, const void *, size_t, off64_t)>("pwrite64");
    Op op(below(fd));
    return f(fd, buf, op.half() ? n / 2 : n, o);
}
int ftruncate(int fd, off_t n) {
    static auto f = next<int (*)(int, off_t)>("ftruncate");
    Op op(below(fd));
    return f(fd, n);
}
int ftruncate64(int fd, off64_t n) {
    static auto f = next<int (*)(int, off64_t)>("ftruncate64");
    Op op(below(fd));
    return f(fd, n);
}
int unlink(const char *p) {
    static auto f = next<int (*)(const char *)>("unlink");
    Op op(below(p));
    return f(p);
}
int rename(const char *a, const char *b) {
    static auto f = next<int (*)(const char *, const char *)>("rename");
    Op op(below(b));
    return f(a, b);
}
int mkdir(const char *p, mode_t m) {
    static auto f = next<int (*)(const char *, mode_t)>("mkdir");
    Op op(below(p));
    return f(p, m);
}
int open(const char *p, int flags, ...) {
    static auto f = next<int (*)(const char *, int, ...)>("open");
    va_list ap;
    va_start(ap, flags);
    int m = va_arg(ap, int);
    va_end(ap);
    Op op((flags & (O_CREAT | O_TRUNC)) && below(p));
    return f(p, flags, m);
}
int open64(const char *p, int flags, ...) {
    static auto f = next<int (*)(const char *, int, ...)>("open64");
    va_list ap;
    va_start(ap, flags);
    int m = va_arg(ap, int);
    va_end(ap);
    Op op((flags & (O_CREAT | O_TRUNC)) && below(p));
    return f(p, flags, m);
}
FILE *fopen(const char *p, const char *how) {
    static auto f = next<FILE *(*)(const char *, const char *)>("fopen");
    Op op(strchr(how, 'w') && below(p));
    return f(p, how);
}
FILE *fopen64(const char *p, const char *how) {
    static auto f = next<FILE *(*)(const char *, const char *)>("fopen64");
    Op op(strchr(how, 'w') && below(p));
    return f(p, how);
}
}
