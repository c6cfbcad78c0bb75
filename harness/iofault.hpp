// Fault injection for file reads and writes: libstdc++'s file streams call read/write/writev/fopen through the dynamic
// linker, so that definitions in the executable take precedence. Faults act only while `on` is set and only on
// descriptors opened below the scratch folder.
#pragma once
#include "vp.hpp"
#include <dlfcn.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <dirent.h>
#include <fstream>
namespace iof {
enum Kind { none, error_once, error_from, short_once, short_then_error, interrupted, capacity };
struct State {
    bool on = false, hit = false;
    long writes = 0, reads = 0, opens = 0; unsigned long long bytes = 0;
    Kind kind = none; long at = -1; int err = 0; unsigned long long cap = 0;
    long at2 = -1; int err2 = 0;                      // second, one-shot fault
    long openAt = -1; int openErr = 0;
    long readAt = -1; int readErr = 0; long readMax = 0; // reads return at most readMax bytes
    bool fds[4096] = {};
} S;
inline std::string root;
inline bool mine(int fd) { return S.on && fd >= 0 && fd < 4096 && S.fds[fd]; }
template <class F> F real(const char* n) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, n)); }
inline FILE* opened(const char* p, const char* m, FILE* (*f)(const char*, const char*)) {
    if (S.on && !root.empty() && std::strncmp(p, root.c_str(), root.size()) == 0) {
        if (S.opens++ == S.openAt) { S.hit = true; errno = S.openErr; return nullptr; }
        FILE* r = f(p, m);
        if (r) { int fd = fileno(r); if (fd < 4096) S.fds[fd] = true; }
        return r;
    }
    return f(p, m);
}
// how many of n bytes may be written now; -1 = fail with errno
inline long long allow(unsigned long long n) {
    const long k = S.writes++;
    if (k == S.at2) { S.hit = true; errno = S.err2; return -1; }
    switch (S.kind) {
    case error_once: if (k == S.at) { S.hit = true; errno = S.err; return -1; } break;
    case error_from: if (k >= S.at) { S.hit = true; errno = S.err; return -1; } break;
    case interrupted: if (k == S.at) { S.hit = true; errno = EINTR; return -1; } break;
    case short_once: if (k == S.at) { S.hit = true; return (long long)(n > 1 ? n / 2 : n); } break;
    case short_then_error: if (k == S.at) { S.hit = true; if (n > 1) return (long long)(n / 2); errno = S.err; return -1; } if (k > S.at) { errno = S.err; return -1; } break;
    case capacity: {
        if (S.bytes >= S.cap) { if (n) { S.hit = true; errno = S.err; return -1; } return 0; }
        unsigned long long q = std::min(n, S.cap - S.bytes); if (q < n) S.hit = true; return (long long)q; }
    default: break;
    }
    return (long long)n;
}
inline void arm() { auto& s = S; s = State{}; }
struct Guard { Guard() { S.on = true; } ~Guard() { S.on = false; } };

// scratch folder, removed at the end
struct Scratch {
    std::string dir;
    Scratch() {
        struct stat st{};
        std::string base = ::stat("/dev/shm", &st) == 0 && ::access("/dev/shm", W_OK) == 0 ? "/dev/shm" : "/tmp";
        std::string t = base + "/vpio.XXXXXX"; if (!::mkdtemp(t.data())) { std::perror("mkdtemp"); std::exit(2); } dir = t; root = dir + "/";
    }
    ~Scratch() { clear(dir); ::rmdir(dir.c_str()); }
    static void clear(const std::string& d) {
        if (d.find("/vpio.") == std::string::npos) return;
        DIR* p = ::opendir(d.c_str()); if (!p) return;
        while (auto* e = ::readdir(p)) {
            std::string n = e->d_name; if (n == "." || n == "..") continue;
            std::string f = d + "/" + n; struct stat st{};
            if (::lstat(f.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) { clear(f); ::rmdir(f.c_str()); } else ::unlink(f.c_str());
        }
        ::closedir(p);
    }
    std::string operator()(const std::string& n) const { return dir + "/" + n; }
};
inline std::string slurp(const std::string& p) { std::ifstream f(p, std::ios::binary); std::ostringstream o; o << f.rdbuf(); return o.str(); }
inline bool exists(const std::string& p) { struct stat st{}; return ::stat(p.c_str(), &st) == 0; }
inline void spit(const std::string& p, const std::string& c) {
    int fd = ::open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    size_t o = 0; while (o < c.size()) { auto k = ::write(fd, c.data() + o, c.size() - o); if (k <= 0) { std::perror("spit"); std::_Exit(2); } o += (size_t)k; }
    ::close(fd);
}
} // namespace iof

extern "C" {
inline ssize_t vp_real_write(int fd, const void* b, size_t n) { static auto f = iof::real<ssize_t (*)(int, const void*, size_t)>("write"); return f(fd, b, n); }
__attribute__((visibility("default"))) ssize_t write(int fd, const void* b, size_t n) {
    if (!iof::mine(fd)) return vp_real_write(fd, b, n);
    long long a = iof::allow(n);
    if (a < 0) return -1;
    auto r = vp_real_write(fd, b, (size_t)a); if (r > 0) iof::S.bytes += (unsigned long long)r; return r;
}
__attribute__((visibility("default"))) ssize_t writev(int fd, const iovec* v, int n) {
    static auto f = iof::real<ssize_t (*)(int, const iovec*, int)>("writev");
    if (!iof::mine(fd)) return f(fd, v, n);
    unsigned long long tot = 0; for (int i = 0; i < n; ++i) tot += v[i].iov_len;
    long long a = iof::allow(tot);
    if (a < 0) return -1;
    long long done = 0;
    for (int i = 0; i < n && done < a; ++i) { size_t q = (size_t)std::min<long long>((long long)v[i].iov_len, a - done); auto r = vp_real_write(fd, v[i].iov_base, q); if (r < 0) return done ? done : -1; done += r; iof::S.bytes += (unsigned long long)r; }
    return done;
}
__attribute__((visibility("default"))) ssize_t read(int fd, void* b, size_t n) {
    static auto f = iof::real<ssize_t (*)(int, void*, size_t)>("read");
    if (!iof::mine(fd)) return f(fd, b, n);
    if (iof::S.reads++ == iof::S.readAt) { iof::S.hit = true; errno = iof::S.readErr; return -1; }
    if (iof::S.readMax && n > (size_t)iof::S.readMax) n = (size_t)iof::S.readMax;
    return f(fd, b, n);
}
__attribute__((visibility("default"))) FILE* fopen(const char* p, const char* m) { static auto f = iof::real<FILE* (*)(const char*, const char*)>("fopen"); return iof::opened(p, m, f); }
__attribute__((visibility("default"))) FILE* fopen64(const char* p, const char* m) { static auto f = iof::real<FILE* (*)(const char*, const char*)>("fopen64"); return iof::opened(p, m, f); }
}
