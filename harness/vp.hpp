// Common runtime of the exhaustive harnesses: deterministic case numbering, sharding, replay of a single
// case, crash/hang capture, counters for the evidence file.
#pragma once
#include <array>
#include <atomic>
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>
#include <fcntl.h>
#include <sys/time.h>
#include <unistd.h>

namespace vp {

struct Stop {};  // thrown to leave the current case after a violation

inline std::string jesc(const std::string& s) {
    std::string r;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += static_cast<char>(c); }
        else if (c < 32 || c > 126) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += static_cast<char>(c);
    }
    return r;
}

inline uint64_t fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ULL) {
    const auto* b = static_cast<const unsigned char*>(p);
    for (size_t i = 0; i < n; ++i) { h ^= b[i]; h *= 1099511628211ULL; }
    return h;
}
inline uint64_t fnv(const std::string& s, uint64_t h = 1469598103934665603ULL) { return fnv(s.data(), s.size(), h); }

struct Violation { long long index; std::string desc, msg, key; };

class Run {
public:
    std::string prop, tier = "quick", out;
    long long shard = 0, nshards = 1, only = -1;
    long long idx = -1;                   // index of the current case
    long long cases = 0;                  // cases this shard ran
    long long states = 0, transitions = 0, traces = 0;
    bool capped = false;
    std::map<std::string, long long> counters;
    std::unordered_set<uint64_t> distinct;
    std::vector<std::string> samples;
    std::vector<Violation> violations;
    std::vector<std::string> args;
    int cpu_limit_s = 120;
    bool thorough() const { return tier == "thorough"; }

    static Run& I() { static Run r; return r; }

    void init(int argc, char** argv) {
        for (int i = 1; i < argc; ++i) {
            std::string a = argv[i];
            auto val = [&] { return std::string(argv[++i]); };
            if (a == "--prop") prop = val();
            else if (a == "--tier") tier = val();
            else if (a == "--shard") shard = std::stoll(val());
            else if (a == "--nshards") nshards = std::stoll(val());
            else if (a == "--only") only = std::stoll(val());
            else if (a == "--out") out = val();
            else args.push_back(a);
        }
        for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGPROF}) {
            struct sigaction sa {};
            sa.sa_handler = &Run::OnSignal;
            sa.sa_flags = SA_NODEFER | SA_ONSTACK;
            sigaction(s, &sa, nullptr);
        }
        static char alt[65536];
        stack_t st{}; st.ss_sp = alt; st.ss_size = sizeof alt;
        sigaltstack(&st, nullptr);
    }

    // Advance to the next case of the enumeration; true if this process has to run it.
    bool take() {
        ++idx;
        if (only >= 0) return idx == only;
        if (violations.size() >= 40) { return false; }
        return idx % nshards == shard;
    }
    template <class F> void run(F describe, std::function<void()> body) {
        cur_desc = describe;
        if (only >= 0) { std::cerr << "CASE " << idx << ": " << cur_desc() << std::endl; }
        ++cases;
        arm(cpu_limit_s);
        try { body(); }
        catch (const Stop&) {}
        catch (const std::exception& e) { record(std::string("unexpected exception: ") + e.what(), "exception"); }
        catch (...) { record("unexpected exception of unknown type", "exception"); }
        arm(0);
        cur_desc = nullptr;
    }
    static void arm(int s) { itimerval t{}; t.it_value.tv_sec = s; setitimer(ITIMER_PROF, &t, nullptr); }

    void record(const std::string& msg, const std::string& key = "") {
        violations.push_back({idx, cur_desc ? cur_desc() : std::string("?"), msg, key});
        if (only >= 0) std::cerr << "FAIL " << msg << std::endl;
    }
    [[noreturn]] void fail(const std::string& msg, const std::string& key = "") { record(msg, key); throw Stop{}; }
    void nontrivial(uint64_t sig) { distinct.insert(sig); }
    void sample(const std::string& s) { if (samples.size() < 3) samples.push_back(s); }
    void count(const std::string& k, long long n = 1) { counters[k] += n; }

    int finish() {
        arm(0);
        std::ostringstream o;
        o << "{\"cases\":" << cases << ",\"enumerated\":" << (idx + 1) << ",\"states\":" << states << ",\"transitions\":" << transitions
          << ",\"traces\":" << traces << ",\"capped\":" << (capped ? "true" : "false") << ",\"counters\":{";
        bool f = true;
        for (auto& [k, v] : counters) { o << (f ? "" : ",") << '"' << jesc(k) << "\":" << v; f = false; }
        o << "},\"samples\":["; f = true;
        for (auto& s : samples) { o << (f ? "" : ",") << '"' << jesc(s) << '"'; f = false; }
        o << "],\"violations\":["; f = true;
        for (auto& v : violations) {
            o << (f ? "" : ",") << "{\"index\":" << v.index << ",\"desc\":\"" << jesc(v.desc) << "\",\"msg\":\"" << jesc(v.msg) << "\",\"key\":\"" << jesc(v.key) << "\"}";
            f = false;
        }
        o << "]}\n";
        if (!out.empty()) {
            FILE* fp = std::fopen(out.c_str(), "w");
            if (!fp) return 2;
            std::fputs(o.str().c_str(), fp);
            if (std::fclose(fp) != 0) return 2;
            fp = std::fopen((out + ".sig").c_str(), "wb");
            if (!fp) return 2;
            for (auto h : distinct) std::fwrite(&h, sizeof h, 1, fp);
            if (std::fclose(fp) != 0) return 2;
        } else std::cout << o.str();
        return 0;
    }
    std::function<std::string()> cur_desc;

private:
    static void OnSignal(int s) {
        // async-signal-safe: leave the case number behind; the driver re-runs that case alone.
        auto& r = I();
        char b[128];
        int n = std::snprintf(b, sizeof b, "%lld %d\n", r.idx, s);
        std::string* o = &r.out;
        if (!o->empty()) {
            char path[4096];
            std::snprintf(path, sizeof path, "%s.crash", o->c_str());
            int fd = ::open(path, O_WRONLY | O_CREAT | O_TRUNC, 0644);
            if (fd >= 0) { if (::write(fd, b, static_cast<size_t>(n)) < 0) {} ::close(fd); }
        }
        ::_exit(s == SIGPROF ? 98 : 97);
    }
};

inline Run& R() { return Run::I(); }

// Message builder
template <class... A> std::string cat(const A&... a) {
    std::ostringstream o; o.precision(17);
    (o << ... << a);
    return o.str();
}
template <class T, size_t N> std::string str(const std::array<T, N>& a) {
    std::ostringstream o; o.precision(17); o << '(';
    for (size_t i = 0; i < N; ++i) o << (i ? "," : "") << a[i];
    o << ')';
    return o.str();
}
#define VP_CHECK(cond, ...) do { if (!(cond)) ::vp::R().fail(::vp::cat(__VA_ARGS__)); } while (0)

inline bool close(double a, double b, double tol) { return std::abs(a - b) <= tol; }  // false for NaN

} // namespace vp
