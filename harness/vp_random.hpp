// Force-included into the library and the harnesses: replaces the answers of std::uniform_real_distribution by answers the
// harness chooses (default: a fixed generic sequence), so that every value the code may draw can be explored.
#pragma once
#ifdef __cplusplus
#include <cstdint>
#include <random>
namespace vp_rnd {
// called with the bounds of the distribution; returns the fraction in [0,1)
inline double (*source)() = nullptr;
inline thread_local uint64_t state = 88172645463325252ULL;
inline long long draws = 0;
inline double fraction() {
    ++draws;
    if (source) return source();
    state ^= state << 13; state ^= state >> 7; state ^= state << 17;
    return static_cast<double>(state >> 11) * 0x1p-53;
}
}
namespace std {
template <class R = double> class vp_uniform_real_distribution {
    R mA, mB;
public:
    using result_type = R;
    explicit vp_uniform_real_distribution(R a = R(0), R b = R(1)) : mA(a), mB(b) {}
    template <class G> R operator()(G&) { return static_cast<R>(mA + vp_rnd::fraction() * (mB - mA)); }
    R a() const { return mA; }
    R b() const { return mB; }
    R min() const { return mA; }
    R max() const { return mB; }
    void reset() {}
};
}
#define uniform_real_distribution vp_uniform_real_distribution
#endif
