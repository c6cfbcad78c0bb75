// C09 (Gauss rules of full cells), C10 (one-dimensional generalized Gauss rules), C11 (their assembly on sets of cells).
#include "vp.hpp"
#include "settings.hpp"
#include "queso/containers/integration_point.hpp"
#include "queso/containers/boundary_integration_point.hpp"
#include "queso/embedding/element_builders.hpp"
#include "queso/quadrature/multiple_elements.hpp"
#include <omp.h>
using namespace vp;
using namespace queso;
using ld = long double;
using Grid = BackgroundGrid<IntegrationPoint, BoundaryIntegrationPoint>;
using FullBuilder = UntrimmedElementBuilder<IntegrationPoint, BoundaryIntegrationPoint>;
using F = Grid::ElementFilter;

static ld leg(int n, ld x) { ld a = 1, b = x; if (n == 0) return 1; for (int k = 2; k <= n; ++k) { ld c = ((2 * k - 1) * x * b - (k - 1) * a) / k; a = b; b = c; } return b; }

// ------------------------------------------------------------------------------------------------ C09
static void Full() {
    auto& r = R(); const bool th = r.thorough();
    struct B { PointType lo, hi; };
    std::vector<B> boxes = {{{0, 0, 0}, {1, 1, 1}}, {{-1, 2, 0.5}, {1, 2.25, 4}}, {{10, -7.5, 3}, {10.01, -7, 11}}, {{-300, 1e-3, -2}, {-50, 3e-3, -1.999}}};
    const IntegrationMethod ms[] = {IntegrationMethod::gauss, IntegrationMethod::gauss_reduced_1, IntegrationMethod::gauss_reduced_2};
    for (int mi = 0; mi < 3; ++mi) for (IndexType a = 1; a <= 8; ++a) for (IndexType b = 1; b <= 8; ++b) for (IndexType c = 1; c <= 8; ++c) for (size_t bi = 0; bi < boxes.size(); ++bi) {
        if (mi == 2 && std::min({a, b, c}) < 2) continue;
        if (!th && std::max({a, b, c}) > 4 && (a + 2 * b + 3 * c + bi) % 4) continue;
        if (!r.take()) continue;
        auto bx = boxes[bi];
        r.run([=] { return cat("full cell, order ", a, ",", b, ",", c, " method ", mi, " parametric box ", str(bx.lo), str(bx.hi)); }, [&] {
            Cfg cfg; cfg.p = {a, b, c}; cfg.method = ms[mi]; cfg.grid = bi & 1 ? GridType::hexahedral_fe_grid : GridType::b_spline_grid;
            auto set = MakeSettings(cfg);
            FullBuilder bl(*set);
            auto e = bl.Build(3, ElementBounds{{{5, 6, 7}, {8, 8, 8}}, {bx.lo, bx.hi}});
            VP_CHECK(e.has_value(), "no element");
            auto& pts = e->GetIntegrationPoints();
            size_t n[3]; size_t tot = 1; ld vol = 1;
            for (int d = 0; d < 3; ++d) { n[d] = cfg.p[d] + 1 - (size_t)mi; tot *= n[d]; vol *= (ld)bx.hi[d] - bx.lo[d]; }
            VP_CHECK(pts.size() == tot, pts.size(), " points instead of ", tot);
            // exact degrees per direction; every combination for small orders, one direction in full otherwise
            std::vector<std::array<int, 3>> fn;
            bool small = std::max({n[0], n[1], n[2]}) <= 4;
            for (int i = 0; i < 2 * (int)n[0]; ++i) for (int j = 0; j < 2 * (int)n[1]; ++j) for (int k = 0; k < 2 * (int)n[2]; ++k) {
                int ful = (i == 0 || i == 2 * (int)n[0] - 1 || i == 2) + (j == 0 || j == 2 * (int)n[1] - 1 || j == 2) + (k == 0 || k == 2 * (int)n[2] - 1 || k == 2);
                if (small || th || ful >= 2) fn.push_back({i, j, k});
            }
            std::vector<ld> sum(fn.size(), 0);
            for (auto& ip : pts) {
                VP_CHECK(ip.Weight() > 0, "weight ", ip.Weight());
                ld L[3][18];
                for (int d = 0; d < 3; ++d) {
                    VP_CHECK(ip[d] > bx.lo[d] && ip[d] < bx.hi[d], "point not strictly inside the cell in direction ", d, ": ", ip[d]);
                    ld x = (2 * (ld)ip[d] - bx.lo[d] - bx.hi[d]) / ((ld)bx.hi[d] - bx.lo[d]);
                    for (int k = 0; k < 2 * (int)n[d]; ++k) L[d][k] = leg(k, x);
                }
                for (size_t q = 0; q < fn.size(); ++q) sum[q] += ip.Weight() / vol * L[0][fn[q][0]] * L[1][fn[q][1]] * L[2][fn[q][2]];
            }
            // rounding of the coordinates relative to the box
            ld tol = 2e-13L;
            for (int d = 0; d < 3; ++d) tol = std::max(tol, 400 * 1.2e-16L * std::max(std::abs((ld)bx.lo[d]), std::abs((ld)bx.hi[d])) / ((ld)bx.hi[d] - bx.lo[d]));
            for (size_t q = 0; q < fn.size(); ++q) {
                ld want = fn[q][0] + fn[q][1] + fn[q][2] == 0;
                VP_CHECK(std::abs(sum[q] - want) < tol, "Legendre product (", fn[q][0], ",", fn[q][1], ",", fn[q][2], ") is integrated to ", (double)sum[q], " times the volume");
            }
            ++r.states; r.transitions += (long long)fn.size();
            r.sample(r.cur_desc());
            if (!(a == b && b == c)) r.nontrivial(fnv(r.cur_desc()));
        });
    }
}

// ------------------------------------------------------------------------------------------------ splines
// values of all B-splines of degree q with interior knots 1..e-1 of multiplicity m on [0,e], at x
struct Spline {
    int q, m, e; std::vector<ld> t;
    Spline(int q_, int cont, int e_) : q(q_), m(q_ - cont), e(e_) {
        for (int i = 0; i <= q; ++i) t.push_back(0);
        for (int k = 1; k < e; ++k) for (int i = 0; i < m; ++i) t.push_back(k);
        for (int i = 0; i <= q; ++i) t.push_back(e);
    }
    int dim() const { return (int)t.size() - q - 1; }
    ld integral(int i) const { return (t[(size_t)(i + q + 1)] - t[(size_t)i]) / (q + 1); }
    // non-zero functions at x: first index and q+1 values
    int eval(ld x, std::vector<ld>& N) const {
        int s = std::min((int)x, e - 1);
        int span = q + s * m;
        N.assign((size_t)q + 1, 0); N[0] = 1;
        std::vector<ld> l((size_t)q + 1), rr((size_t)q + 1);
        for (int j = 1; j <= q; ++j) {
            l[(size_t)j] = x - t[(size_t)(span + 1 - j)]; rr[(size_t)j] = t[(size_t)(span + j)] - x;
            ld saved = 0;
            for (int k = 0; k < j; ++k) { ld tmp = N[(size_t)k] / (rr[(size_t)k + 1] + l[(size_t)(j - k)]); N[(size_t)k] = saved + rr[(size_t)k + 1] * tmp; saved = l[(size_t)(j - k)] * tmp; }
            N[(size_t)j] = saved;
        }
        return span - q;
    }
};
static const IntegrationMethod GGQ[] = {IntegrationMethod::ggq_optimal, IntegrationMethod::ggq_reduced_1, IntegrationMethod::ggq_reduced_2};

static void Rules() {
    auto& r = R(); const int emax = r.thorough() ? 1500 : 400;
    for (int p = 2; p <= 4; ++p) for (int mi = 0; mi < 3; ++mi) for (int e = 1; e <= emax; ++e) {
        if (!r.take()) continue;
        r.run([=] { return cat("generalized Gauss rule p=", p, " method ", mi, " elements ", e); }, [&] {
            auto rule = IntegrationPointFactory1D::GetGGQ((size_t)p, (size_t)e, GGQ[mi]);
            Spline s(2 * p - mi, p - 2, e);
            VP_CHECK((int)rule->size() == (s.dim() + 1) / 2, rule->size(), " points for a space of dimension ", s.dim());
            std::vector<ld> sum((size_t)s.dim(), 0), N;
            for (auto& [x, w] : *rule) {
                VP_CHECK(x > 0 && x < 1, "point ", x);
                VP_CHECK(w > 0, "weight ", w);
                int f = s.eval((ld)x * e, N);
                for (int k = 0; k <= s.q; ++k) sum[(size_t)(f + k)] += (ld)w * e * N[(size_t)k];
            }
            ld worst = 0;
            for (int i = 0; i < s.dim(); ++i) {
                ld err = std::abs(sum[(size_t)i] - s.integral(i)); worst = std::max(worst, err);
                VP_CHECK(err < 1e-11L, "spline ", i, " of ", s.dim(), " is integrated to ", (double)sum[(size_t)i], " instead of ", (double)s.integral(i));
            }
            auto& c = r.counters["max_error_1e-18"]; c = std::max(c, (long long)(worst * 1e18L));
            ++r.states; r.transitions += s.dim();
            r.nontrivial(fnv(r.cur_desc())); r.sample(r.cur_desc());
        });
    }
}

// ------------------------------------------------------------------------------------------------ C11
struct Shape { Vector3i n; PointType lo, hi; };
static void Assembly(const Shape& sh, const std::vector<bool>& full, Vector3i p, int mi, bool reverse) {
    auto& r = R();
    Cfg cfg; cfg.n = sh.n; cfg.p = p; cfg.method = GGQ[mi]; cfg.lo = {0, 0, 0}; cfg.hi = {1, 2, 3}; cfg.lou = sh.lo; cfg.hiu = sh.hi;
    auto set = MakeSettings(cfg);
    GridIndexer gi(*set);
    Grid grid(*set);
    FullBuilder bl(*set);
    size_t N = full.size(), count = 0;
    for (size_t k = 0; k < N; ++k) {
        size_t i = reverse ? N - 1 - k : k;
        if (full[i]) { ++count; grid.MakeElement(bl, i + 1, ElementBounds{gi.GetBoundingBoxXYZFromIndex(i), gi.GetBoundingBoxUVWFromIndex(i)}); }
    }
    grid.LockElements();
    QuadratureMultipleElements<Grid::UntrimmedElementType>::AssembleIPs(grid, p, GGQ[mi]);
    // one-dimensional test functions per direction: Legendre polynomials and truncated powers at the cell faces
    struct Fn { int kind, k, j; };      // kind 0: Legendre degree k; kind 1: (x-k)_+^j, x in cell units
    std::vector<Fn> fs[3];
    for (int d = 0; d < 3; ++d) {
        int q = 2 * (int)p[d] - mi, c = (int)p[d] - 2;
        for (int k = 0; k <= q; ++k) fs[d].push_back({0, k, 0});
        for (int k = 1; k < (int)sh.n[d]; ++k) for (int j = c + 1; j <= q; ++j) fs[d].push_back({1, k, j});
    }
    auto val1 = [&](int d, const Fn& f, ld x) -> ld {   // scaled to be at most 1
        int n = (int)sh.n[d];
        if (f.kind == 0) return leg(f.k, 2 * x / n - 1);
        if (x <= f.k) return 0;
        return std::pow((x - f.k) / (n - f.k), (ld)f.j);
    };
    // exact integrals over cell i in direction d
    auto int1 = [&](int d, const Fn& f, int i) -> ld {
        static std::vector<std::pair<ld, ld>> g;
        if (g.empty()) for (int a = 0; a < 8; ++a) {
            ld x = std::cos(3.141592653589793238462643383279L * (a + 0.75L) / 8.5L), dp = 0;
            for (int it = 0; it < 60; ++it) { ld p0 = 1, p1 = x; for (int k = 2; k <= 8; ++k) { ld p2 = ((2 * k - 1) * x * p1 - (k - 1) * p0) / k; p0 = p1; p1 = p2; } dp = 8 * (x * p1 - p0) / (x * x - 1); x -= p1 / dp; }
            g.push_back({(1 + x) / 2, 1 / ((1 - x * x) * dp * dp)});
        }
        ld s = 0; for (auto& [x, w] : g) s += w * val1(d, f, i + x);
        return s;
    };
    std::vector<std::vector<ld>> I[3];
    for (int d = 0; d < 3; ++d) for (auto& f : fs[d]) { std::vector<ld> v; for (int i = 0; i < (int)sh.n[d]; ++i) v.push_back(int1(d, f, i)); I[d].push_back(v); }
    std::vector<std::array<size_t, 3>> fn;
    size_t total = fs[0].size() * fs[1].size() * fs[2].size(), stride = std::max<size_t>(1, total / (r.thorough() ? 4000 : 500)), no = (size_t)r.idx;
    for (size_t a = 0; a < fs[0].size(); ++a) for (size_t b = 0; b < fs[1].size(); ++b) for (size_t c = 0; c < fs[2].size(); ++c)
        if (no++ % stride == 0 || a + b + c == 0) fn.push_back({a, b, c});
    std::vector<ld> got(fn.size(), 0), want(fn.size(), 0);
    PointType h; ld cell = 1; ld big = 0;
    for (int d = 0; d < 3; ++d) { h[d] = (sh.hi[d] - sh.lo[d]) / (double)sh.n[d]; cell *= ((ld)sh.hi[d] - sh.lo[d]) / sh.n[d]; big = std::max(big, std::max(std::abs((ld)sh.lo[d]), std::abs((ld)sh.hi[d])) / h[d]); }
    size_t seen = 0;
    for (auto& el : grid.GetElements<F::untrimmed>()) {
        size_t i = el.GetId() - 1;
        VP_CHECK(i < N && full[i], "foreign element ", i + 1);
        ++seen;
        size_t ijk[3] = {i % sh.n[0], i / sh.n[0] % sh.n[1], i / sh.n[0] / sh.n[1]};
        auto b = gi.GetBoundingBoxUVWFromIndex(i);
        for (auto& ip : el.GetIntegrationPoints()) {
            VP_CHECK(ip.Weight() > 0, "weight ", ip.Weight());
            std::vector<ld> v[3];
            for (int d = 0; d < 3; ++d) {
                VP_CHECK(ip[d] >= b.lower[d] && ip[d] <= b.upper[d], "a point of element ", i + 1, " lies outside of its cell in direction ", d);
                ld x = ((ld)ip[d] - sh.lo[d]) * sh.n[d] / ((ld)sh.hi[d] - sh.lo[d]);
                for (auto& f : fs[d]) v[d].push_back(val1(d, f, x));
            }
            for (size_t q = 0; q < fn.size(); ++q) got[q] += ip.Weight() / cell * v[0][fn[q][0]] * v[1][fn[q][1]] * v[2][fn[q][2]];
        }
        for (size_t q = 0; q < fn.size(); ++q) want[q] += I[0][fn[q][0]][ijk[0]] * I[1][fn[q][1]][ijk[1]] * I[2][fn[q][2]][ijk[2]];
    }
    VP_CHECK(seen == count, "elements lost");
    ld worst = 0;
    for (size_t q = 0; q < fn.size(); ++q) {
        ld err = std::abs(got[q] - want[q]); worst = std::max(worst, err);
        if (err > (ld)N * (2e-10L + 1e-14L * big)) {
            std::string s; for (int d = 0; d < 3; ++d) { auto& f = fs[d][fn[q][(size_t)d]]; s += f.kind ? cat(" (x-", f.k, ")+^", f.j) : cat(" P", f.k); }
            r.fail(cat("function", s, ": ", (double)got[q], " instead of ", (double)want[q], " cell volumes"));
        }
    }
    auto& c = r.counters["max_error_1e-18"]; c = std::max(c, (long long)(worst * 1e18L));
    ++r.states; r.transitions += (long long)fn.size();
}
static void Boxes() {
    auto& r = R(); const bool th = r.thorough();
    omp_set_num_threads(1);
    std::vector<Vector3i> orders;
    for (IndexType a = 2; a <= 4; ++a) for (IndexType b = 2; b <= 4; ++b) for (IndexType c = 2; c <= 4; ++c) orders.push_back({a, b, c});
    auto go = [&](const Shape& sh, uint64_t mask, uint64_t h) {
        if (!r.take()) return;
        size_t N = sh.n[0] * sh.n[1] * sh.n[2];
        auto p = orders[h % orders.size()]; int mi = (int)(h / orders.size() % 3); bool rev = h & 1;
        r.run([=] { return cat("grid ", str(sh.n), " parametric box ", str(sh.lo), str(sh.hi), " full cells ", mask, " order ", str(p), " method ", mi, rev ? " inserted backwards" : ""); }, [&] {
            std::vector<bool> f(N); for (size_t i = 0; i < N; ++i) f[i] = mask >> i & 1;
            Assembly(sh, f, p, mi, rev);
            int pc = __builtin_popcountll(mask);
            if (pc > 1 && pc < (int)N) r.nontrivial(fnv(r.cur_desc()));
            r.sample(r.cur_desc());
        });
    };
    auto hash = [](uint64_t x) { x ^= x >> 31; x *= 0x9E3779B97F4A7C15ULL; x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ULL; return x >> 20; };
    struct BB { PointType lo, hi; };
    std::vector<BB> bbs = {{{0, 0, 0}, {1, 1, 1}}, {{-1, 2, 0.5}, {1, 2.25, 4}}, {{7.7, -0.3, -5}, {9, 0.9, -4.1}}, {{0, 0, 0}, {0.05, 30, 700}}};
    std::vector<Vector3i> shapes = {{1, 1, 1}, {2, 1, 1}, {1, 2, 1}, {1, 1, 2}, {3, 1, 1}, {1, 3, 1}, {1, 1, 3}, {2, 2, 1}, {2, 1, 2}, {1, 2, 2}, {3, 2, 1}, {2, 3, 1}, {1, 3, 2}, {1, 2, 3}, {3, 1, 2}, {2, 1, 3},
        {2, 2, 2}, {4, 2, 1}, {2, 1, 4}, {1, 4, 2}, {3, 3, 1}, {1, 3, 3}, {3, 1, 3}, {8, 1, 1}, {1, 8, 1}, {1, 1, 8}, {3, 2, 2}, {2, 3, 2}, {2, 2, 3}};
    uint64_t salt = 0;
    for (auto& s : shapes) {
        size_t N = s[0] * s[1] * s[2]; uint64_t all = 1ULL << N;
        int reps = N <= 4 ? 40 : N <= 6 ? 8 : 2;     // several orders and methods per pattern
        uint64_t stride = th || N <= 9 ? 1 : 5;
        for (uint64_t m = 0; m < all; ++m) for (int k = 0; k < reps; ++k) if ((m + N) % stride == 0) { auto& b = bbs[(size_t)(hash(m + salt) % bbs.size())]; go({s, b.lo, b.hi}, m, hash(m * 31 + (uint64_t)k + salt * 7919)); }
        ++salt;
    }
    // rows long enough for the composed rules
    for (int d = 0; d < 3; ++d) for (IndexType len : {5u, 6u, 7u, 9u, 12u, 16u, 20u, 24u, 31u}) for (IndexType w : {1u, 2u}) {
        Vector3i n{w, w, w}; n[d] = len; size_t N = n[0] * n[1] * n[2];
        if (N > 62) continue;
        for (uint64_t k = 0; k < 24; ++k) {
            uint64_t m = (1ULL << N) - 1;
            if (k % 3 == 1) m &= ~(1ULL << (hash(k) % N)); else if (k % 3 == 2) m &= ~(hash(k * 77) & hash(k * 13 + 5) & m & ~1ULL);
            auto& b = bbs[k % bbs.size()]; go({n, b.lo, b.hi}, m, hash(k * 17 + len * 3 + w));
        }
    }
    // larger blocks with every single and every pair of holes
    std::vector<Vector3i> big = {{3, 3, 3}, {4, 3, 2}, {2, 3, 4}, {4, 4, 1}, {1, 5, 4}, {5, 1, 5}};
    for (auto& s : big) { size_t N = s[0] * s[1] * s[2]; uint64_t full = (1ULL << N) - 1;
        for (size_t a = 0; a < N; ++a) for (size_t b = a; b < N; ++b) if (th || N < 21 || (a * 7 + b) % 3 == 0) { auto& bb = bbs[(a + b) % bbs.size()]; go({s, bb.lo, bb.hi}, full & ~(1ULL << a) & ~(1ULL << b), hash(a * 1000 + b + N)); } }
}

int main(int argc, char** argv) {
    auto& r = R(); r.init(argc, argv);
    if (r.prop == "C09") Full(); else if (r.prop == "C10") Rules(); else Boxes();
    return r.finish();
}
