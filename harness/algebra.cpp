// C22 (non-negative least squares), C23 (coordinate mappings).
#include "vp.hpp"
#include "families.hpp"
#include "settings.hpp"
#include "queso/embedded_model.h"
#include "queso/solvers/nnls.h"
#include "queso/utilities/mapping_utilities.hpp"
#include "queso/containers/boundary_integration_point.hpp"
#include "queso/containers/integration_point.hpp"
using namespace vp;
using namespace queso;

// ------------------------------------------------------------------------------------------------ C22
// A solution is optimal exactly when x >= 0, w = A'(b - Ax) <= 0 and x'w = 0 (the problem is convex).
static double worstKkt = 0;
static void Solve(const std::vector<double>& A, const std::vector<double>& b, const char* what) {
    const size_t m = b.size(), n = A.size() / m;
    std::vector<double> A2 = A, b2 = b, x(n + 2, -7.0);
    ++R().transitions;
    double res = NNLS::solve(A2, b2, x);
    auto show = [&] { std::string s = cat(what, " ", m, "x", n, " A(col)="); for (double v : A) s += cat(v, " "); s += "b="; for (double v : b) s += cat(v, " "); s += "x="; for (double v : x) s += cat(v, " "); return s; };
    VP_CHECK(x.size() == n, "solution of size ", x.size(), ": ", show());
    double na = 0, nb = 0, nx = 0;
    for (double v : A) na += v * v;
    for (double v : b) nb += v * v;
    for (double v : x) { VP_CHECK(v >= 0 && std::isfinite(v), "entry ", v, ": ", show()); nx += v * v; }
    na = std::sqrt(na); nb = std::sqrt(nb); nx = std::sqrt(nx);
    std::vector<double> r(b); double rr = 0;
    for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < m; ++i) r[i] -= A[j * m + i] * x[j];
    for (double v : r) rr += v * v;
    rr = std::sqrt(rr);
    const double rs = nb + na * nx;
    VP_CHECK(close(res, rr, 1e-10 * rs), "reported residual ", res, " but the residual is ", rr, ": ", show());
    size_t pos = 0;
    for (size_t j = 0; j < n; ++j) {
        double w = 0, nc = 0;
        for (size_t i = 0; i < m; ++i) { w += A[j * m + i] * r[i]; nc += A[j * m + i] * A[j * m + i]; }
        const double tol = 1e-10 * std::sqrt(nc) * rs;
        VP_CHECK(w <= tol, "not optimal: increasing entry ", j, " lowers the residual (", w, "): ", show());
        if (x[j] > 0) { ++pos; VP_CHECK(w >= -tol, "not optimal: decreasing entry ", j, " lowers the residual (", w, "): ", show()); }
        if (rs > 0 && nc > 0) worstKkt = std::max(worstKkt, std::max(w, x[j] > 0 ? -w : 0) / (std::sqrt(nc) * rs));
    }
    ++R().states;
    if (pos) R().count("with a positive entry");
    if (pos && pos < n) R().count("with an active bound");
    if (rr > 1e-8 * (nb + 1e-300)) R().count("with a residual");
}
static void RunNnls() {
    auto& r = R();
    struct Sh { size_t m, n; std::vector<double> al; std::vector<double> bl; double sc; };
    const std::vector<double> a4{0, 1, -1, 2}, a3{0, 1, -1}, a2{0, 1}, a6{0, 1, -1, 2, -2, 3};
    std::vector<Sh> S{{1, 1, a6, a6, 1}, {1, 2, a6, a6, 1}, {1, 3, a6, a6, 1}, {2, 1, a6, a6, 1}, {2, 2, a6, a6, 1}, {2, 2, a6, a6, 1 / 3.0}, {2, 2, a6, a6, 1e-5}, {2, 2, a6, a6, 7e6}, {3, 1, a6, a6, 1},
        {3, 2, a4, a4, 1}, {3, 2, a4, a4, 0.7}, {2, 3, a4, a4, 1}, {2, 4, a4, a4, 1}, {4, 1, a4, a4, 1}, {4, 2, a4, a4, 1}, {3, 3, a4, a4, 1}, {3, 3, a3, a3, 0.1}, {3, 4, a2, a3, 1}, {4, 3, a2, a3, 1}, {4, 4, a2, a3, 1}, {2, 6, a3, a3, 1}, {3, 5, a2, a3, 1}, {2, 5, a3, a4, 1}};
    if (r.thorough()) for (auto s : std::vector<Sh>{{3, 4, a3, a4, 1}, {4, 3, a3, a3, 1}, {4, 3, a3, a3, 0.3}, {3, 3, a4, a6, 1 / 3.0}, {3, 6, a2, a4, 1}, {5, 3, a2, a3, 1}, {5, 4, a2, a2, 1}, {2, 5, a4, a4, 1}, {2, 7, a3, a4, 1}}) S.push_back(s);
    for (auto& s : S) {
        // one case per content of the leading half of the matrix; the rest and the right-hand side are enumerated inside
        const size_t N = s.m * s.n, lead = N / 2;
        size_t cases = 1, rest = 1, rhs = 1;
        for (size_t i = 0; i < lead; ++i) cases *= s.al.size();
        for (size_t i = lead; i < N; ++i) rest *= s.al.size();
        for (size_t i = 0; i < s.m; ++i) rhs *= s.bl.size();
        for (size_t c = 0; c < cases; ++c) {
            if (!r.take()) continue;
            r.run([=] { return cat("all ", s.m, "x", s.n, " matrices and right-hand sides over ", s.al.size(), "/", s.bl.size(), " values, scale ", s.sc, ", leading entries no. ", c); }, [&] {
                std::vector<double> A(N), b(s.m);
                size_t q = c; bool any = false;
                for (size_t i = 0; i < lead; ++i) { A[i] = s.sc * s.al[q % s.al.size()]; any |= A[i] != 0; q /= s.al.size(); }
                for (size_t t = 0; t < rest; ++t) {
                    q = t;
                    for (size_t i = lead; i < N; ++i) { A[i] = s.sc * s.al[q % s.al.size()]; q /= s.al.size(); }
                    for (size_t h = 0; h < rhs; ++h) {
                        q = h;
                        for (size_t i = 0; i < s.m; ++i) { b[i] = s.bl[q % s.bl.size()]; q /= s.bl.size(); }
                        Solve(A, b, "matrix");
                    }
                }
                if (any) r.nontrivial(fnv(cat(s.m, s.n, s.sc, s.al.size(), c)));
            });
        }
    }
    // systems of the kind moment fitting solves: every subset of points x every sub-interval
    const int P = r.thorough() ? 12 : 10;
    for (int deg = 1; deg <= 6; ++deg) for (int mask0 = 0; mask0 < 16; ++mask0) {
        if (!r.take()) continue;
        r.run([=] { return cat("Legendre moments of degree up to ", deg, ", all subsets of ", P, " points with low bits ", mask0); }, [&] {
            auto leg = [](int k, double x) { double p0 = 1, p1 = x; if (!k) return p0; for (int i = 2; i <= k; ++i) { double p2 = ((2 * i - 1) * x * p1 - (i - 1) * p0) / i; p0 = p1; p1 = p2; } return p1; };
            for (int hi = 0; hi < 1 << (P - 4); ++hi) {
                int mask = mask0 | hi << 4; std::vector<double> A;
                for (int i = 0; i < P; ++i) if (mask >> i & 1) for (int k = 0; k <= deg; ++k) A.push_back(leg(k, 2 * (i + 0.5) / P - 1));
                if (A.empty()) continue;
                for (int a = 0; a < 5; ++a) for (int e = a + 1; e <= 5; ++e) for (double sg : {1.0, -0.5, 1e-6}) {
                    double lo = -1 + 2.0 * a / 5, up = -1 + 2.0 * e / 5; std::vector<double> b;
                    for (int k = 0; k <= deg; ++k) { double v = 0; for (auto& [x, w] : gl(8)) v += (double)(w * (ld)(up - lo)) * leg(k, (double)(lo + x * (up - lo))); b.push_back(sg * v); }
                    Solve(A, b, "moments");
                }
            }
            r.nontrivial(fnv(cat("leg", deg, mask0)));
        });
    }
    r.counters["max_kkt_error_1e-20"] = (long long)(worstKkt * 1e20);
}

// ------------------------------------------------------------------------------------------------ C23
struct Ax { double gl, gh, ul, uh; };
static const std::vector<Ax>& axes() {
    static std::vector<Ax> a{{0, 1, 0, 1}, {-1, 3, 0, 1}, {0, 1, -1, 1}, {0.3, 0.37, 2, 9}, {-250, -117, -0.5, 0}, {1e-3, 3e-3, 0, 1}, {100, 1100, 10, 11.5}, {-0.7, 0.1, -7, -6.9},
        {1, 2, 3, 4}, {0, 1e3, 0, 1e-3}, {-3, -2.5, 1000, 1007}};
    return a;
}
static std::array<ld, 3> scaleOf(const std::array<Ax, 3>& x) { std::array<ld, 3> s; for (size_t d = 0; d < 3; ++d) s[d] = ((ld)x[d].gh - x[d].gl) / ((ld)x[d].uh - x[d].ul); return s; }
static void Map1(const std::array<Ax, 3>& x) {
    auto& r = R();
    ElementBounds B;
    for (size_t d = 0; d < 3; ++d) { B.global.lower[d] = x[d].gl; B.global.upper[d] = x[d].gh; B.parametric.lower[d] = x[d].ul; B.parametric.upper[d] = x[d].uh; }
    auto s = scaleOf(x);
    const ld det = s[0] * s[1] * s[2];
    VP_CHECK(close(mapping::DetJ(B), (double)det, 1e-11 * (double)det), "Jacobian determinant ", mapping::DetJ(B), " instead of ", (double)det);
    ld tg[3], tu[3];
    for (size_t d = 0; d < 3; ++d) { tg[d] = 1e-14L * (std::abs(x[d].gl) + std::abs(x[d].gh)) * 4 + s[d] * 1e-14L * (std::abs(x[d].ul) + std::abs(x[d].uh)) * 4; tu[d] = tg[d] / s[d]; }
    static const double T[5] = {0, 1, 0.5, 0.137, -0.6};
    static std::vector<Vector3d> N;
    if (N.empty()) {
        for (int i = 0; i < 27; ++i) { double a = i % 3 - 1, b = i / 3 % 3 - 1, c = i / 9 - 1, l = std::sqrt(a * a + b * b + c * c); if (l > 0) N.push_back({a / l, b / l, c / l}); }
        N.push_back({0.6, -0.48, 0.64}); N.push_back({1e-3, 0.8, -std::sqrt(1 - 0.64 - 1e-6)});
    }
    for (int i = 0; i < 125; ++i) {
        double t[3] = {T[i % 5], T[i / 5 % 5], T[i / 25]};
        PointType g, u; ld eg[3], eu[3];
        for (size_t d = 0; d < 3; ++d) {
            g[d] = t[d] == 0 ? x[d].gl : t[d] == 1 ? x[d].gh : x[d].gl + t[d] * (x[d].gh - x[d].gl);
            u[d] = t[d] == 0 ? x[d].ul : t[d] == 1 ? x[d].uh : x[d].ul + t[d] * (x[d].uh - x[d].ul);
            eu[d] = ((ld)g[d] - x[d].gl) / s[d] + x[d].ul; eg[d] = ((ld)u[d] - x[d].ul) * s[d] + x[d].gl;
        }
        auto p = mapping::ToParametric(PointView(g), B), q = mapping::ToGlobal(PointView(u), B);
        auto pb = mapping::ToGlobal(PointView(p), B), qb = mapping::ToParametric(PointView(q), B);
        IntegrationPoint ip(u, 0.37), ig(g, 0.37);
        auto ipg = mapping::ToGlobal(ip, B); auto igp = mapping::ToParametric(ig, B);
        auto ipb = mapping::ToParametric(ipg, B); auto igb = mapping::ToGlobal(igp, B);
        for (size_t d = 0; d < 3; ++d) {
            VP_CHECK(close(p[d], (double)eu[d], (double)tu[d]), "ToParametric(", str(g), ") is ", str(p), ", coordinate ", d, " should be ", (double)eu[d]);
            VP_CHECK(close(q[d], (double)eg[d], (double)tg[d]), "ToGlobal(", str(u), ") is ", str(q), ", coordinate ", d, " should be ", (double)eg[d]);
            VP_CHECK(close(pb[d], g[d], 2 * (double)tg[d]) && close(qb[d], u[d], 2 * (double)tu[d]), "mapping there and back gives ", str(pb), " / ", str(qb));
            VP_CHECK(close(ipg[d], q[d], 1e-300 + (double)tg[d]) && close(igp[d], p[d], 1e-300 + (double)tu[d]), "integration point maps elsewhere than the point");
            VP_CHECK(close(ipb[d], u[d], 2 * (double)tu[d]) && close(igb[d], g[d], 2 * (double)tg[d]), "integration point there and back");
        }
        VP_CHECK(close(ipg.Weight(), (double)(0.37L * det), 1e-11 * (double)det) && close(igp.Weight(), (double)(0.37L / det), 1e-11 / (double)det), "weights ", ipg.Weight(), " ", igp.Weight());
        VP_CHECK(close(ipb.Weight(), 0.37, 1e-12) && close(igb.Weight(), 0.37, 1e-12), "weight there and back ", ipb.Weight(), " ", igb.Weight());
        r.transitions += 8;
        for (auto& n : N) {
            for (int dir = 0; dir < 2; ++dir) {
                // area vectors: an element of area spanned by a, b maps to the one spanned by Sa, Sb
                BoundaryIntegrationPoint b(dir ? g : u, 0.73, n);
                auto m = dir ? mapping::ToParametric(b, B) : mapping::ToGlobal(b, B);
                ld k[3] = {s[0], s[1], s[2]}; if (dir) for (auto& v : k) v = 1 / v;
                ld a[3] = {n[0] * k[1] * k[2], n[1] * k[0] * k[2], n[2] * k[0] * k[1]}, l = std::sqrt(a[0] * a[0] + a[1] * a[1] + a[2] * a[2]);
                VP_CHECK(close(m.Weight(), (double)(0.73L * l), 1e-11 * (double)l), "surface weight ", m.Weight(), " instead of ", (double)(0.73L * l), " for normal ", str(n), dir ? " to parametric" : " to global");
                for (size_t d = 0; d < 3; ++d) {
                    VP_CHECK(close(m.Normal()[d], (double)(a[d] / l), 1e-12), "normal ", str(m.Normal()), " from ", str(n), dir ? " to parametric" : " to global");
                    VP_CHECK(m[d] == (dir ? p : q)[d] || close(m[d], (double)(dir ? eu : eg)[d], (double)(dir ? tu : tg)[d]), "surface point ", str(m.Point()));
                }
                auto back = dir ? mapping::ToGlobal(m, B) : mapping::ToParametric(m, B);
                VP_CHECK(close(back.Weight(), 0.73, 1e-12), "surface weight there and back ", back.Weight());
                for (size_t d = 0; d < 3; ++d) VP_CHECK(close(back.Normal()[d], n[d], 1e-12) && close(back[d], (dir ? g : u)[d], 2 * (double)(dir ? tg : tu)[d]), "surface point there and back");
                r.transitions += 2;
            }
        }
        ++r.states;
    }
    if (x[0].gl != x[1].gl && s[0] != s[1] && s[1] != s[2]) r.nontrivial(fnv(x.data(), sizeof x));
}

using EF = EmbeddedModel::BackgroundGridType::ElementFilter;
// integrals over a whole model agree in both spaces
static void MapModel(const Solid& solid, const Cfg& c) {
    auto& r = R();
    auto m = EmbeddedModel::Create(MakeSettings(c));
    m.CreateVolume(solid.mesh.View());
    auto cs = DictionaryFactory<key::MainValuesTypeTag>::Create("ConditionSettings");
    cs->SetValue(ConditionSettings::input_filename, std::string("x.stl"));
    cs->SetValue(ConditionSettings::condition_type, std::string("Surface"));
    cs->SetValue(ConditionSettings::condition_id, IndexType{1});
    cs->CheckRequired();
    m.CreateCondition(solid.mesh.View(), *cs);
    std::array<Ax, 3> grid;
    for (size_t d = 0; d < 3; ++d) grid[d] = {c.lo[d], c.hi[d], c.lou[d], c.hiu[d]};
    const bool fe = c.grid == GridType::hexahedral_fe_grid;
    size_t cut = 0, full = 0;
    std::map<IndexType, ElementBounds> bounds;
    auto boundsOf = [&](auto& gb, auto& ub, IndexType id) {
        std::array<Ax, 3> x;
        IndexType q = id - 1;
        IndexType ix[3] = {q % c.n[0], q / c.n[0] % c.n[1], q / (c.n[0] * c.n[1])};
        for (size_t d = 0; d < 3; ++d) {
            x[d] = {gb.lower[d], gb.upper[d], ub.lower[d], ub.upper[d]};
            ld hu = ((ld)c.hiu[d] - c.lou[d]) / c.n[d], lo = fe ? c.lou[d] : c.lou[d] + hu * ix[d], up = fe ? c.hiu[d] : c.lou[d] + hu * (ix[d] + 1);
            VP_CHECK(close(ub.lower[d], (double)lo, 1e-12 * (1 + std::abs(c.lou[d]))) && close(ub.upper[d], (double)up, 1e-12 * (1 + std::abs(c.hiu[d]))), "parametric bounds of element ", id);
        }
        return x;
    };
    auto same = [&](ld a, ld e, ld tol) { return std::abs(a - e) <= tol; };
    auto elem = [&](auto& el) {
        const auto& gb = el.template GetCellBounds<CoordinateSpace::global>(); const auto& ub = el.template GetCellBounds<CoordinateSpace::parametric>();
        auto x = boundsOf(gb, ub, el.GetId());
        auto s = scaleOf(x); ld det = s[0] * s[1] * s[2];
        VP_CHECK(close(el.DetJ(), (double)det, 1e-10 * (double)det), "DetJ of element ", el.GetId());
        const auto& par = el.template GetIntegrationPoints<CoordinateSpace::parametric>();
        auto glo = el.template GetIntegrationPoints<CoordinateSpace::global>();
        VP_CHECK(par.size() == (size_t)std::ranges::size(glo), "numbers of points in the two spaces");
        size_t k = 0;
        for (const auto& g : glo) {
            auto& p = par[k++];
            for (size_t d = 0; d < 3; ++d) VP_CHECK(same(g[d], ((ld)p[d] - x[d].ul) * s[d] + x[d].gl, 1e-11L * (1 + std::abs(x[d].gl) + std::abs(x[d].gh))), "point ", k, " of element ", el.GetId(), " in physical space is ", str(g.Point()));
            VP_CHECK(close(g.Weight(), (double)(p.Weight() * det), 1e-10 * std::abs(p.Weight()) * (double)det), "weight in physical space");
            ++r.states;
        }
        return x;
    };
    auto ips = [&](const auto& pg, const auto& pp, const std::array<Ax, 3>& x, const char* what) {
        auto s = scaleOf(x); ld area[3]{}, areaU[3]{};
        VP_CHECK(pg.size() == pp.size(), what, ": numbers of surface points in the two spaces");
        for (size_t i = 0; i < pg.size(); ++i) {
            auto& a = pg[i]; auto& b = pp[i];
            ld v[3], l = 0;
            for (size_t d = 0; d < 3; ++d) {
                VP_CHECK(same(a[d], ((ld)b[d] - x[d].ul) * s[d] + x[d].gl, 1e-11L * (1 + std::abs(x[d].gl) + std::abs(x[d].gh))), what, ": surface point ", i, " ", str(a.Point()), " vs ", str(b.Point()));
                v[d] = (ld)a.Normal()[d] / (s[(d + 1) % 3] * s[(d + 2) % 3]); l += v[d] * v[d];
                area[d] += (ld)a.Weight() * a.Normal()[d]; areaU[d] += (ld)b.Weight() * b.Normal()[d] * s[(d + 1) % 3] * s[(d + 2) % 3];
            }
            l = std::sqrt(l);
            VP_CHECK(close(b.Weight(), (double)(a.Weight() * l), 1e-10 * std::abs(a.Weight()) * (double)l), what, ": surface weight ", b.Weight(), " instead of ", (double)(a.Weight() * l));
            if (a.Weight() > 1e-13 * (x[0].gh - x[0].gl) * (x[1].gh - x[1].gl))   // triangles without an area have no normal
            for (size_t d = 0; d < 3; ++d) VP_CHECK(close(b.Normal()[d], (double)(v[d] / l), 1e-10), what, ": normal ", str(b.Normal()));
            ++r.states;
        }
        for (int d = 0; d < 3; ++d) VP_CHECK(same(area[d], areaU[d], 1e-10L * (std::abs(area[d]) + 1e-3L)), what, ": area vectors in the two spaces");
    };
    for (auto& el : m.GetElements<EF::trimmed>()) {
        ++cut;
        auto x = elem(el); auto s = scaleOf(x);
        auto bg = el.template GetActiveDomainBounds<CoordinateSpace::global>(), bu = el.template GetActiveDomainBounds<CoordinateSpace::parametric>();
        for (size_t d = 0; d < 3; ++d) {
            VP_CHECK(close(bu.lower[d], (double)((bg.lower[d] - (ld)x[d].gl) / s[d] + x[d].ul), 1e-11 * (1 + std::abs(x[d].ul))) && close(bu.upper[d], (double)((bg.upper[d] - (ld)x[d].gl) / s[d] + x[d].ul), 1e-11 * (1 + std::abs(x[d].uh))), "active bounds of element ", el.GetId(), " in the two spaces");
        }
        ips(el.template GetActiveDomainBoundaryIps<BoundaryIntegrationPoint, CoordinateSpace::global>(), el.template GetActiveDomainBoundaryIps<BoundaryIntegrationPoint, CoordinateSpace::parametric>(), x, "active boundary");
        for (int i = 0; i < 64; ++i) {
            P3 p; PointType u, g; double f[3] = {0.07 + 0.27 * (i % 4), 0.11 + 0.25 * (i / 4 % 4), 0.13 + 0.23 * (i / 16)};
            for (size_t d = 0; d < 3; ++d) { g[d] = x[d].gl + f[d] * (x[d].gh - x[d].gl); u[d] = x[d].ul + f[d] * (x[d].uh - x[d].ul); p[(int)d] = g[d]; }
            if (solid.surfaceDistance(p) < 1e-6L) continue;
            const bool in = solid.inside(p);
            VP_CHECK(el.template IsInsideActiveDomain<CoordinateSpace::global>(g) == in, "physical point ", str(g), " inside: ", !in);
            VP_CHECK(el.template IsInsideActiveDomain<CoordinateSpace::parametric>(u) == in, "parametric point ", str(u), " (physical ", str(g), ") inside: ", !in);
            ++r.states;
            BoundingBoxType G, U; // a small box around the point in both spaces
            for (size_t d = 0; d < 3; ++d) { double h = 0.02 + 0.02 * (i % 3); G.lower[d] = x[d].gl + (f[d] - h) * (x[d].gh - x[d].gl); G.upper[d] = x[d].gl + (f[d] + h) * (x[d].gh - x[d].gl); U.lower[d] = x[d].ul + (f[d] - h) * (x[d].uh - x[d].ul); U.upper[d] = x[d].ul + (f[d] + h) * (x[d].uh - x[d].ul); }
            ld v = solid.volumeIn(p3(G.lower), p3(G.upper)), tot = 1; for (size_t d = 0; d < 3; ++d) tot *= (ld)G.upper[d] - G.lower[d];
            bool clear = true; for (ld w : {v, tot - v}) if (w > 0 && w < 1e-4L * tot && w > 1e-12L * tot) clear = false;
            if (!clear) continue;
            P3 far; for (int q = 0; q < 3; ++q) far[q] = G.upper[(size_t)q] - p[q];
            if ((v < 1e-12L * tot || v > (1 - 1e-12L) * tot) && solid.surfaceDistance(p) < norm(far) * 1.01L) continue;   // touches
            auto want = v < 1e-12L * tot ? IntersectionState::outside : v > (1 - 1e-12L) * tot ? IntersectionState::inside : IntersectionState::trimmed;
            VP_CHECK(el.template GetIntersectionState<CoordinateSpace::global>(G.lower, G.upper) == want, "state of the physical box ", str(G.lower), str(G.upper), " fraction inside ", (double)(v / tot));
            VP_CHECK(el.template GetIntersectionState<CoordinateSpace::parametric>(U.lower, U.upper) == want, "state of the parametric box around ", str(u));
        }
    }
    for (auto& el : m.GetElements<EF::untrimmed>()) {
        ++full;
        auto x = elem(el);
        auto bg = el.template GetActiveDomainBounds<CoordinateSpace::global>(), bu = el.template GetActiveDomainBounds<CoordinateSpace::parametric>();
        for (size_t d = 0; d < 3; ++d) VP_CHECK(bg.lower[d] == x[d].gl && bg.upper[d] == x[d].gh && close(bu.lower[d], x[d].ul, 1e-12 * (1 + std::abs(x[d].ul))) && close(bu.upper[d], x[d].uh, 1e-12 * (1 + std::abs(x[d].uh))), "active bounds of full element ", el.GetId());
        ips(el.template GetActiveDomainBoundaryIps<BoundaryIntegrationPoint, CoordinateSpace::global>(), el.template GetActiveDomainBoundaryIps<BoundaryIntegrationPoint, CoordinateSpace::parametric>(), x, "boundary of a full element");
        for (double f : {0.01, 0.5, 0.99}) {
            PointType u, g; for (size_t d = 0; d < 3; ++d) { g[d] = x[d].gl + f * (x[d].gh - x[d].gl); u[d] = x[d].ul + f * (x[d].uh - x[d].ul); }
            VP_CHECK(el.template IsInsideActiveDomain<CoordinateSpace::global>(g) && el.template IsInsideActiveDomain<CoordinateSpace::parametric>(u), "point of a full element not inside");
            u[1] = x[1].uh + f * (x[1].uh - x[1].ul); g[1] = x[1].gh + f * (x[1].gh - x[1].gl);
            VP_CHECK(!el.template IsInsideActiveDomain<CoordinateSpace::global>(g) && !el.template IsInsideActiveDomain<CoordinateSpace::parametric>(u), "point beside a full element inside");
        }
    }
    ++r.transitions;
    if (cut && full) r.nontrivial(fnv(solid.name + str(c.lou) + str(c.n)));
}
static double Source() { static int k = 0; ++k; return 0.31 + 0.047 * (k % 5); }
static void RunMapping() {
    auto& r = R();
    const auto& A = axes();
    for (auto& a : A) for (auto& b : A) for (auto& c : A) {
        if (!r.take()) continue;
        std::array<Ax, 3> x{a, b, c};
        r.run([=] { std::string s = "boxes"; for (auto& q : x) s += cat(" [", q.gl, ",", q.gh, "]->[", q.ul, ",", q.uh, "]"); return s; }, [&] { Map1(x); });
    }
    std::vector<Made> L;
    latticeTets([&](size_t no, Made m) { if (no % (r.thorough() ? 97 : 997) == 0) L.push_back(m); });
    latticePrisms(5, [&](size_t no, Made m) { if (no % (r.thorough() ? 13 : 97) == 0) L.push_back(m); });
    for (uint64_t m : {127ULL, 23ULL, 1ULL}) L.push_back(voxelMade({0, 1, 2}, {0, 1, 2}, {0, 1, 2}, m));
    struct U { PointType lo, hi; const char* name; };
    const std::vector<U> us{{{0, 0, 0}, {1, 1, 1}, "unit"}, {{-1, -1, -1}, {1, 1, 1}, "[-1,1]"}, {{2, -7, 0.5}, {2.5, 3, 100}, "skew"}, {{-0.2, -0.2, -0.2}, {2.3, 2.3, 2.3}, "physical"}};
    for (auto& M : L) for (auto& u : us) for (GridType g : {GridType::b_spline_grid, GridType::hexahedral_fe_grid}) for (int n = 0; n < 3; ++n) {
        if (!r.take()) continue;
        Cfg c; c.lo = {-0.2, -0.2, -0.2}; c.hi = {2.3, 2.3, 2.3}; c.lou = u.lo; c.hiu = u.hi; c.grid = g;
        c.n = n == 0 ? Vector3i{3, 4, 5} : n == 1 ? Vector3i{6, 3, 2} : Vector3i{1, 1, 1}; c.p = n == 0 ? Vector3i{1, 1, 1} : n == 1 ? Vector3i{2, 1, 1} : Vector3i{1, 2, 1};
        if (n == 1) { c.lo = {0, 0, 0}; c.hi = {2, 2, 2}; }
        c.mintri = 20;
        r.run([&] { return cat(M.name, " parametric space ", u.name, g == GridType::b_spline_grid ? " spline" : " fe", " grid ", str(c.n)); }, [&] { vp_rnd::source = Source; MapModel(M.make(), c); });
    }
}

int main(int argc, char** argv) {
    R().init(argc, argv);
    if (R().prop == "C22") RunNnls();
    else if (R().prop == "C23") RunMapping();
    else return 3;
    return R().finish();
}
