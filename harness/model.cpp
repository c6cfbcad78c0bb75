// C08 (elements and totals of a whole model), C12 (segments of a condition), C15 part "kept" (membership after the model is built).
#include "vp.hpp"
#include "families.hpp"
#include "settings.hpp"
#include "queso/embedded_model.h"
#include <omp.h>
#include <random>
using namespace vp;
using namespace queso;
using Model = EmbeddedModel;
static double Source() { static int k = 0; ++k; return 0.31 + 0.047 * (k % 5); }

struct GridSpec {
    P3 lo, hi; std::array<int, 3> n; std::string name;
    P3 cellLo(int i, int j, int k) const { return {X(0, i), X(1, j), X(2, k)}; }
    ld X(int d, int i) const { return lo[d] + (hi[d] - lo[d]) * i / n[(size_t)d]; }
    size_t cells() const { return (size_t)(n[0] * n[1] * n[2]); }
    std::array<int, 3> at(size_t q) const { return {(int)q % n[0], (int)q / n[0] % n[1], (int)q / (n[0] * n[1])}; }
    size_t idx(int i, int j, int k) const { return (size_t)(i + n[0] * (j + n[1] * k)); }
};
static std::vector<GridSpec> grids() {
    auto g = [](P3 l, P3 h, int a, int b, int c, const char* n) { return GridSpec{l, h, {a, b, c}, n}; };
    return {g({0, 0, 0}, {2, 2, 2}, 2, 2, 2, "aligned 2x2x2"), g({-0.5L, -0.5L, -0.5L}, {2.5L, 2.5L, 2.5L}, 3, 3, 3, "halving 3x3x3"),
            g({-1, -1, -1}, {3, 3, 3}, 4, 4, 4, "aligned 4x4x4 with margin"), g({-0.1L, -0.2L, -0.3L}, {2.2L, 2.1L, 2.4L}, 3, 4, 2, "skew 3x4x2"),
            g({0, 0, 0}, {2, 2, 2}, 4, 1, 3, "half aligned 4x1x3"), g({-0.5L, -0.25L, -0.125L}, {2.5L, 2.25L, 2.125L}, 1, 1, 1, "one cell"),
            g({-0.3L, 0, -1}, {2.01L, 2, 3}, 7, 2, 4, "7x2x4"), g({-1, -1, -1}, {2.0005L, 3, 3}, 3, 4, 4, "thin excess"),
            // more cells than 16 bits can number
            g({-1.45L, -1.9L, -2.45L}, {2.2L, 2.1L, 2.05L}, 41, 40, 43, "large 41x40x43"), g({0.9L, -100000, 0.9L}, {2.1L, 2, 2.1L}, 1, 66000, 1, "long 1x66000x1"), g({0.4L, 0.4L, 0.5L}, {2.1L, 2.1L, 2.05L}, 257, 1, 257, "large 257x1x257")};
}
static const size_t NG = 8;   // the grids from here on are large
static Cfg config(const GridSpec& g, ld sc, P3 off) {
    Cfg c;
    c.lo = pt(sc * g.lo + off); c.hi = pt(sc * g.hi + off);
    c.n = {(IndexType)g.n[0], (IndexType)g.n[1], (IndexType)g.n[2]};
    return c;
}
static GridSpec placed(GridSpec g, const Cfg& c) { g.lo = p3(c.lo); g.hi = p3(c.hi); return g; }
static bool near(double a, ld b, ld tol) { return std::abs(a - b) <= tol; }

// ------------------------------------------------------------------------------------------------ C08
static void CheckInfo(Model& m, const GridSpec& g, ld volume, ld vtol, bool closed) {
    const auto& info = m.GetModelInfo();
    auto& bg = info[MainInfo::background_grid_info];
    auto& q = info[MainInfo::quadrature_info];
    size_t full = 0, cut = 0, pf = 0, pc = 0; ld rep = 0;
    for (auto e : m.GetElementViews<>()) {
        auto& pts = e.GetIntegrationPoints();
        (e.IsTrimmed() ? cut : full)++; (e.IsTrimmed() ? pc : pf) += pts.size();
        for (auto& p : pts) rep += (ld)p.Weight() * e.DetJ();
    }
    VP_CHECK(val<IndexType>(bg, BackgroundGridInfo::num_active_elements) == full + cut, "number of active elements ", val<IndexType>(bg, BackgroundGridInfo::num_active_elements), " instead of ", full + cut);
    VP_CHECK(val<IndexType>(bg, BackgroundGridInfo::num_trimmed_elements) == cut, "number of trimmed elements");
    VP_CHECK(val<IndexType>(bg, BackgroundGridInfo::num_full_elements) == full, "number of full elements");
    VP_CHECK(val<IndexType>(bg, BackgroundGridInfo::num_inactive_elements) == g.cells() - full - cut, "number of inactive elements");
    VP_CHECK(val<IndexType>(q, QuadratureInfo::tot_num_points) == pf + pc, "total number of points");
    VP_CHECK(near(val<double>(q, QuadratureInfo::num_of_points_per_full_element), full ? (ld)pf / full : 0, 1e-12L * (1 + pf)), "points per full element");
    VP_CHECK(near(val<double>(q, QuadratureInfo::num_of_points_per_trimmed_element), cut ? (ld)pc / cut : 0, 1e-12L * (1 + pc)), "points per trimmed element");
    VP_CHECK(near(val<double>(q, QuadratureInfo::represented_volume), rep, 1e-10L * std::abs(rep)), "represented volume ", val<double>(q, QuadratureInfo::represented_volume), " instead of ", (double)rep);
    auto& geo = info[MainInfo::embedded_geometry_info];
    if (volume > 0) {
        double v = val<double>(geo, EmbeddedGeometryInfo::volume);
        VP_CHECK(near(v, volume, vtol), "volume of the geometry ", v, " instead of ", (double)volume);
        VP_CHECK(near(val<double>(q, QuadratureInfo::percentage_of_geometry_volume), rep / v * 100, 1e-8L), "percentage of the volume");
    }
    VP_CHECK(val<bool>(geo, EmbeddedGeometryInfo::is_closed) == closed, "is_closed is ", !closed);
}
static void Volume(const Solid& s, const GridSpec& g, const Cfg& c, bool inBox) {
    auto& r = R();
    auto m = Model::Create(MakeSettings(c));
    m.CreateVolume(s.mesh.View());
    P3 D; for (int d = 0; d < 3; ++d) D[d] = (g.hi[d] - g.lo[d]) / g.n[(size_t)d];
    const ld cv = D.x * D.y * D.z, size = std::max({std::abs(g.lo.x), std::abs(g.lo.y), std::abs(g.lo.z), std::abs(g.hi.x), std::abs(g.hi.y), std::abs(g.hi.z)});
    const ld vtol = 1e-11L * size * size * size + 1e-11L * s.volume();
    std::map<IndexType, bool> have;
    std::map<IndexType, double> vol;
    // a cell with a sliver of material may be moved by up to 14 random perturbations of 1e-9 of its size
    const ld len = std::max({D.x, D.y, D.z}), pert = 4e-8L * len * std::max({D.x * D.y, D.y * D.z, D.x * D.z});
    const bool ggq = (int)c.method >= 3;
    for (auto e : m.GetElementViews<>()) {
        VP_CHECK(e.GetId() >= 1 && e.GetId() <= g.cells(), "element id ", e.GetId());
        VP_CHECK(have.emplace(e.GetId(), e.IsTrimmed()).second, "element ", e.GetId(), " exists twice");
        auto ix = g.at(e.GetId() - 1);
        auto b = e.GetCellBounds<CoordinateSpace::global>(), u = e.GetCellBounds<CoordinateSpace::parametric>();
        ld detj = 1;
        for (int d = 0; d < 3; ++d) {
            VP_CHECK(near(b.lower[d], g.X(d, ix[(size_t)d]), 1e-12L * (size + D[d])) && near(b.upper[d], g.X(d, ix[(size_t)d] + 1), 1e-12L * (size + D[d])), "element ", e.GetId(), " has other cell bounds");
            detj *= D[d] / (u.upper[d] - u.lower[d]);
        }
        VP_CHECK(near(e.DetJ(), detj, 1e-9L * detj), "Jacobian determinant ", e.DetJ(), " instead of ", (double)detj);
        double w = 0;
        for (auto& p : e.GetIntegrationPoints()) {
            w += p.Weight();
            VP_CHECK(p.Weight() > 0, "weight ", p.Weight());
            for (int d = 0; d < 3; ++d) { double x = p.Point()[(size_t)d]; VP_CHECK(x >= u.lower[d] - 1e-12 && x <= u.upper[d] + 1e-12, "point of element ", e.GetId(), " outside of its cell"); }
        }
        vol[e.GetId()] = w * e.DetJ();
    }
    ld fullExact = 0, fullGot = 0, tot = 0, want = 0, slack = 0;
    size_t ncut = 0, nfull = 0, nout = 0;
    for (size_t q = 0; q < g.cells(); ++q) {
        auto ix = g.at(q);
        P3 lo = g.cellLo(ix[0], ix[1], ix[2]), hi = g.cellLo(ix[0] + 1, ix[1] + 1, ix[2] + 1);
        ld v = s.volumeIn(lo, hi), f = v / cv;
        auto it = have.find((IndexType)q + 1);
        const ld ft = 1e-7L;
        auto nm = [&] { return cat("cell ", q, " (", ix[0], ",", ix[1], ",", ix[2], "), filled to ", (double)f); };
        if (f > 1 - ft) {
            VP_CHECK(it != have.end(), nm(), " has no element");
            if (!it->second) { fullExact += v; fullGot += vol[(IndexType)q + 1]; }
            ++nfull;
        } else if (f < c.minvol - ft || f < 1e-12L) {
            VP_CHECK(it == have.end(), nm(), " has an element");
            ++nout;
        } else if (f > c.minvol + ft) {
            VP_CHECK(it != have.end(), nm(), " has no element");
            VP_CHECK(it->second, nm(), " is a full element");
            ++ncut;
        }
        if (it == have.end()) { slack += v; continue; }
        tot += vol[(IndexType)q + 1]; want += v;
        if (!ggq || it->second) VP_CHECK(near(vol[(IndexType)q + 1], v, 1e-7L * cv + pert), nm(), ": the points represent the volume ", vol[(IndexType)q + 1], " instead of ", (double)v);
    }
    VP_CHECK(near(fullGot, fullExact, 1e-9L * cv * g.cells()), "the full elements represent ", (double)fullGot, " instead of ", (double)fullExact);
    VP_CHECK(near(tot, want, (1e-7L * cv + pert) * g.cells()), "the model represents ", (double)tot, " instead of ", (double)want);
    if (inBox) VP_CHECK(near(tot + slack, s.volume(), (1e-7L * cv + pert) * g.cells()), "the model represents ", (double)tot, " of the volume ", (double)s.volume());
    CheckInfo(m, g, s.volume(), vtol, true);
    // the two kinds of elements are also available separately, and by id
    size_t a = 0, b = 0;
    for (auto e : m.GetElementViews<Model::BackgroundGridType::ElementFilter::trimmed>()) { VP_CHECK(e.IsTrimmed() && have.count(e.GetId()), "view of the trimmed elements"); ++a; }
    for (auto e : m.GetElementViews<Model::BackgroundGridType::ElementFilter::untrimmed>()) { VP_CHECK(!e.IsTrimmed() && have.count(e.GetId()), "view of the full elements"); ++b; }
    VP_CHECK(a + b == have.size(), "the views of trimmed and full elements do not partition the elements");
    r.states += (long long)g.cells(); r.transitions += (long long)have.size();
    r.count("cut elements", (long long)ncut); r.count("full cells", (long long)nfull); r.count("empty or dropped cells", (long long)nout);
    if (ncut && nfull && nout) { r.count("models with full, cut and empty cells"); r.nontrivial(fnv(r.cur_desc())); }
}
static void RunVolume() {
    auto& r = R(); const bool th = r.thorough();
    const auto G = grids();
    static const IntegrationMethod methods[] = {IntegrationMethod::gauss, IntegrationMethod::gauss_reduced_1, IntegrationMethod::gauss_reduced_2, IntegrationMethod::ggq_optimal, IntegrationMethod::ggq_reduced_1, IntegrationMethod::ggq_reduced_2};
    auto go = [&](const Made& md, size_t gi, size_t h, ld sc, P3 off, bool open = false) {
        if (!r.take()) return;
        GridSpec g = G[gi];
        Cfg c = config(g, sc, off);
        g = placed(g, c);
        size_t mi = h % 6;
        c.method = methods[mi];
        static const Vector3i orders[] = {{1, 1, 1}, {2, 2, 2}, {1, 2, 1}, {2, 1, 1}, {1, 1, 3}, {3, 2, 2}};
        static const Vector3i hi_orders[] = {{2, 2, 2}, {2, 2, 3}, {2, 2, 2}, {3, 2, 2}, {2, 2, 2}, {2, 4, 2}};
        c.p = mi >= 2 ? hi_orders[h / 6 % 6] : orders[h / 6 % (th ? 6 : 5)];
        c.grid = mi >= 3 ? GridType::b_spline_grid : h % 4 == 1 ? GridType::hexahedral_fe_grid : GridType::b_spline_grid;
        if (c.grid == GridType::hexahedral_fe_grid) { c.lou = {-1, -1, -1}; c.hiu = {1, 1, 1}; }
        else { c.lou = {-1.5, 0, 2}; c.hiu = {2.5, 1, 2.25}; if (h % 3 == 0) { c.lou = c.lo; c.hiu = c.hi; } }
        c.minvol = std::array<double, 5>{1e-3, 0.0, 0.2, 0.6, 1e-3}[h % 5];
        c.mintri = h % 2 ? 100 : 4;
        r.run([=] { return cat(md.name, " grid ", g.name, " scale ", (double)sc, " order ", str(c.p), " method ", mi, c.grid == GridType::b_spline_grid ? " b-spline" : " hexahedral", " min ratio ", c.minvol, open ? " one triangle missing" : ""); }, [&] {
            Solid s = md.make();
            if (sc != 1 || norm(off) != 0) s = transformed(s, sc, off);
            if (!open) {
                bool in = true;
                for (IndexType i = 0; i < s.mesh.NumOfVertices(); ++i) for (int d = 0; d < 3; ++d) in = in && s.mesh.Vertex(i)[d] >= g.lo[d] - 1e-12L * sc && s.mesh.Vertex(i)[d] <= g.hi[d] + 1e-12L * sc;
                Volume(s, g, c, in); r.sample(r.cur_desc());
                return;
            }
            // the same surface without one of its triangles
            for (IndexType drop = 0; drop < s.mesh.NumOfTriangles(); ++drop) {
                TriangleMesh t;
                for (IndexType i = 0; i < s.mesh.NumOfVertices(); ++i) t.AddVertex(pt(p3(s.mesh.Vertex(i))));
                for (IndexType i = 0; i < s.mesh.NumOfTriangles(); ++i) if (i != drop) { auto n = s.mesh.Normal(i); t.AddTriangle(s.mesh.TriangleIndices()[i], Vector3d{n[0], n[1], n[2]}); }
                auto m = Model::Create(MakeSettings(c));
                m.CreateVolume(t.View());
                CheckInfo(m, g, 0, 0, false);
                ++r.states;
            }
        });
    };
    size_t h = 0;
    for (uint64_t m = 1; m < 256; ++m) {
        if (!voxelManifold(2, 2, 2, m)) continue;
        auto a = voxelMade({0, 1, 2}, {0, 1, 2}, {0, 1, 2}, m), b = voxelMade({0.1, 0.9, 1.75}, {0.1, 0.9, 1.75}, {0.1, 0.9, 1.75}, m);
        for (size_t gi = 0; gi < NG; ++gi) {
            ++h;
            if (th || (m + gi) % 3 == 0) go(a, gi, h * 7 + m, 1, {});
            if (th || (m + gi) % 6 == 1) go(b, gi, h * 5 + m, 1, {});
            if (th || (m + gi) % 24 == 2) { go(a, gi, h, 250, {-925, 40, 13}); go(a, gi, h, 0.05L, 0.05L * P3{-3.7L, 10, 2}); }
            if ((m + gi) % 64 == 5) go(a, gi, 0, 1, {}, true);
        }
    }
    for (uint64_t m : {uint64_t(128), uint64_t(232), uint64_t(127)}) for (size_t gi = NG; gi < G.size(); ++gi) {
        if (gi == NG + 1 && m == 127) continue;
        go(voxelMade({0.1, 0.9, 1.75}, {0.1, 0.9, 1.75}, {0.1, 0.9, 1.75}, m), gi, m == 127 ? 2 : 5, 1, {});
    }
    latticeTets([&](size_t no, const Made& m) { for (size_t gi = 0; gi < NG; ++gi) { if (th ? (no + gi) % 9 == 0 : (no * 8 + gi) % 151 == 0) go(m, gi, no + gi * 11, 1, {}); if ((no * 8 + gi) % 2503 == 0) go(m, gi, 0, 1, {}, true); } });
    for (size_t k = 4; k <= 5; ++k) latticePrisms(k, [&](size_t no, const Made& m) { for (size_t gi = 0; gi < NG; ++gi) if (th || (no + gi) % (k == 4 ? 12 : 41) == 0) go(m, gi, no * 5 + gi, 1, {}); });
}

// ------------------------------------------------------------------------------------------------ C12
static Poly clipPoly(Poly p, P3 lo, P3 hi) {
    for (int d = 0; d < 3; ++d) for (int s = 0; s < 2; ++s) {
        Poly q; ld pos = s ? hi[d] : lo[d], sg = s ? 1 : -1;
        for (size_t i = 0; i < p.size(); ++i) {
            P3 u = p[i], v = p[(i + 1) % p.size()];
            ld du = sg * (u[d] - pos), dv = sg * (v[d] - pos);
            if (du <= 0) q.push_back(u);
            if ((du < 0 && dv > 0) || (du > 0 && dv < 0)) q.push_back(u + (du / (du - dv)) * (v - u));
        }
        p = q;
        if (p.size() < 3) return {};
    }
    return p;
}
static ld areaOf(const Poly& p) { P3 n; for (size_t i = 1; i + 1 < p.size(); ++i) n = n + cross(p[i] - p[0], p[i + 1] - p[0]); return norm(n) / 2; }
struct Surface { std::string name; std::function<TriangleMesh()> make; };

static void Segments(Model& m, const TriangleMesh& cm, const GridSpec& g, size_t which, IndexType cid) {
    auto& r = R();
    P3 D; for (int d = 0; d < 3; ++d) D[d] = (g.hi[d] - g.lo[d]) / g.n[(size_t)d];
    const ld size = std::max({std::abs(g.lo.x), std::abs(g.lo.y), std::abs(g.lo.z), std::abs(g.hi.x), std::abs(g.hi.y), std::abs(g.hi.z), D.x, D.y, D.z});
    const ld tol = 1e-11L * size;
    ld Amax = std::max({D.x * D.y, D.y * D.z, D.x * D.z}), len = std::max({D.x, D.y, D.z});
    std::vector<std::array<P3, 3>> T; std::vector<P3> N; std::vector<int> onAxis, onIdx; ld total = 0;
    for (IndexType i = 0; i < cm.NumOfTriangles(); ++i) {
        auto& id = cm.TriangleIndices()[i];
        std::array<P3, 3> t{p3(cm.Vertex(id[0])), p3(cm.Vertex(id[1])), p3(cm.Vertex(id[2]))};
        P3 n = cross(t[1] - t[0], t[2] - t[0]); total += norm(n) / 2; n = (1 / norm(n)) * n;
        T.push_back(t); N.push_back(n);
        int ax = -1, ii = 0;
        for (int d = 0; d < 3 && ax < 0; ++d) for (int q = 0; q <= g.n[(size_t)d]; ++q) {
            bool on = true; for (auto& v : t) on = on && std::abs(v[d] - g.X(d, q)) < tol;
            if (on) { ax = d; ii = q; break; }
        }
        onAxis.push_back(ax); onIdx.push_back(ii);
    }
    // exact areas: inside of cells, and on faces (axis, plane index, cell position in the other axes)
    std::map<size_t, ld> inCell; std::map<std::array<int, 4>, ld> onFace;
    ld ref = 0;
    for (size_t i = 0; i < T.size(); ++i) {
        Poly p{T[i][0], T[i][1], T[i][2]};
        if (onAxis[i] < 0) {
            for (size_t q = 0; q < g.cells(); ++q) { auto x = g.at(q); Poly c = clipPoly(p, g.cellLo(x[0], x[1], x[2]), g.cellLo(x[0] + 1, x[1] + 1, x[2] + 1)); if (!c.empty()) { ld a = areaOf(c); if (a > 0) { inCell[q] += a; ref += a; } } }
        } else {
            int d = onAxis[i], e = (d + 1) % 3, f = (d + 2) % 3;
            for (int u = 0; u < g.n[(size_t)e]; ++u) for (int v = 0; v < g.n[(size_t)f]; ++v) {
                P3 lo = g.lo, hi = g.hi; lo[d] -= D[d]; hi[d] += D[d];
                lo[e] = g.X(e, u); hi[e] = g.X(e, u + 1); lo[f] = g.X(f, v); hi[f] = g.X(f, v + 1);
                Poly c = clipPoly(p, lo, hi); if (c.empty()) continue;
                ld a = areaOf(c); onFace[{d, onIdx[i], u, v}] += a; ref += a;
            }
        }
    }
    std::set<IndexType> active;
    for (auto e : m.GetElementViews<>()) active.insert(e.GetId());
    std::map<size_t, ld> gotCell; std::map<std::array<int, 4>, ld> gotFace;
    const auto& cond = m.GetConditions().at(which);
    ld sum = 0, act = 0;
    for (auto& seg : cond.GetSegments()) {
        auto& sm = seg.GetTriangleMesh();
        VP_CHECK(sm.NumOfTriangles() > 0, "empty segment");
        P3 mn{1e30L, 1e30L, 1e30L}, mx{-1e30L, -1e30L, -1e30L};
        for (auto& id : sm.TriangleIndices()) for (int k = 0; k < 3; ++k) { P3 v = p3(sm.Vertex(id[k])); for (int d = 0; d < 3; ++d) { mn[d] = std::min(mn[d], v[d]); mx[d] = std::max(mx[d], v[d]); } }
        std::vector<size_t> cand;
        for (size_t q = 0; q < g.cells(); ++q) {
            auto x = g.at(q); bool in = true;
            for (int d = 0; d < 3; ++d) in = in && mn[d] >= g.X(d, x[(size_t)d]) - tol && mx[d] <= g.X(d, x[(size_t)d] + 1) + tol;
            if (in) cand.push_back(q);
        }
        VP_CHECK(!cand.empty(), "a segment reaches beyond one cell: from (", (double)mn.x, ",", (double)mn.y, ",", (double)mn.z, ") to (", (double)mx.x, ",", (double)mx.y, ",", (double)mx.z, ")");
        ld segArea = 0;
        for (IndexType i = 0; i < sm.NumOfTriangles(); ++i) {
            auto& id = sm.TriangleIndices()[i];
            P3 a = p3(sm.Vertex(id[0])), b = p3(sm.Vertex(id[1])), c = p3(sm.Vertex(id[2])), n = cross(b - a, c - a);
            ld ar = norm(n) / 2; segArea += ar;
            if (ar < 1e-9L * Amax) continue;
            n = (1 / norm(n)) * n;
            P3 sn = p3(sm.Normal(i)), ctr = (1.0L / 3) * (a + b + c);
            bool ok = false;
            for (size_t t = 0; t < T.size() && !ok; ++t) ok = norm(N[t] - n) < 1e-5L + 1e-13L * size * len / ar && norm(N[t] - sn) < 1e-9L && Solid::triDist(ctr, T[t][0], T[t][1], T[t][2]) < tol;
            VP_CHECK(ok, "a segment triangle at (", (double)ctr.x, ",", (double)ctr.y, ",", (double)ctr.z, ") has normal (", (double)n.x, ",", (double)n.y, ",", (double)n.z, "), stored (", (double)sn.x, ",", (double)sn.y, ",", (double)sn.z, "), which the surface has not there");
            bool face = false;
            for (int d = 0; d < 3 && !face; ++d) for (int q = 0; q <= g.n[(size_t)d]; ++q) if (std::abs(a[d] - g.X(d, q)) < tol && std::abs(b[d] - g.X(d, q)) < tol && std::abs(c[d] - g.X(d, q)) < tol) {
                int e = (d + 1) % 3, f = (d + 2) % 3;
                gotFace[{d, q, (int)std::floor((ctr[e] - g.lo[e]) / D[e]), (int)std::floor((ctr[f] - g.lo[f]) / D[f])}] += ar;
                face = true; break;
            }
            if (!face) { VP_CHECK(cand.size() == 1, "a segment fits into several cells"); gotCell[cand[0]] += ar; }
        }
        sum += segArea;
        if (seg.IsInActiveElement()) {
            act += segArea;
            IndexType id = seg.GetParentElement()->GetId();
            VP_CHECK(std::find(cand.begin(), cand.end(), (size_t)id - 1) != cand.end(), "a segment in cell ", cand[0], " is linked to element ", id);
            VP_CHECK(active.count(id), "a segment is linked to an element that does not exist");
            VP_CHECK(seg.GetParentElement()->GetIntegrationPoints().size() < 100000, "");
        } else {
            bool some = false; for (auto q : cand) some = some || !active.count((IndexType)q + 1);
            VP_CHECK(some, "a segment in the active cell ", cand[0], " is not linked to its element");
        }
        r.transitions++;
    }
    const ld at = 1e-9L * Amax + 1e-13L * size * len;
    for (size_t q = 0; q < g.cells(); ++q) VP_CHECK(near((double)gotCell[q], inCell[q], at), "the segments in cell ", q, " have the area ", (double)gotCell[q], " instead of ", (double)inCell[q]);
    for (auto& [k, a] : onFace) VP_CHECK(near((double)gotFace[k], a, at), "the segments on the face (axis ", k[0], ", plane ", k[1], ", position ", k[2], ",", k[3], ") have the area ", (double)gotFace[k], " instead of ", (double)a);
    for (auto& [k, a] : gotFace) VP_CHECK(near((double)onFace[k], a, at), "segments with area ", (double)a, " on a face without surface");
    VP_CHECK(near((double)sum, total, 1e-9L * (total + Amax) + 1e-12L * size * len), "the segments have the area ", (double)sum, " instead of ", (double)total);
    VP_CHECK(near((double)ref, total, 1e-12L * (total + Amax)), "reference areas do not add up");
    auto& ci = *m.GetModelInfo().GetList(MainInfo::conditions_infos_list).at(which);
    VP_CHECK(val<IndexType>(ci, ConditionInfo::condition_id) == cid, "condition id");
    VP_CHECK(near(val<double>(ci, ConditionInfo::surf_area), total, 1e-11L * size * size), "reported area ", val<double>(ci, ConditionInfo::surf_area), " instead of ", (double)total);
    VP_CHECK(near(val<double>(ci, ConditionInfo::perc_surf_area_in_active_domain), act / total * 100, 1e-6L), "reported active percentage ", val<double>(ci, ConditionInfo::perc_surf_area_in_active_domain), " instead of ", (double)(act / total * 100));
    VP_CHECK(&cond.GetInfo() == &ci && cond.NumberOfSegments() == cond.GetSegments().size(), "info of the condition");
    r.count("segments", (long long)cond.GetSegments().size());
    r.count("surface parts on cell faces", (long long)onFace.size());
    if (cond.GetSegments().size() > 1) r.nontrivial(fnv(r.cur_desc()));
    r.states += (long long)g.cells();
}
static TriangleMesh oneTriangle(P3 a, P3 b, P3 c) { MeshBuilder mb; mb.tri(a, b, c); return std::move(mb.m); }
static TriangleMesh xform(const TriangleMesh& s, ld sc, P3 off) { Solid t; t.mesh = TriangleMesh(); for (IndexType i = 0; i < s.NumOfVertices(); ++i) t.mesh.AddVertex(pt(p3(s.Vertex(i)))); for (IndexType i = 0; i < s.NumOfTriangles(); ++i) { auto n = s.Normal(i); t.mesh.AddTriangle(s.TriangleIndices()[i], Vector3d{n[0], n[1], n[2]}); } return std::move(transformed(t, sc, off).mesh); }

static void RunConditions() {
    auto& r = R(); const bool th = r.thorough();
    const auto G = grids();
    auto go = [&](const std::string& name, std::function<std::vector<TriangleMesh>()> conds, std::function<Solid()> vol, size_t gi, ld sc, P3 off) {
        if (!r.take()) return;
        GridSpec g = G[gi];
        Cfg c = config(g, sc, off); g = placed(g, c);
        c.lou = c.lo; c.hiu = c.hi; c.mintri = 4; c.residual = 1e-2; c.minvol = r.idx % 3 ? 1e-3 : 0.3;
        r.run([=] { return cat(name, " grid ", g.name, " scale ", (double)sc, " at ", (double)off.x, vol ? " with volume" : ""); }, [&] {
            auto m = Model::Create(MakeSettings(c));
            Solid s;
            if (vol) { s = vol(); if (sc != 1 || norm(off) != 0) s = transformed(s, sc, off); m.CreateVolume(s.mesh.View()); }
            auto cs = conds();
            std::vector<Unique<Dict>> sets;
            for (size_t i = 0; i < cs.size(); ++i) {
                if (sc != 1 || norm(off) != 0) cs[i] = xform(cs[i], sc, off);
                sets.push_back(DictionaryFactory<key::MainValuesTypeTag>::Create("ConditionSettings"));
                sets.back()->SetValue(ConditionSettings::condition_id, IndexType(5 + 3 * i));
                sets.back()->SetValue(ConditionSettings::input_filename, std::string("none"));
                sets.back()->CheckRequired();
                m.CreateCondition(cs[i].View(), *sets.back());
            }
            VP_CHECK(m.GetConditions().size() == cs.size(), "number of conditions");
            for (size_t i = 0; i < cs.size(); ++i) Segments(m, cs[i], g, i, IndexType(5 + 3 * i));
            r.sample(r.cur_desc());
        });
    };
    const auto L = lattice3();
    auto few = [] { return convexSolid("tet", tetPiece({0, 0, 0}, {1.9L, 0.3L, 0.2L}, {0.2L, 1.8L, 0.3L}, {0.3L, 0.5L, 2}), 1); };
    // every lattice triangle
    size_t no = 0;
    for (size_t a = 0; a < 27; ++a) for (size_t b = a + 1; b < 27; ++b) for (size_t c = b + 1; c < 27; ++c) {
        if (norm(cross(L[b] - L[a], L[c] - L[a])) < 0.5L) continue;
        ++no;
        P3 p = L[a], q = L[b], s = L[c]; if (no & 1) std::swap(q, s);
        auto f = [=] { std::vector<TriangleMesh> v; v.push_back(oneTriangle(p, q, s)); return v; };
        std::string n = cat("triangle ", a, ",", b, ",", c, no & 1 ? " reversed" : "");
        for (size_t gi = 0; gi < NG; ++gi) {
            if (th || (no + gi) % 2 == 0) go(n, f, few, gi, 1, {});
            if (th || (no + gi) % 16 == 0) { go(n, f, few, gi, 250, {-925, 40, 13}); go(n, f, few, gi, 0.05L, 0.05L * P3{-3.7L, 10, 2}); }
            if (th || (no + gi) % 32 == 5) go(n, f, few, gi, 1, {20000, -30000, 10000});
        }
    }
    for (size_t gi = NG; gi < G.size(); ++gi) for (int k = 0; k < 2; ++k)
        go(cat("two triangles, ", k), [=] { std::vector<TriangleMesh> v; v.push_back(oneTriangle({1, 1, 1}, {1.7L, 1.2L, 1.3L}, {1.1L, 1.8L, 2})); v.push_back(oneTriangle({1, 1, 1.2L}, {1.6L, 1.9L, 1.2L}, {1.9L, 1.4L, 1.9L})); return v; },
           k ? std::function<Solid()>([] { return convexSolid("tet", tetPiece({1, 1, 1}, {1.9L, 1.3L, 1.2L}, {1.2L, 1.8L, 1.3L}, {1.3L, 1.5L, 2}), 1); }) : voxelMade({1, 1.4, 1.75}, {1, 1.4, 1.75}, {1, 1.4, 1.75}, 254).make, gi, 1, {});
    // surfaces of solids as conditions of another (or the same) solid
    for (uint64_t m = 1; m < 256; ++m) {
        if (!voxelManifold(2, 2, 2, m)) continue;
        auto a = voxelMade({0, 1, 2}, {0, 1, 2}, {0, 1, 2}, m), b = voxelMade({0.1, 0.9, 1.75}, {0.1, 0.9, 1.75}, {0.1, 0.9, 1.75}, m ^ 0);
        auto t = [](uint64_t o) { return convexSolid("tet", tetPiece({0, 0, 0}, {2, 0.3L, o % 4 * 0.2L}, {0.4L, 2, 0.3L}, {0.2L * (o % 3), 0.5L, 2}), (int)(o % 3)); };
        for (size_t gi = 0; gi < NG; ++gi) {
            if (th || (m + gi) % 4 == 0) go(cat("surface of ", a.name, " on itself"), [=] { std::vector<TriangleMesh> v; v.push_back(a.make().mesh); return v; }, a.make, gi, 1, {});
            if (th || (m + gi) % 4 == 1) go(cat("surfaces of ", b.name, " and a tetrahedron in ", a.name), [=] { std::vector<TriangleMesh> v; v.push_back(b.make().mesh); v.push_back(t(m).mesh); return v; }, a.make, gi, 1, {});
            if (th || (m + gi) % 4 == 2) go(cat("surface of ", a.name, " in a tetrahedron"), [=] { std::vector<TriangleMesh> v; v.push_back(a.make().mesh); return v; }, [=] { return t(m); }, gi, 1, {});
            if (th || (m + gi) % 24 == 3) go(cat("surface of ", a.name, " on itself"), [=] { std::vector<TriangleMesh> v; v.push_back(a.make().mesh); return v; }, a.make, gi, 250, {-925, 40, 13});
        }
    }
}

// ------------------------------------------------------------------------------------------------ C15, elements of a finished model
static void RunKept() {
    auto& r = R();
    const auto G = grids();
    auto go = [&](const Made& md, size_t gi) {
        if (!r.take()) return;
        GridSpec g = G[gi]; Cfg c = config(g, 1, {}); g = placed(g, c); c.lou = c.lo; c.hiu = c.hi; c.mintri = 4; c.residual = 1e-2; c.minvol = 1e-3;
        r.run([=] { return cat(md.name, " grid ", g.name); }, [&] {
            Solid s = md.make();
            Unique<Model> m;
            {   // the mesh the model was made from does not live longer than its creation (as in CreateAllFromSettings)
                auto copy = MakeUnique<TriangleMesh>();
                for (IndexType i = 0; i < s.mesh.NumOfVertices(); ++i) copy->AddVertex(pt(p3(s.mesh.Vertex(i))));
                for (IndexType i = 0; i < s.mesh.NumOfTriangles(); ++i) { auto n = s.mesh.Normal(i); copy->AddTriangle(s.mesh.TriangleIndices()[i], Vector3d{n[0], n[1], n[2]}); }
                m = MakeUnique<Model>(Model::Create(MakeSettings(c)));
                m->CreateVolume(copy->View());
            }
            bool in = false, out = false;
            auto check = [&](const auto& e) {
                auto b = e.template GetCellBounds<CoordinateSpace::global>();
                for (int q = 0; q < 729; ++q) {
                    P3 x; for (int d = 0; d < 3; ++d) x[d] = b.lower[d] + (b.upper[d] - b.lower[d]) * (0.125L * (q / (d == 0 ? 1 : d == 1 ? 9 : 81) % 9));
                    if (s.surfaceDistance(x) < 1e-6L) continue;
                    bool got = e.template IsInsideActiveDomain<CoordinateSpace::global>(pt(x)), want = s.inside(x);
                    ++r.states;
                    VP_CHECK(got == want, "element ", e.GetId(), " says ", got, " for the point (", (double)x.x, ",", (double)x.y, ",", (double)x.z, ")");
                    (want ? in : out) = true;
                }
            };
            using F = Model::BackgroundGridType::ElementFilter;
            for (auto& e : m->GetElements<F::trimmed>()) check(e);
            for (auto& e : m->GetElements<F::untrimmed>()) check(e);
            if (in && out) r.nontrivial(fnv(r.cur_desc()));
            r.sample(r.cur_desc());
        });
    };
    for (uint64_t m = 1; m < 256; ++m) if (voxelManifold(2, 2, 2, m)) for (size_t gi : {size_t(1), size_t(3)}) if (r.thorough() || (m + gi) % 3 == 0) go(voxelMade({0, 1, 2}, {0, 1, 2}, {0, 1, 2}, m), gi);
    latticeTets([&](size_t no, const Made& m) { if (no % (r.thorough() ? 40 : 320) == 0) for (size_t gi : {size_t(1), size_t(3), size_t(5)}) go(m, gi); });
}

int main(int argc, char** argv) {
    auto& r = R(); r.init(argc, argv);
    omp_set_num_threads(1);
    vp_rnd::source = &Source;
    if (r.prop == "C08") RunVolume();
    else if (r.prop == "C12") RunConditions();
    else RunKept();
    return r.finish();
}
