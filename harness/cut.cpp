// C14 (boundary mesh of a cut cell), C15 (membership in a cut cell) and C07 (its quadrature) against exact references.
#include "vp.hpp"
#include "families.hpp"
#include "settings.hpp"
#include "queso/embedding/brep_operator.h"
#include "queso/embedding/element_builders.hpp"
#include "queso/containers/integration_point.hpp"
#include "queso/containers/boundary_integration_point.hpp"
#include "queso/embedding/octree.h"
#include <omp.h>
using namespace vp;
using namespace queso;
using Builder = TrimmedElementBuilder<IntegrationPoint, BoundaryIntegrationPoint>;

static double g_frac = 0.3;      // answer of every random draw
static double Source() {
    // the three components of a direction differ so that it is not special
    static int k = 0; ++k;
    double f = g_frac + 0.05 * (k % 3) * (g_frac < 0.5 ? 1 : -1) * 0.7310585;
    return f;
}
struct CellBox { P3 lo, hi; };

static bool triMeets(P3 a, P3 b, P3 c, P3 lo, P3 hi) {
    Poly p{a, b, c};
    for (int d = 0; d < 3; ++d) for (int s = 0; s < 2; ++s) {
        Poly q; ld pos = s ? hi[d] : lo[d]; ld sg = s ? 1 : -1;
        for (size_t i = 0; i < p.size(); ++i) {
            P3 u = p[i], v = p[(i + 1) % p.size()];
            ld du = sg * (u[d] - pos), dv = sg * (v[d] - pos);
            if (du <= 0) q.push_back(u);
            if ((du < 0 && dv > 0) || (du > 0 && dv < 0)) q.push_back(u + (du / (du - dv)) * (v - u));
        }
        p = q;
        if (p.empty()) return false;
    }
    return true;
}
static bool meets(const Solid& s, P3 lo, P3 hi) {
    for (auto& t : s.mesh.TriangleIndices())
        if (triMeets(p3(s.mesh.Vertex(t[0])), p3(s.mesh.Vertex(t[1])), p3(s.mesh.Vertex(t[2])), lo, hi)) return true;
    return false;
}
static double g_maxvol, g_maxclosed, g_maxmom, g_maxbox;
static void peak(const char* n, double v) { auto& c = R().counters[std::string("max_") + n + "_1e-15"]; c = std::max(c, (long long)std::min(1e18, v * 1e15)); }

static void Check14(const Solid& s, CellBox c, const TrimmedDomain* d, ld exact, ld cellvol, double minratio) {
    auto& r = R();
    P3 D = c.hi - c.lo; ld len = std::max({D.x, D.y, D.z});
    if (!d) {
        VP_CHECK(exact / cellvol < minratio * (1 + 1e-6L) + 1e-9L, "no cut domain although the material fills ", (double)(exact / cellvol), " of the cell");
        r.count("cells below the minimum volume ratio");
        return;
    }
    VP_CHECK(exact / cellvol > minratio * (1 - 1e-6L) - 1e-9L, "cut domain although the material fills only ", (double)(exact / cellvol), " of the cell");
    auto mesh = d->GetBoundaryMesh();
    P3 area; ld vol = 0, abs_area = 0; P3 mn{1e30L, 1e30L, 1e30L}, mx{-1e30L, -1e30L, -1e30L};
    P3 ctr = 0.5L * (c.lo + c.hi);
    ld slack = std::max(3e-8L * len, 1.5e-8L);      // up to 14 perturbations of at most 1e-9 (relative, but at least absolute)
    ld badnormal = 0;
    mesh.VisitEachTriangle<WithNormals>([&](const auto& t) {
        P3 a = p3(t.P1), b = p3(t.P2), e = p3(t.P3), n = p3(t.Normal);
        P3 w = 0.5L * cross(b - a, e - a);
        area = area + w; abs_area += norm(w); vol += dot(a - ctr, w) / 3;
        // orientation by vertices and stored normal agree
        badnormal += norm(w - norm(w) * n);
        for (P3 q : {a, b, e}) for (int i = 0; i < 3; ++i) { mn[i] = std::min(mn[i], q[i]); mx[i] = std::max(mx[i], q[i]); }
    });
    for (int i = 0; i < 3; ++i) VP_CHECK(mn[i] >= c.lo[i] - slack && mx[i] <= c.hi[i] + slack, "the boundary mesh leaves the cell in direction ", i, ": [", (double)mn[i], ",", (double)mx[i], "]");
    double ev = (double)(std::abs(vol - exact) / cellvol), ea = (double)(norm(area) / (len * len)), en = (double)(badnormal / (len * len));
    peak("volume_error", ev); peak("closure_error", ea); peak("normal_error", en);
    VP_CHECK(vol >= 0 && ev < 1e-7 + 2e-8L / std::min({D.x, D.y, D.z}), "the boundary mesh encloses ", (double)vol, " but the material part is ", (double)exact);
    VP_CHECK(ea < 1e-7, "the boundary mesh is not closed: area vectors sum to (", (double)area.x, ",", (double)area.y, ",", (double)area.z, ")");
    VP_CHECK(en < 1e-6, "stored normals and vertex order disagree: ", en);
    // tight bounds
    auto eb = ElementBounds{{pt(c.lo), pt(c.hi)}, {pt(c.lo), pt(c.hi)}};
    auto bb = d->GetBounds<CoordinateSpace::global>(eb);
    P3 emn{1e30L, 1e30L, 1e30L}, emx{-1e30L, -1e30L, -1e30L};
    for (auto& p : s.clipped(c.lo, c.hi)) for (auto& f : p.faces) for (auto& q : f) for (int i = 0; i < 3; ++i) { emn[i] = std::min(emn[i], q[i]); emx[i] = std::max(emx[i], q[i]); }
    for (int i = 0; i < 3; ++i) {
        double e = (double)std::max(std::abs(bb.lower[i] - emn[i]), std::abs(bb.upper[i] - emx[i]));
        peak("bounds_error", e / (double)len);
        VP_CHECK(e < std::max(1e-7L * len, 1.6e-8L), "bounds of the cut part in direction ", i, ": [", bb.lower[i], ",", bb.upper[i], "] instead of [", (double)emn[i], ",", (double)emx[i], "]");
    }
    ++r.states;
}

static void Check15(const Solid& s, CellBox c, const TrimmedDomain* d) {
    auto& r = R();
    if (!d) return;
    P3 D = c.hi - c.lo; ld len = std::max({D.x, D.y, D.z});
    bool in = false, out = false;
    auto eb = ElementBounds{{pt(c.lo), pt(c.hi)}, {pt(c.lo), pt(c.hi)}};
    static const ld F[] = {0.07L, 0.25L, 0.5L, 0.8L, 0.95L, 0.3333L};
    for (ld x : F) for (ld y : F) for (ld z : F) {
        P3 p = p3(pt(P3{c.lo.x + x * D.x, c.lo.y + y * D.y, c.lo.z + z * D.z}));
        if (s.surfaceDistance(p) < 1e-6L * len) continue;
        bool want = s.inside(p);
        (want ? in : out) = true;
        ++r.transitions;
        vp_rnd::draws = 0;
        bool got = d->IsInside(pt(p));
        if (vp_rnd::draws) { r.count("points decided by the global query"); r.sample(cat(r.cur_desc(), " global query for (", (double)p.x, ",", (double)p.y, ",", (double)p.z, ")")); }
        VP_CHECK(got == want, "point (", (double)p.x, ",", (double)p.y, ",", (double)p.z, ") of the cut cell is ", want ? "inside" : "outside", " but reported otherwise");
        VP_CHECK(d->IsInside<CoordinateSpace::parametric>(pt(p), eb) == want, "parametric query of (", (double)p.x, ",", (double)p.y, ",", (double)p.z, ")");
    }
    ++r.states;
    if (in && out) r.nontrivial(fnv(r.cur_desc()));
}

// normalised Legendre polynomial on [-1,1]
static ld leg(int n, ld x) { ld a = 1, b = x; if (n == 0) return 1; for (int k = 2; k <= n; ++k) { ld c = ((2 * k - 1) * x * b - (k - 1) * a) / k; a = b; b = c; } return b; }

static void Check07(const Solid& s, CellBox c, const BRepOperator& op, ld exact, ld cellvol, Vector3i p, double residual, double minratio, bool iga) {
    auto& r = R();
    Cfg cfg; cfg.p = p; cfg.residual = residual; cfg.minvol = minratio;
    cfg.mintri = std::max({p[0], p[1], p[2]}) > 3 ? 2000 : 100;
    auto set = MakeSettings(cfg);
    Builder b(*set, op);
    P3 D = c.hi - c.lo;
    ElementBounds eb{{pt(c.lo), pt(c.hi)}, iga ? BoundingBoxType{pt(c.lo), pt(c.hi)} : BoundingBoxType{PointType{-1, 2, 0.5}, PointType{1, 2.25, 4}}};
    auto e = b.Build(7, eb);
    if (!e) {
        VP_CHECK(exact / cellvol < minratio * (1 + 1e-6L) + 1e-9L, "no element although the material fills ", (double)(exact / cellvol), " of the cell");
        return;
    }
    auto& pts = e->GetIntegrationPoints();
    // the residual the fitting reports for the same domain
    double reported = -1;
    {
        auto d = op.pGetTrimmedDomain(pt(c.lo), pt(c.hi), minratio, cfg.mintri, true);
        VP_CHECK(d, "cut domain is missing on the second request");
        Builder::ElementType el(7, eb, std::move(*d));
        reported = QuadratureTrimmedElement<Builder::ElementType>::AssembleIPs(el, p, residual, std::nullopt, 0);
        VP_CHECK(el.GetIntegrationPoints().size() == pts.size(), "two runs differ");
    }
    const size_t nf = (p[0] + 1) * (p[1] + 1) * (p[2] + 1);
    VP_CHECK(pts.size() >= 1 && pts.size() <= nf, pts.size(), " integration points for order ", str(p));
    std::vector<ld> ref(nf, 0), got(nf, 0);
    int pm = (int)std::max({p[0], p[1], p[2]});
    auto basis = [&](P3 x, std::vector<ld>& v, ld w) {   // x in [-1,1]^3
        ld L[3][9];
        for (int d = 0; d < 3; ++d) for (int k = 0; k <= pm; ++k) L[d][k] = leg(k, x[d]);
        size_t q = 0;
        for (size_t i = 0; i <= p[0]; ++i) for (size_t j = 0; j <= p[1]; ++j) for (size_t k = 0; k <= p[2]; ++k) v[q++] += w * L[0][i] * L[1][j] * L[2][k];
    };
    auto norm01 = [&](P3 x, P3 lo, P3 hi) { P3 q; for (int d = 0; d < 3; ++d) q[d] = (2 * x[d] - lo[d] - hi[d]) / (hi[d] - lo[d]); return q; };
    int nq = (int)(p[0] + p[1] + p[2] + 3) / 2 + 1;
    for (auto& pc : s.clipped(c.lo, c.hi)) pc.tets([&](P3 a, P3 b2, P3 c2, P3 d2) {
        tetQuad(a, b2, c2, d2, nq, [&](P3 x, ld w) { basis(norm01(x, c.lo, c.hi), ref, w); }); });
    P3 ulo = p3(eb.parametric.lower), uhi = p3(eb.parametric.upper);
    ld detJ = cellvol / ((uhi.x - ulo.x) * (uhi.y - ulo.y) * (uhi.z - ulo.z));
    for (auto& ip : pts) {
        VP_CHECK(ip.Weight() > 0 && std::isfinite(ip.Weight()), "weight ", ip.Weight());
        P3 u{ip[0], ip[1], ip[2]};
        P3 nn = norm01(u, ulo, uhi), x;
        for (int d = 0; d < 3; ++d) {
            VP_CHECK(std::abs(nn[d]) <= 1 + 1e-12L, "a point lies outside of the cell in direction ", d);
            x[d] = c.lo[d] + (nn[d] + 1) / 2 * D[d];
        }
        VP_CHECK(s.inside(x) || s.surfaceDistance(x) < 1e-7L * norm(D), "point (", (double)x.x, ",", (double)x.y, ",", (double)x.z, ") is not in the material");
        basis(nn, got, ip.Weight() * detJ);
    }
    ld num = 0, den = 0;
    for (size_t i = 0; i < nf; ++i) { num += (got[i] - ref[i]) * (got[i] - ref[i]); den += ref[i] * ref[i]; }
    double err = (double)std::sqrt(num / den);
    std::string tag = cat("moment_error_p", p[0], p[1], p[2]);
    peak(tag.c_str(), err);
    const double cubature = pm == 1 ? 2e-8 : pm == 2 ? 1e-6 : pm == 3 ? 2e-5 : pm <= 5 ? 1e-8 : pm == 6 ? 1e-6 : pm == 7 ? 1e-5 : 1e-4;      // boundary cubature of degree 6 on at least 100 (2000 for orders above 3) triangles, perturbed cells
    VP_CHECK(reported <= residual, "the requested residual ", residual, " is missed: ", reported);
    VP_CHECK(err < 2 * residual + cubature, "order ", str(p), ": the points reproduce the moments only up to ", err);
    // fictitious domain: the Gauss points of the cell outside of the material are added with weights scaled by alpha
    if (r.idx % 3 == 0) {
        const double alpha = std::array<double, 5>{0.125, 1.0, 1e-8, 1e-3, 2.5}[r.idx / 3 % 5];
        (*set)[MainSettings::trimmed_quadrature_rule_settings].SetValue(TrimmedQuadratureRuleSettings::activate_fictitious_domain_with_alpha, alpha);
        Builder ba(*set, op);
        auto ea = ba.Build(7, eb);
        VP_CHECK(ea && ea->GetIntegrationPoints().size() >= pts.size(), "fictitious domain loses points");
        auto& pa = ea->GetIntegrationPoints();
        for (size_t i = 0; i < pts.size(); ++i) VP_CHECK(pa[i].Weight() == pts[i].Weight() && pa[i].Point() == pts[i].Point(), "fictitious domain changes the rule of the material part");
        size_t q = pts.size();
        std::vector<std::pair<ld, ld>> g[3];
        for (int d = 0; d < 3; ++d) { g[d] = gl((int)p[d] + 1); std::sort(g[d].begin(), g[d].end()); }
        ld pv = (uhi.x - ulo.x) * (uhi.y - ulo.y) * (uhi.z - ulo.z);
        std::vector<std::array<ld, 4>> want, opt;
        for (auto& [x, wx] : g[0]) for (auto& [y, wy] : g[1]) for (auto& [z, wz] : g[2]) {
            P3 u{ulo.x + x * (uhi.x - ulo.x), ulo.y + y * (uhi.y - ulo.y), ulo.z + z * (uhi.z - ulo.z)};
            P3 X{c.lo.x + x * D.x, c.lo.y + y * D.y, c.lo.z + z * D.z};
            if (s.surfaceDistance(X) < 1e-6L * norm(D)) opt.push_back({u.x, u.y, u.z, wx * wy * wz * pv * (ld)alpha});
            else if (!s.inside(X)) want.push_back({u.x, u.y, u.z, wx * wy * wz * pv * (ld)alpha});
        }
        VP_CHECK(pa.size() - q >= want.size() && pa.size() - q <= want.size() + opt.size(), pa.size() - q, " fictitious points instead of ", want.size());
        for (size_t i = q; i < pa.size(); ++i) {
            bool ok = false;
            for (auto* v : {&want, &opt}) for (size_t k = 0; !ok && k < v->size(); ++k) {   // every point at most once
                auto& w = (*v)[k];
                bool m = std::abs(pa[i].Weight() - w[3]) < 1e-10L * pv * alpha;
                for (int d = 0; d < 3; ++d) m = m && std::abs(pa[i][(size_t)d] - w[(size_t)d]) < 1e-10L * (uhi[d] - ulo[d]);
                if (m) { ok = true; v->erase(v->begin() + (std::ptrdiff_t)k); }
            }
            VP_CHECK(ok, "fictitious point ", i - q, " with weight ", pa[i].Weight(), " is no Gauss point of the cell outside of the material");
        }
        VP_CHECK(want.empty(), want.size(), " Gauss points of the cell outside of the material are missing");
        r.count("cells with fictitious points", pa.size() > q);
    }
    ++r.states;
    r.nontrivial(fnv(r.cur_desc()));
}

// ------------------------------------------------------------------------------------------------ C26
// Reference octree: exact state of every box, refined by the same depth limits, for every history of refinements.
struct RefNode { P3 lo, hi, ulo, uhi; int state = 0; size_t level = 0; std::vector<RefNode> kids; };   // 0 cut, 1 inside, -1 outside
struct Ambiguous {};
static std::vector<Piece> clipAll(const std::vector<Piece>& ps, P3 lo, P3 hi) { std::vector<Piece> q; for (auto& p : ps) { auto c = p.clipBox(lo, hi); if (!c.empty()) q.push_back(c); } return q; }
static void grow(RefNode& n, const std::vector<Piece>& ps, const std::vector<std::array<size_t, 2>>& hist) {
    bool split = false;
    for (auto& h : hist) split = split || n.level < h[0] || (n.level < h[1] && n.state == 0);
    if (!split) return;
    static const int O[8][3] = {{0, 0, 0}, {1, 0, 0}, {1, 1, 0}, {0, 1, 0}, {0, 0, 1}, {1, 0, 1}, {1, 1, 1}, {0, 1, 1}};
    for (auto& o : O) {
        RefNode k; k.level = n.level + 1;
        for (int d = 0; d < 3; ++d) {
            ld m = 0.5L * (n.lo[d] + n.hi[d]), u = 0.5L * (n.ulo[d] + n.uhi[d]);
            k.lo[d] = o[d] ? m : n.lo[d]; k.hi[d] = o[d] ? n.hi[d] : m; k.ulo[d] = o[d] ? u : n.ulo[d]; k.uhi[d] = o[d] ? n.uhi[d] : u;
        }
        auto q = clipAll(ps, k.lo, k.hi);
        ld v = 0; for (auto& p : q) v += p.volume();
        ld ratio = v / ((k.hi.x - k.lo.x) * (k.hi.y - k.lo.y) * (k.hi.z - k.lo.z));
        if (ratio < 1e-14L) k.state = -1; else if (ratio > 1 - 1e-14L) k.state = 1;
        else if (ratio < 1e-12L || ratio > 1 - 1e-12L) throw Ambiguous{};
        if (k.state == -1) continue;
        grow(k, q, hist);
        n.kids.push_back(std::move(k));
    }
}
static void Check26(const Solid& s, CellBox c, TrimmedDomain&& dom, bool th) {
    auto& r = R();
    P3 D = c.hi - c.lo;
    const bool iga = r.idx & 1;
    ElementBounds eb{{pt(c.lo), pt(c.hi)}, iga ? BoundingBoxType{pt(c.lo), pt(c.hi)} : BoundingBoxType{PointType{-1, 2, 0.5}, PointType{1, 2.25, 4}}};
    Builder::ElementType el(7, eb, std::move(dom));
    P3 ulo = p3(eb.parametric.lower), uhi = p3(eb.parametric.upper), U = uhi - ulo;
    std::vector<std::vector<std::array<size_t, 2>>> hists{{}, {{0, 0}}, {{0, 1}}, {{1, 1}}, {{0, 2}}, {{1, 2}}, {{2, 2}}, {{0, 1}, {0, 2}}, {{1, 1}, {0, 2}}, {{0, 2}, {2, 2}}, {{1, 2}, {0, 1}}};
    if (th || fnv(r.cur_desc()) % 4 == 0) { hists.push_back({{0, 3}}); hists.push_back({{1, 3}}); hists.push_back({{0, 1}, {1, 1}, {0, 3}}); hists.push_back({{2, 2}, {0, 3}}); }
    auto pcs = clipAll(s.pieces, c.lo, c.hi);
    const std::vector<Vector3i> orders = r.idx % 2 ? std::vector<Vector3i>{{1, 1, 1}, {0, 2, 1}} : std::vector<Vector3i>{{2, 1, 1}, {1, 1, 3}};
    {
        Octree<Builder::ElementType> t(&el, eb.global, eb.parametric); bool threw = false;
        try { t.Refine(2, 1); } catch (const std::exception&) { threw = true; }
        VP_CHECK(threw, "a minimum depth above the maximum depth is accepted");
    }
    for (auto& h : hists) {
        RefNode root; root.lo = c.lo; root.hi = c.hi; root.ulo = ulo; root.uhi = uhi;
        std::string hs; for (auto& x : h) hs += cat(" Refine(", x[0], ",", x[1], ")");
        try { grow(root, pcs, h); } catch (const Ambiguous&) { r.count("ambiguous boxes left out"); continue; }
        size_t leaves = 0, nodes = 0, lv = 0;
        std::vector<const RefNode*> L;
        std::function<void(const RefNode&)> walk = [&](const RefNode& n) { ++nodes; lv = std::max(lv, n.level); if (n.kids.empty()) { ++leaves; L.push_back(&n); } for (auto& k : n.kids) walk(k); };
        walk(root);
        Octree<Builder::ElementType> t(&el, eb.global, eb.parametric);
        for (auto& x : h) { t.Refine(x[0], x[1]); ++r.transitions; }
        if (!h.empty()) VP_CHECK(t.MinRefinementLevel() == h.back()[0] && t.MaxRefinementLevel() == h.back()[1], "reported depth limits");
        VP_CHECK(t.NumberOfNodes() == nodes && t.NumberOfLeafs() == leaves, hs, ": ", t.NumberOfNodes(), " nodes and ", t.NumberOfLeafs(), " leaves instead of ", nodes, " and ", leaves);
        ++r.traces;
        r.count("leaves compared", (long long)leaves);
        for (auto& o : orders) {
            auto pts = t.pGetIntegrationPoints<Builder::ElementType>(o);
            std::vector<IntegrationPoint> add; t.AddIntegrationPoints<Builder::ElementType>(add, o);
            VP_CHECK(add.size() == pts->size(), "AddIntegrationPoints and pGetIntegrationPoints differ");
            for (size_t i = 0; i < add.size(); ++i) VP_CHECK(add[i].Point() == (*pts)[i].Point() && add[i].Weight() == (*pts)[i].Weight(), "AddIntegrationPoints and pGetIntegrationPoints differ");
            // expected points, keyed by their position on a fine lattice
            std::map<std::array<long long, 3>, std::pair<ld, int>> want;      // weight, 1 required / 0 optional
            auto key = [&](P3 u) { return std::array<long long, 3>{llroundl((u.x - ulo.x) / U.x * 1e9L), llroundl((u.y - ulo.y) / U.y * 1e9L), llroundl((u.z - ulo.z) / U.z * 1e9L)}; };
            std::vector<std::pair<ld, ld>> g[3];
            for (int d = 0; d < 3; ++d) g[d] = gl((int)o[(size_t)d] + 1);
            for (auto* n : L) for (auto& [x, wx] : g[0]) for (auto& [y, wy] : g[1]) for (auto& [z, wz] : g[2]) {
                P3 e = n->uhi - n->ulo, f = n->hi - n->lo;
                P3 u{n->ulo.x + x * e.x, n->ulo.y + y * e.y, n->ulo.z + z * e.z}, X{n->lo.x + x * f.x, n->lo.y + y * f.y, n->lo.z + z * f.z};
                int need = 1;
                if (n->state == 0) { if (s.surfaceDistance(X) < 1e-7L * norm(D)) need = 0; else if (!s.inside(X)) continue; }
                want[key(u)] = {wx * wy * wz * e.x * e.y * e.z, need};
            }
            size_t req = 0; for (auto& [k, v] : want) req += (size_t)v.second;
            std::set<std::array<long long, 3>> seen;
            ld sum = 0;
            for (auto& p : *pts) {
                auto k0 = key(P3{p[0], p[1], p[2]});
                bool ok = false;
                for (int q = 0; q < 27 && !ok; ++q) {
                    auto k = k0; k[0] += q % 3 - 1; k[1] += q / 3 % 3 - 1; k[2] += q / 9 - 1;
                    auto it = want.find(k);
                    if (it == want.end() || seen.count(k)) continue;
                    VP_CHECK(std::abs(p.Weight() - it->second.first) <= 1e-10L * it->second.first && p.Weight() > 0, hs, ": weight ", p.Weight(), " instead of ", (double)it->second.first);
                    seen.insert(k); req -= (size_t)it->second.second; ok = true; sum += p.Weight();
                }
                VP_CHECK(ok, hs, " order ", str(o), ": the point (", p[0], ",", p[1], ",", p[2], ") is no Gauss point of a leaf in the material");
            }
            VP_CHECK(req == 0, hs, " order ", str(o), ": ", req, " points of leaves in the material are missing");
            r.count("points compared", (long long)pts->size());
            ++r.states;
        }
        if (lv > 1) r.nontrivial(fnv(cat(r.cur_desc(), hs)));
    }
}

int main(int argc, char** argv) {
    auto& r = R(); r.init(argc, argv);
    omp_set_num_threads(1);
    vp_rnd::source = &Source;
    const bool th = r.thorough();
    const std::string prop = r.prop;
    // cells relative to solids that live in [0,2]^3
    std::vector<CellBox> cells = {
        {{0.5L, 0.5L, 0.5L}, {1.5L, 1.5L, 1.5L}}, {{0.25L, 0.25L, 0.25L}, {1.3L, 1.2L, 1.1L}}, {{-0.3L, -0.2L, -0.1L}, {0.61L, 1.2L, 0.7L}},
        {{0.7L, 0.9L, 1.1L}, {1.9L, 2.3L, 2.2L}}, {{-0.5L, -0.5L, -0.5L}, {2.5L, 2.5L, 2.5L}}, {{0.4L, -0.5L, 1.2L}, {0.55L, 2.5L, 1.45L}},
        {{0, 0, 0}, {2, 2, 2}}, {{0, 0, 0}, {1, 1, 1}}, {{1, 0, 0}, {2, 1, 1}}, {{0, 1, 1}, {1, 2, 2}}, {{0, 0, 0.5L}, {1, 2, 1.5L}}, {{0.5L, 0, 0}, {1, 1, 2}},
        {{1.9L, 1.8L, 1.7L}, {3, 3, 3}}, {{0, 0.3L, 0.3L}, {2, 0.6L, 1.7L}}};
    auto go = [&](const Made& m, size_t ci, ld sc, P3 off, const std::string& tag) {
        if (!r.take()) return;
        CellBox c{sc * cells[ci].lo + off, sc * cells[ci].hi + off};
        c.lo = p3(pt(c.lo)); c.hi = p3(pt(c.hi));
        r.run([=] { return cat(m.name, " cell (", (double)c.lo.x, ",", (double)c.lo.y, ",", (double)c.lo.z, ")-(", (double)c.hi.x, ",", (double)c.hi.y, ",", (double)c.hi.z, ") scale ", (double)sc, tag); }, [&] {
            Solid s = m.make();
            if (sc != 1 || norm(off) != 0) s = transformed(s, sc, off);
            P3 D = c.hi - c.lo; ld e = 1e-9L * std::max({D.x, D.y, D.z});
            if (!meets(s, c.lo + P3{e, e, e}, c.hi - P3{e, e, e})) { r.count("not cut"); return; }
            ld cellvol = D.x * D.y * D.z, exact = s.volumeIn(c.lo, c.hi);
            BRepOperator op(s.mesh);
            const double minratio = 1e-3;
            if (prop == "C26") {
                g_frac = 0.3;
                auto d = op.pGetTrimmedDomain(pt(c.lo), pt(c.hi), minratio, 100, false);
                if (!d) { r.count("cells below the minimum volume ratio"); return; }
                Check26(s, c, std::move(*d), th);
                r.sample(r.cur_desc());
                return;
            }
            if (prop != "C07") {
                for (double f : {0.3, 0.0, 1 - 0x1p-53}) {
                    g_frac = f; vp_rnd::draws = 0;
                    auto d = op.pGetTrimmedDomain(pt(c.lo), pt(c.hi), minratio, 100, false);
                    bool drew = vp_rnd::draws > 0;
                    if (drew) r.count("perturbed cells");
                    if (prop == "C14") { Check14(s, c, d.get(), exact, cellvol, minratio); r.nontrivial(fnv(r.cur_desc())); }
                    else Check15(s, c, d.get());
                    if (!drew && prop == "C14") break;
                }
                if (prop == "C14") {   // other minimum numbers of triangles
                    auto d = op.pGetTrimmedDomain(pt(c.lo), pt(c.hi), minratio, 1, true);
                    Check14(s, c, d.get(), exact, cellvol, minratio);
                    if (d) VP_CHECK(d->GetBoundaryMesh().NumOfTriangles() >= 4, "fewer than four triangles");
                    d = op.pGetTrimmedDomain(pt(c.lo), pt(c.hi), 0.3, 300, true);
                    Check14(s, c, d.get(), exact, cellvol, 0.3);
                    if (d) VP_CHECK(d->GetBoundaryMesh().NumOfTriangles() >= 300, "minimum number of boundary triangles");
                }
            } else {
                g_frac = 0.3;
                size_t h = (size_t)(fnv(m.name) % 5) + ci;
                std::vector<Vector3i> ps = {{1, 1, 1}, {2, 2, 2}};
                if (th) ps = {{1, 1, 1}, {2, 2, 2}, {1, 2, 3}, {3, 1, 1}, {3, 3, 3}};
                else ps = {ps[h % 2], h % 5 == 0 ? Vector3i{1, 2, 3} : h % 5 == 2 ? Vector3i{3, 1, 1} : ps[(h + 1) % 2]};
                // every order up to eight in one direction
                if (m.name.compare(0, 6, "voxels") == 0 && (h % 3 == 0 || th)) { Vector3i q{1, 1, 1}; q[(h + r.idx) % 3] = 4 + (IndexType)((h / 3 + r.idx) % 5); ps.push_back(q); }
                for (auto& p : ps) Check07(s, c, op, exact, cellvol, p, h % 7 ? 1e-10 : 1e-6, minratio, h & 1);
            }
            r.sample(r.cur_desc());
        });
    };
    // weights and facet areas of a cut cell have to stay above the absolute tolerances (1e-14) of the code
    const ld small = prop == "C07" ? 0.05L : 1e-3L;
    auto all = [&](const Made& m, size_t no, size_t stride) { for (size_t ci = 0; ci < cells.size(); ++ci) if ((no + ci) % stride == 0) go(m, ci, 1, {}, ""); };
    size_t st = prop == "C07" ? 2 : prop == "C26" ? 5 : 1;
    for (uint64_t m = 1; m < 256; ++m) {
        if (!voxelManifold(2, 2, 2, m) && prop != "C15") continue;
        all(voxelMade({0, 1, 2}, {0, 1, 2}, {0, 1, 2}, m), m, th ? 1 : st);
        all(voxelMade({0.1, 0.9, 2.05}, {0.1, 0.9, 2.05}, {0.1, 0.9, 2.05}, m), m, th ? 1 : st);
    }
    latticeTets([&](size_t no, const Made& m) { all(m, no, th ? 1 : (prop == "C07" ? 14 : prop == "C14" ? 3 : prop == "C26" ? 100 : 28)); });
    // other scales and offsets
    for (uint64_t m = 1; m < 256; ++m) if (voxelManifold(2, 2, 2, m)) for (size_t ci = 0; ci < cells.size(); ++ci) {
        if (!th && ((prop == "C07" && (m + ci) % 32) || (prop == "C26" && (m + ci) % 20))) continue;
        go(voxelMade({0, 1, 2}, {0, 1, 2}, {0, 1, 2}, m), ci, small, small * P3{-3.7L, 10, 2}, "");
        go(voxelMade({0, 1, 2}, {0, 1, 2}, {0, 1, 2}, m), ci, 250, {-925, 40, 13}, "");
    }
    latticeTets([&](size_t no, const Made& m) { for (size_t ci = 0; ci < cells.size(); ++ci) if ((no + ci) % (prop == "C07" ? 200 : th ? 20 : prop == "C26" ? 400 : 100) == 0) {
        go(m, ci, small, small * P3{-3.7L, 10, 2}, ""); go(m, ci, 250, {-925, 40, 13}, ""); } });
    for (size_t k = 4; k <= 5; ++k) latticePrisms(k, [&](size_t no, const Made& m) { all(m, no, th || prop == "C14" ? 1 : (k == 4 ? (prop == "C07" ? 5 : prop == "C26" ? 15 : 3) : prop == "C26" ? 60 : 14)); });
    return r.finish();
}
