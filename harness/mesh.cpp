// C25: operation histories on triangle meshes, every transition compared with the surface before it.
#include "vp.hpp"
#include "families.hpp"
#include "queso/utilities/mesh_utilities.h"
#include "queso/utilities/triangle_utilities.hpp"
#include "queso/containers/boundary_integration_point.hpp"
#include "queso/containers/triangle_mesh_view.hpp"
#include <numeric>
#include <omp.h>
using namespace vp;
using namespace queso;
namespace MU = queso::MeshUtilities;

// The represented surface: per plane (unit normal, offset) the area and the first and second moments; order- and subdivision-independent.
struct Face { ld a = 0; std::array<ld, 9> m{}; };
using Key = std::array<long long, 4>;
struct Surface {
    std::map<Key, Face> faces; ld area = 0, vol = 0; P3 lo{1e300L, 1e300L, 1e300L}, hi{-1e300L, -1e300L, -1e300L}; size_t n = 0;
    void add(P3 a, P3 b, P3 c, P3 nrm) {
        ++n;
        for (P3 v : {a, b, c}) for (int d = 0; d < 3; ++d) { lo[d] = std::min(lo[d], v[d]); hi[d] = std::max(hi[d], v[d]); }
        ld A = norm(cross(b - a, c - a)) / 2;
        vol += dot(a, cross(b, c)) / 6; area += A;
        ld off = dot(nrm, a);
        auto q = [](ld v) { return (long long)std::floor(v * 1e7L + 0.5L); };
        auto& f = faces[{q(nrm.x), q(nrm.y), q(nrm.z), q(off)}];
        f.a += A;
        for (int i = 0; i < 3; ++i) f.m[(size_t)i] += A * (a[i] + b[i] + c[i]) / 3;
        int k = 3;
        for (int i = 0; i < 3; ++i) for (int j = i; j < 3; ++j) {   // exact second moments: edge midpoints
            ld s = 0; P3 m1 = 0.5L * (a + b), m2 = 0.5L * (b + c), m3 = 0.5L * (c + a);
            for (P3 v : {m1, m2, m3}) s += v[i] * v[j];
            f.m[(size_t)k++] += A * s / 3;
        }
    }
    static Surface of(const TriangleMesh& m) {
        Surface s;
        for (IndexType t = 0; t < m.NumOfTriangles(); ++t) {
            auto id = m.TriangleIndices()[t]; auto nn = m.Normals()[t];
            s.add(p3(m.Vertices()[id[0]]), p3(m.Vertices()[id[1]]), p3(m.Vertices()[id[2]]), p3(nn));
        }
        return s;
    }
    void add(const Surface& o) {
        n += o.n; area += o.area; vol += o.vol;
        for (int d = 0; d < 3; ++d) { lo[d] = std::min(lo[d], o.lo[d]); hi[d] = std::max(hi[d], o.hi[d]); }
        for (auto& [k, f] : o.faces) { auto& g = faces[k]; g.a += f.a; for (size_t i = 0; i < 9; ++i) g.m[i] += f.m[i]; }
    }
};
static void Compare(const Surface& a, const Surface& b, const std::string& what, bool sameCount = true) {
    const ld sc = std::max<ld>(1, a.n ? std::max({std::abs(a.lo.x), std::abs(a.lo.y), std::abs(a.lo.z), std::abs(a.hi.x), std::abs(a.hi.y), std::abs(a.hi.z)}) : 1), tol = 1e-11L * (a.area + 1e-30L);
    if (sameCount) VP_CHECK(a.n == b.n, what, ": ", b.n, " triangles instead of ", a.n);
    VP_CHECK(a.faces.size() == b.faces.size(), what, ": the planes or normals of the surface changed (", a.faces.size(), " -> ", b.faces.size(), ")");
    VP_CHECK(std::abs(a.area - b.area) <= tol, what, ": area ", (double)b.area, " instead of ", (double)a.area);
    VP_CHECK(std::abs(a.vol - b.vol) <= tol * sc, what, ": enclosed volume ", (double)b.vol, " instead of ", (double)a.vol);
    for (auto& [k, f] : a.faces) {
        auto it = b.faces.find(k);
        VP_CHECK(it != b.faces.end(), what, ": a plane of the surface disappeared or its normal changed");
        VP_CHECK(std::abs(f.a - it->second.a) <= tol, what, ": area on one plane ", (double)it->second.a, " instead of ", (double)f.a);
        for (size_t i = 0; i < 9; ++i) VP_CHECK(std::abs(f.m[i] - it->second.m[i]) <= tol * sc * sc, what, ": moment ", i, " on one plane ", (double)it->second.m[i], " instead of ", (double)f.m[i]);
    }
    for (int d = 0; d < 3 && a.n; ++d) VP_CHECK(a.lo[d] == b.lo[d] && a.hi[d] == b.hi[d], what, ": bounds changed");
}
// a mesh kept by somebody else
struct Foreign { std::vector<std::array<PointType, 3>> t; };
static auto FNum = [](const Foreign& f) -> IndexType { return f.t.size(); };
static auto FTri = [](const Foreign& f, IndexType i) { return TriangleProxy<WithoutNormals>{PointView(f.t[i][0]), PointView(f.t[i][1]), PointView(f.t[i][2])}; };

static void Measures(const TriangleMesh& m, int deep) {
    auto& r = R();
    ++r.states;
    m.Check();
    Surface s = Surface::of(m);
    const ld sc = s.n ? std::max({std::abs(s.lo.x), std::abs(s.lo.y), std::abs(s.lo.z), std::abs(s.hi.x), std::abs(s.hi.y), std::abs(s.hi.z), (ld)1}) : 1, tol = 1e-12L * (1 + s.area) * sc;
    for (IndexType t = 0; t < m.NumOfTriangles(); ++t) {
        auto id = m.TriangleIndices()[t];
        for (int k = 0; k < 3; ++k) VP_CHECK(id[(size_t)k] < m.NumOfVertices(), "vertex index ", id[(size_t)k], " of ", m.NumOfVertices());
        P3 a = p3(m.Vertices()[id[0]]), b = p3(m.Vertices()[id[1]]), c = p3(m.Vertices()[id[2]]), w = cross(b - a, c - a);
        if (norm(w) > 0) VP_CHECK(norm((1 / norm(w)) * w - p3(m.Normals()[t])) < 1e-9L, "orientation and stored normal of triangle ", t, " differ");
    }
    VP_CHECK(m.Normals().size() == m.NumOfTriangles(), "number of normals");
    ld av[3]{}, nv[3]{}, cv = 0;
    for (IndexType t = 0; t < m.NumOfTriangles(); ++t) {
        auto id = m.TriangleIndices()[t];
        P3 a = p3(m.Vertices()[id[0]]), b = p3(m.Vertices()[id[1]]), c = p3(m.Vertices()[id[2]]), w = 0.5L * cross(b - a, c - a), ce = (1 / 3.0L) * (a + b + c);
        for (int d = 0; d < 3; ++d) { av[d] += w[d]; nv[d] += w[d] * ce[d]; }
        cv += dot(w, ce) / 3;
    }
    Foreign f;
    for (IndexType t = 0; t < m.NumOfTriangles(); ++t) { auto id = m.TriangleIndices()[t]; f.t.push_back({m.Vertices()[id[0]], m.Vertices()[id[1]], m.Vertices()[id[2]]}); }
    TriangleMeshView nat = m.View(), fo(f, FNum, FTri);
    for (auto* v : {&nat, &fo}) {
        const char* w = v == &nat ? "view" : "foreign view";
        VP_CHECK(v->NumOfTriangles() == s.n, w, ": number of triangles ", v->NumOfTriangles());
        VP_CHECK(std::abs(MU::Area(*v) - s.area) <= tol, w, ": area ", MU::Area(*v), " instead of ", (double)s.area);
        VP_CHECK(std::abs(MU::Volume(*v) - std::abs(cv)) <= tol, w, ": volume ", MU::Volume(*v), " instead of ", (double)std::abs(cv));
        for (IndexType d = 0; d < 3; ++d) VP_CHECK(std::abs(MU::Volume(*v, d) - std::abs(nv[d])) <= tol, w, ": volume from direction ", d);
        if (deep) for (int th : deep == 2 ? std::vector<int>{1, 2, 3, 4, 5, 6, 7, 8} : std::vector<int>{3}) {
            omp_set_num_threads(th);
            double a = MU::AreaOMP(*v), vo = MU::VolumeOMP(*v);
            omp_set_num_threads(1);
            VP_CHECK(std::abs(a - s.area) <= tol, w, ": area with ", th, " threads ", a, " instead of ", (double)s.area);
            VP_CHECK(std::abs(vo - std::abs(cv)) <= tol, w, ": volume with ", th, " threads ", vo, " instead of ", (double)std::abs(cv));
        }
        auto bb = MU::BoundingBox(*v);
        if (s.n) for (int d = 0; d < 3; ++d) VP_CHECK(bb.first[(size_t)d] == s.lo[d] && bb.second[(size_t)d] == s.hi[d], w, ": bounding box");
        // traversals
        size_t k = 0;
        auto same = [&](const auto& t, IndexType i, const char* how) {
            for (int q = 0; q < 3; ++q) for (int d = 0; d < 3; ++d) VP_CHECK((q == 0 ? t.P1 : q == 1 ? t.P2 : t.P3)[(size_t)d] == f.t[i][(size_t)q][(size_t)d], w, " ", how, ": triangle ", i);
            if constexpr (requires { t.Normal; }) { P3 n = p3(t.Normal); VP_CHECK(norm(n - p3(m.Normals()[i])) < 1e-9L, w, " ", how, ": normal of triangle ", i); }
        };
        for (const auto& t : v->Triangles()) same(t, k++, "Triangles");
        VP_CHECK(k == s.n, w, ": range of ", k, " triangles"); k = 0;
        v->VisitEachTriangle<WithNormals>([&](const auto& t) { same(t, k++, "VisitEachTriangle"); }); VP_CHECK(k == s.n, w, ": visited ", k); k = 0;
        v->Visit<WithoutNormals>([&](auto&& range) { for (const auto& t : range) same(t, k++, "Visit"); }); VP_CHECK(k == s.n, w, ": visited ", k);
        for (IndexType i = 0; i < s.n; ++i) { same(v->Triangle<WithNormals>(i), i, "Triangle"); same(v->Triangle<WithoutNormals>(i), i, "Triangle"); }
        std::vector<IndexType> sub; for (IndexType i = s.n; i-- > 0;) if (i % 3 != 1) sub.push_back(i);
        k = 0; for (const auto& t : v->Triangles<WithNormals>(sub)) same(t, sub[k++], "Triangles(subset)"); VP_CHECK(k == sub.size(), "subset");
        k = 0; v->VisitEachTriangle<WithNormals>(sub, [&](const auto& t) { same(t, sub[k++], "VisitEachTriangle(subset)"); return k == 3 ? TriangleMeshView::VisitToken::stop_loop : TriangleMeshView::VisitToken::continue_loop; });
        VP_CHECK(k == std::min<size_t>(3, sub.size()), w, ": a stopped visit saw ", k, " triangles");
        // integration points of every rule integrate area vector and linear moments
        if (deep) for (IndexType i = 0; i < std::min<IndexType>(s.n, 24); ++i) {
            auto t = v->Triangle<WithNormals>(i); P3 a = p3(t.P1), b = p3(t.P2), c = p3(t.P3), wv = 0.5L * cross(b - a, c - a);
            ld A = norm(wv);
            for (IndexType me = 0; me < 5; ++me) {
                ld sw = 0; P3 mom; ld q2 = 0; P3 an;
                for (auto& p : TriangleUtilities::GetIPsGlobal<BoundaryIntegrationPoint>(t, me)) { sw += p.Weight(); mom = mom + (ld)p.Weight() * p3(p.Point()); q2 += p.Weight() * (ld)p[0] * p[1]; an = an + (ld)p.Weight() * p3(p.Normal()); }
                VP_CHECK(std::abs(sw - A) <= 1e-11L * A, "rule ", me, ": weights add up to ", (double)sw, " instead of ", (double)A);
                VP_CHECK(norm(an - wv) <= 1e-9L * A, "rule ", me, ": normals");
                VP_CHECK(norm(mom - (A / 3) * (a + b + c)) <= 1e-11L * A * sc, "rule ", me, ": linear moments");
                if (me >= 1) { ld e = 0; for (auto& [u, vv] : {std::pair<P3, P3>{a, b}, {b, c}, {c, a}}) e += (u.x + vv.x) / 2 * (u.y + vv.y) / 2; VP_CHECK(std::abs(q2 - A * e / 3) <= 1e-11L * A * sc * sc, "rule ", me, ": quadratic moment"); }
            }
        }
    }
}
static TriangleMesh single() { MeshBuilder b; b.tri({0, 0, 0}, {1, 0.2L, 0}, {0.3L, 1, 0.5L}); return b.m; }
static TriangleMesh quad() { MeshBuilder b; b.quad({-1, 0, 2}, {1, 0, 2}, {1, 3, 2}, {-1, 3, 2}); b.m.AddVertex({9, 9, 9}); return b.m; }   // and an unused vertex
static TriangleMesh box() { return MU::MakeMeshBox({-1, 0.5, 2}, {1.25, 3, 2.75}); }
static TriangleMesh needle() { MeshBuilder b; b.tri({0, 0, 0}, {100, 0, 0}, {50, 0.01L, 0}); b.tri({0, 0, 0}, {0, 1, 0}, {0, 0, 1}); return b.m; }
static TriangleMesh soup() { auto s = convexSolid("tet", tetPiece({0, 0, 0}, {1, 0, 0}, {0, 1, 0}, {0, 0, 1})); TriangleMesh m; for (IndexType t = 0; t < 4; ++t) { auto id = s.mesh.TriangleIndices()[t]; for (int k = 0; k < 3; ++k) m.AddVertex(s.mesh.Vertices()[id[(size_t)k]]); m.AddTriangle({3 * t, 3 * t + 1, 3 * t + 2}, s.mesh.Normals()[t]); } return m; }

static const char* OPS[] = {"append triangle", "append box", "append quad", "append itself", "append a copy", "refine to n+1", "refine to 3n", "refine to n", "remove first", "remove last", "remove middle",
                            "copy", "move", "assign", "assign itself", "clear", "reserve 1", "reserve 100", "remove a copy's first", "append a refined box"};
static const int NOPS = 20;
static bool Apply(TriangleMesh& m, int op) {
    auto& r = R();
    const size_t n = m.NumOfTriangles();
    Surface s = Surface::of(m);
    std::string w = OPS[op];
    auto appended = [&](const TriangleMesh& b) { Surface e = s; e.add(Surface::of(b)); const size_t nv = m.NumOfVertices(), bv = b.NumOfVertices(); MU::Append(m, b); Compare(e, Surface::of(m), w); VP_CHECK(m.NumOfVertices() >= nv && m.NumOfVertices() <= nv + bv, w, ": number of vertices"); };
    auto refined = [&](size_t want) {
        MU::Refine(m, want); Surface q = Surface::of(m); Compare(s, q, w, false);
        if (n) VP_CHECK(m.NumOfTriangles() >= want, w, ": ", m.NumOfTriangles(), " triangles instead of at least ", want);
        if (n >= want) VP_CHECK(m.NumOfTriangles() == n, w, ": refined without need");
    };
    switch (op) {
    case 0: { auto b = single(); appended(b); break; }
    case 1: { auto b = box(); appended(b); break; }
    case 2: { auto b = quad(); appended(b); break; }
    case 3: { if (!n) return false; Surface e = s; e.add(s); MU::Append(m, m); Compare(e, Surface::of(m), w); break; }
    case 4: { if (!n) return false; TriangleMesh c(m); appended(c); break; }
    case 5: refined(n + 1); break;
    case 6: refined(3 * n); break;
    case 7: refined(n); break;
    case 8: case 9: case 10: {
        if (!n) return false;
        const size_t k = op == 8 ? 0 : op == 9 ? n - 1 : n / 2;
        std::vector<std::array<P3, 4>> before, after;
        auto list = [&](auto& L) { for (IndexType t = 0; t < m.NumOfTriangles(); ++t) { auto id = m.TriangleIndices()[t]; L.push_back({p3(m.Vertices()[id[0]]), p3(m.Vertices()[id[1]]), p3(m.Vertices()[id[2]]), p3(m.Normals()[t])}); } };
        list(before); m.RemoveTriangle(k); list(after);
        auto key = [](const std::array<P3, 4>& a) { std::array<ld, 12> q; for (size_t i = 0; i < 12; ++i) q[i] = a[i / 3][(int)(i % 3)]; return q; };
        std::multiset<std::array<ld, 12>> A, B; for (size_t i = 0; i < n; ++i) if (i != k) A.insert(key(before[i])); for (auto& a : after) B.insert(key(a));
        VP_CHECK(A == B, w, ": other triangles changed");
        break; }
    case 11: { TriangleMesh c(m); Compare(s, Surface::of(c), w); m.Clear(); Compare(s, Surface::of(c), w + " after the original was cleared"); m = c; break; }
    case 12: { TriangleMesh c(std::move(m)); Compare(s, Surface::of(c), w); m = std::move(c); Compare(s, Surface::of(m), w + " back"); break; }
    case 13: { TriangleMesh c = box(); c = m; Compare(s, Surface::of(c), w); MU::Append(c, single()); Compare(s, Surface::of(m), w + ": the original changed with the copy"); break; }
    case 14: { auto& q = m; m = q; Compare(s, Surface::of(m), w); break; }
    case 15: { m.Clear(); VP_CHECK(m.NumOfTriangles() == 0 && m.NumOfVertices() == 0 && m.Normals().empty(), w); break; }
    case 16: m.Reserve(1); Compare(s, Surface::of(m), w); break;
    case 17: m.Reserve(100); Compare(s, Surface::of(m), w); break;
    case 18: { if (!n) return false; TriangleMesh c(m); c.RemoveTriangle(0); Compare(s, Surface::of(m), w); break; }
    case 19: { auto b = box(); MU::Refine(b, 13); appended(b); break; }
    }
    ++r.transitions;
    return true;
}
static void RunHistories() {
    auto& r = R();
    const int D = r.thorough() ? 5 : 4;
    struct St { const char* n; TriangleMesh (*f)(); };
    const St starts[] = {{"empty", [] { return TriangleMesh{}; }}, {"triangle", single}, {"quad with unused vertex", quad}, {"box", box}, {"needle", needle}, {"soup", soup}};
    for (auto& st : starts) for (int a = 0; a < NOPS; ++a) for (int b = 0; b < NOPS; ++b) {
        if (!r.take()) continue;
        r.run([=] { return cat("start ", st.n, ": ", OPS[a], ", ", OPS[b], ", then every history up to ", D, " operations"); }, [&] {
            TriangleMesh m = st.f();
            if (!Apply(m, a)) return;
            if (b == 0) Measures(m, 2);
            if (!Apply(m, b)) return;
            Measures(m, true);
            std::function<void(const TriangleMesh&, int)> rec = [&](const TriangleMesh& p, int d) {
                if (d == D) return;
                for (int op = 0; op < NOPS; ++op) {
                    // quick: operations that keep the mesh are explored last only
                    if (p.NumOfTriangles() > 120 && (op == 6 || op == 19 || op == 1)) { r.count("large meshes not grown further"); continue; }
                    TriangleMesh q(p);
                    if (!Apply(q, op)) continue;
                    if (op <= 10 || op == 15 || op == 19) Measures(q, d + 1 < D && op <= 7);   // the others were compared with the mesh before and measured already
                    if (d + 1 < D) rec(q, d + 1);
                }
            };
            rec(m, 2);
            if (m.NumOfTriangles() > 1) r.nontrivial(fnv(cat(st.n, a, " ", b)));
        });
    }
}
static void RunSolids() {
    auto& r = R();
    std::vector<Made> L;
    latticeTets([&](size_t no, Made m) { if (no % (r.thorough() ? 2 : 11) == 0) L.push_back(m); });
    latticePrisms(4, [&](size_t, Made m) { L.push_back(m); });
    latticePrisms(5, [&](size_t no, Made m) { if (no % (r.thorough() ? 1 : 9) == 0) L.push_back(m); });
    for (uint64_t m = 1; m < 256; ++m) L.push_back(voxelMade({0, 1, 2}, {0, 1, 2}, {0, 1, 2}, m));
    struct Tr { ld s; P3 o; };
    const std::vector<Tr> tr{{1, {0, 0, 0}}, {0.01L, {0.02L, -0.03L, 0.05L}}, {37, {-300, 20, 111}}};
    for (auto& M : L) for (auto& t : tr) {
        if (!r.take()) continue;
        r.run([&] { return cat(M.name, " scaled by ", (double)t.s); }, [&] {
            Solid s = transformed(M.make(), t.s, t.o);
            Surface e = Surface::of(s.mesh);
            const ld ext = std::max({std::abs(e.lo.x), std::abs(e.hi.x), std::abs(e.lo.y), std::abs(e.hi.y), std::abs(e.lo.z), std::abs(e.hi.z)});
            // the enclosed volume is the volume of the solid, whatever direction it is computed from
            VP_CHECK(std::abs(MU::Volume(s.mesh.View()) - s.volume()) <= 1e-11L * ext * e.area, "volume ", MU::Volume(s.mesh.View()), " instead of ", (double)s.volume());
            for (IndexType d = 0; d < 3; ++d) VP_CHECK(std::abs(MU::Volume(s.mesh.View(), d) - s.volume()) <= 1e-11L * ext * e.area, "volume from direction ", d);
            VP_CHECK(MU::EstimateQuality(s.mesh.View()) <= 1e-10 * std::max<double>(1, (double)(ext * e.area / s.volume())), "quality ", MU::EstimateQuality(s.mesh.View()), " of a closed mesh");
            bool thrown = false; try { MU::Volume(s.mesh.View(), 3); } catch (const std::exception&) { thrown = true; }
            VP_CHECK(thrown, "volume from direction 3 accepted");
            Measures(s.mesh, 2);
            const size_t n0 = s.mesh.NumOfTriangles();
            for (size_t want : {n0 + 1, n0 + 5, 4 * n0, 9 * n0 + 1}) {
                TriangleMesh m(s.mesh);
                MU::Refine(m, want);
                Compare(e, Surface::of(m), cat("refined to ", want), false);
                VP_CHECK(m.NumOfTriangles() >= want, m.NumOfTriangles(), " triangles instead of ", want);
                // a removed triangle makes the closed surface open
                if (want == n0 + 1) { TriangleMesh o(s.mesh); o.RemoveTriangle(n0 / 2); VP_CHECK(MU::EstimateQuality(o.View()) > 1e-3, "quality ", MU::EstimateQuality(o.View()), " of an open mesh"); }
                Measures(m, want == n0 + 5);
                ++r.transitions;
            }
            r.nontrivial(fnv(cat(M.name, (double)t.s)));
        });
    }
    // boxes
    const double X[] = {-7, -1, 0, 0.25, 1, 3.5, 250};
    for (int i = 0; i < 7; ++i) for (int j = i + 1; j < 7; ++j) {
        if (!r.take()) continue;
        r.run([=] { return cat("boxes with x extent ", X[i], "..", X[j]); }, [&] {
            for (int a = 0; a < 7; ++a) for (int b = a + 1; b < 7; ++b) for (int c = 0; c < 7; ++c) for (int d = c + 1; d < 7; ++d) {
                auto m = MU::MakeMeshBox({X[i], X[a], X[c]}, {X[j], X[b], X[d]});
                Surface e; auto ref = convexSolid("box", boxPiece({X[i], X[a], X[c]}, {X[j], X[b], X[d]}));
                auto rs = Surface::of(ref.mesh), ms = Surface::of(m);
                Compare(rs, ms, "box mesh");
                VP_CHECK(ms.vol > 0, "box mesh is not oriented outwards");
                Measures(m, false);
            }
            r.nontrivial(fnv(cat("box", i, j)));
        });
    }
}
// Meshes with more vertices than 16 bit (thorough: 20 bit) hold; the vertices are numbered in different ways.
static void RunLarge() {
    auto& r = R();
    struct G { const char* n; size_t nv; std::function<PointType(size_t)> v; std::function<void(const std::function<void(size_t, size_t, size_t)>&)> t; };
    const size_t N = r.thorough() ? 1100 : 300, F = N * N;
    std::vector<G> shapes;
    auto rim = [F](size_t i) { const double t = 6.283185307179586 * (double)i / (double)F; return PointType{3 * std::cos(t), 3 * std::sin(t), 1}; };
    shapes.push_back({"fan", F + 1, [=](size_t i) { return i == F ? PointType{0, 0, 1} : rim(i); }, [=](auto& f) { for (size_t i = 0; i < F; ++i) f(F, i, (i + 1) % F); }});
    shapes.push_back({"sheet", (N + 1) * (N + 1), [=](size_t i) { return PointType{(double)(i % (N + 1)), (double)(i / (N + 1)), 0.5}; },
        [=](auto& f) { for (size_t j = 0; j < N; ++j) for (size_t i = 0; i < N; ++i) { size_t a = j * (N + 1) + i; f(a, a + 1, a + N + 2); f(a, a + N + 2, a + N + 1); } }});
    shapes.push_back({"separate triangles", 3 * F, [=](size_t i) { size_t t = i / 3, k = i % 3; return PointType{(double)(t % N) + (k == 1), (double)(t / N) + (k == 2), 2}; }, [=](auto& f) { for (size_t t = 0; t < F; ++t) f(3 * t, 3 * t + 1, 3 * t + 2); }});
    // numberings: as is, backwards, by a stride coprime to the number of vertices
    for (auto& g : shapes) for (size_t how = 0; how < 4; ++how) for (int op = 0; op < 5; ++op) {
        if (!r.take()) continue;
        r.run([&] { return cat(g.n, " of ", g.nv, " vertices, numbering ", how, ", ", op == 0 ? "measures" : op == 1 ? "refine to n+1" : op == 2 ? "refine to 5n" : op == 3 ? "append itself" : "append to a box, remove triangles"); }, [&] {
            size_t stride = how == 2 ? 65537 : how == 3 ? 46349 : 1; while (std::gcd(stride, g.nv) != 1) ++stride;
            std::vector<size_t> id(g.nv), inv(g.nv);
            for (size_t i = 0; i < g.nv; ++i) { id[i] = how == 1 ? g.nv - 1 - i : (size_t)((unsigned long long)i * stride % g.nv); inv[id[i]] = i; }
            TriangleMesh m; for (size_t i = 0; i < g.nv; ++i) m.AddVertex(g.v(inv[i]));
            g.t([&](size_t a, size_t b, size_t c) { m.AddTriangle({id[a], id[b], id[c]}, {0, 0, 1}); });
            const size_t n = m.NumOfTriangles();
            Surface e = Surface::of(m);
            if (op == 0) Measures(m, 1);
            if (op == 1 || op == 2) {
                MU::Refine(m, op == 1 ? n + 1 : 5 * n);
                Compare(e, Surface::of(m), "refined", false); VP_CHECK(m.NumOfTriangles() > n, "not refined"); m.Check();
                ld biggest = 0; for (IndexType t = 0; t < m.NumOfTriangles(); ++t) { auto q = m.TriangleIndices()[t]; P3 a = p3(m.Vertices()[q[0]]), b = p3(m.Vertices()[q[1]]), c = p3(m.Vertices()[q[2]]); P3 w = cross(b - a, c - a); VP_CHECK(w.z > 0 && std::abs(w.x) + std::abs(w.y) < 1e-9L * w.z, "triangle ", t, " turned over"); biggest = std::max(biggest, norm(w) / 2); }
                VP_CHECK(biggest <= e.area / (ld)n * 1.01L, "triangle of area ", (double)biggest);
            }
            if (op == 3) { MU::Append(m, m); Surface d = e; d.add(e); Compare(d, Surface::of(m), "appended to itself"); }
            if (op == 4) {
                TriangleMesh b = box(); Surface d = Surface::of(b); d.add(e); MU::Append(b, m); Compare(d, Surface::of(b), "appended to a box");
                for (size_t k : {b.NumOfTriangles() - 1, (size_t)70000, (size_t)65536, (size_t)3}) {
                    auto q = b.TriangleIndices()[k]; Surface one; one.add(p3(b.Vertices()[q[0]]), p3(b.Vertices()[q[1]]), p3(b.Vertices()[q[2]]), p3(b.Normals()[k]));
                    Surface before = Surface::of(b); b.RemoveTriangle(k); Surface after = Surface::of(b); after.add(one); Compare(before, after, cat("triangle ", k, " removed"));
                }
            }
            ++r.states; ++r.transitions;
            r.nontrivial(fnv(cat(g.n, how, " ", op)));
        });
    }
}
int main(int argc, char** argv) {
    auto& r = R(); r.init(argc, argv);
    omp_set_num_threads(1);
    if (std::find(r.args.begin(), r.args.end(), "histories") != r.args.end()) RunHistories(); else if (std::find(r.args.begin(), r.args.end(), "large") != r.args.end()) RunLarge(); else RunSolids();
    return r.finish();
}
