// C13 (triangle clipped by a box), C27 (bounding-volume tree and exact triangle/box, ray queries).
#include "vp.hpp"
#include "solid.hpp"
#include "queso/embedding/clipper.h"
#include "queso/embedding/brep_operator.h"
#include "queso/embedding/aabb_tree.h"
#include "queso/embedding/aabb_primitive.h"
#include "queso/embedding/ray_aabb_primitive.h"
#include "queso/embedding/geometry_query.h"
#include "queso/utilities/mesh_utilities.h"
#include <algorithm>
#include <numeric>
using namespace vp;
using namespace queso;

// ------------------------------------------------------------------------------------------------ C13
static Poly clipPoly(Poly p, P3 lo, P3 hi) {
    for (int d = 0; d < 3; ++d) for (int s = 0; s < 2; ++s) {
        Poly q; ld pos = s ? hi[d] : lo[d], sg = s ? 1 : -1;
        for (size_t i = 0; i < p.size(); ++i) {
            P3 u = p[i], v = p[(i + 1) % p.size()];
            ld du = sg * (u[d] - pos), dv = sg * (v[d] - pos);
            if (du <= 0) q.push_back(u);
            if ((du < 0 && dv > 0) || (du > 0 && dv < 0)) { P3 c = u + (du / (du - dv)) * (v - u); c[d] = pos; q.push_back(c); }
        }
        p = q;
        if (p.size() < 3) return {};
    }
    return p;
}
static P3 areaVec(const Poly& p) { P3 n; for (size_t i = 1; i + 1 < p.size(); ++i) n = n + cross(p[i] - p[0], p[i + 1] - p[0]); return 0.5L * n; }

struct Box { P3 lo, hi; const char* name; };
static const std::vector<Box>& boxes() {
    static std::vector<Box> b{{{1, 1, 1}, {3, 3, 3}, "[1,3]^3"}, {{1, 1, 0}, {2, 3, 3}, "[1,2]x[1,3]x[0,3]"}, {{1.5L, 1.5L, 1.5L}, {2.5L, 2.5L, 2.5L}, "[1.5,2.5]^3"},
        {{1.25L, 0.7L, 1}, {2.75L, 3.1L, 3}, "skew"}, {{-1, -1, -1}, {5, 5, 5}, "containing"}, {{2, 0, 0}, {2.01L, 4, 4}, "slab"}, {{0, 0, 0}, {4, 4, 4}, "[0,4]^3"}};
    return b;
}
struct Map { const char* name; ld s; P3 off; bool skew; };
static const std::vector<Map>& maps() {
    static std::vector<Map> m{{"identity", 1, {0, 0, 0}, false}, {"third", 1 / 3.0L, {0.1L, -0.7L, 0.3L}, false}, {"sheared triangles", 1, {0, 0, 0}, true},
        {"small", 0.01L, {0.02L, 0.03L, -0.05L}, false}, {"large", 25, {-100, 70, 30}, false}, {"sheared, third", 1 / 3.0L, {-0.2L, 0.4L, 0.9L}, true}};
    return m;
}
static P3 place(const Map& m, P3 p, bool vertex) {
    if (m.skew && vertex) p = {p.x + 0.31L * p.y - 0.17L * p.z, p.y + 0.23L * p.z - 0.11L * p.x, p.z + 0.07L * p.x - 0.13L * p.y};
    return p3(pt(m.s * p + m.off));
}
static long long g_n[6];
static void clipOne(std::array<P3, 3> t, P3 lo, P3 hi, ld size, bool viaBRep, uint64_t sig) {
    auto& r = R();
    PointType L = pt(lo), H = pt(hi);
    P3 nv = cross(t[1] - t[0], t[2] - t[0]); ld A2 = norm(nv); P3 n = (1 / A2) * nv;
    const ld tol = 4e-12L * std::max<ld>(size, 0.1L);   // classification of a vertex as lying on a plane: 1e-13 absolute
    // lies in the plane of a face?
    bool onFace = false;
    for (int d = 0; d < 3; ++d) for (ld pos : {lo[d], hi[d]}) if (std::abs(t[0][d] - pos) < 2e-13L && std::abs(t[1][d] - pos) < 2e-13L && std::abs(t[2][d] - pos) < 2e-13L) onFace = true;
    Poly ref = onFace ? Poly{} : clipPoly({t[0], t[1], t[2]}, lo, hi);
    ld refA = norm(areaVec(ref));
    const ld len = std::max({norm(t[1] - t[0]), norm(t[2] - t[0]), norm(t[2] - t[1])});
    P3 lenOn[2];    // exact length of the polygon's border on each plane, if the polygon is not degenerate
    auto mesh1 = [&](int rot) {
        auto m = std::make_unique<TriangleMesh>();
        for (int k = 0; k < 3; ++k) m->AddVertex(pt(t[(size_t)((k + rot) % 3)]));
        m->AddTriangle(Vector3i{0, 1, 2}, Vector3d{(double)n.x, (double)n.y, (double)n.z});
        return m;
    };
    auto judge = [&](const ClippedTriangleMesh& cm, const char* how) {
        ++r.states;
        const TriangleMesh& m = cm.Mesh();
        ld sum = 0; P3 vec;
        for (IndexType i = 0; i < m.NumOfTriangles(); ++i) {
            auto& id = m.TriangleIndices()[i];
            P3 a = p3(m.Vertex(id[0])), b = p3(m.Vertex(id[1])), c = p3(m.Vertex(id[2]));
            for (P3 v : {a, b, c}) {
                for (int d = 0; d < 3; ++d) VP_CHECK(v[d] >= lo[d] - tol && v[d] <= hi[d] + tol, how, ": vertex ", str(pt(v)), " outside the box");
                // in the triangle
                VP_CHECK(std::abs(dot(n, v - t[0])) <= tol, how, ": vertex ", str(pt(v)), " not in the triangle's plane");
                for (int k = 0; k < 3; ++k) {
                    P3 e = t[(size_t)((k + 1) % 3)] - t[(size_t)k]; P3 w = cross(n, e); w = (1 / norm(w)) * w;
                    VP_CHECK(dot(w, v - t[(size_t)k]) >= -tol * 4, how, ": vertex ", str(pt(v)), " outside the triangle");
                }
            }
            P3 av = 0.5L * cross(b - a, c - a); sum += norm(av); vec = vec + av;
            VP_CHECK(dot(av, n) >= -tol * len, how, ": a triangle is turned around");
            auto nn = p3(m.Normal(i)); VP_CHECK(norm(nn - n) < 1e-12L, how, ": normal changed to ", str(pt(nn)));
        }
        ld at = tol * (len + size) + 1e-15L;
        VP_CHECK(std::abs(sum - refA) <= at, how, ": clipped area ", (double)sum, " instead of ", (double)refA);
        VP_CHECK(std::abs(dot(vec, n) - refA) <= at, how, ": covered ", (double)dot(vec, n), " instead of ", (double)refA);
    };
    auto desc = [&](int rot) { return cat("triangle ", str(pt(t[(size_t)rot])), str(pt(t[(size_t)((1 + rot) % 3)])), str(pt(t[(size_t)((2 + rot) % 3)])), " box ", str(L), str(H), ": "); };
    for (int rot = 0; rot < 3; ++rot) {
        auto m = mesh1(rot);
        std::string how = R().only >= 0 ? desc(rot) : std::string();
        try {
            if (viaBRep) {
                BRepOperator op(m->View());
                auto cm = op.ClipTriangleMesh(L, H);
                judge(cm, "ClipTriangleMesh");
                ++r.transitions; ++g_n[2];
            }
            if (refA > tol * (len + size)) {
                auto p = Clipper::ClipTriangle(m->Triangle<WithNormals>(0), L, H);
                VP_CHECK(p, "no polygon although the triangle meets the box in the area ", (double)refA);
                ClippedTriangleMesh cm; p->AddToTriangleMesh(cm);
                judge(cm, "ClipTriangle");
                ++r.transitions; ++g_n[0];
                // polygon itself
                Poly q; for (IndexType i = 0; i < p->NumVertices(); ++i) q.push_back(p3((*p)[i].first));
                ld ar = dot(areaVec(q), n);
                VP_CHECK(std::abs(ar - refA) <= tol * (len + size) + 1e-15L, "polygon has the area ", (double)ar, " instead of ", (double)refA);
                // border on the planes of the box
                for (int d = 0; d < 3; ++d) for (int s = 0; s < 2; ++s) {
                    ld pos = s ? hi[d] : lo[d], want = 0, got = 0;
                    for (size_t i = 0; i < ref.size(); ++i) { P3 u = ref[i], v = ref[(i + 1) % ref.size()]; if (std::abs(u[d] - pos) < tol && std::abs(v[d] - pos) < tol) want += norm(v - u); }
                    for (const auto& e : cm.Edges(static_cast<SignedAxis>(2 * d + s))) {
                        P3 u = p3(e.mP1), v = p3(e.mP2); got += norm(v - u);
                        VP_CHECK(std::abs(u[d] - pos) < 1e-12L * std::max<ld>(size, 1) && std::abs(v[d] - pos) < 1e-12L * std::max<ld>(size, 1), "an edge marked as lying on plane ", 2 * d + s, " does not lie there");
                        VP_CHECK(norm(p3(e.mNormal) - n) < 1e-12L, "an edge on a plane has another normal");
                    }
                    VP_CHECK(std::abs(got - want) <= 20 * tol, "border on plane ", 2 * d + s, " has the length ", (double)got, " instead of ", (double)want);
                    if (want > tol) ++g_n[3];
                }
                if (ref.size() > 3) ++g_n[1];
                if (q.size() >= 7) ++g_n[4];
                r.nontrivial(sig);
            }
        } catch (const Stop&) { auto& v = r.violations.back(); v.msg = desc(rot) + v.msg; throw; }
        catch (const std::exception& e) { r.fail(desc(rot) + "exception: " + e.what()); }
    }
}
static void C13() {
    auto& r = R();
    const int N = 5;
    std::vector<P3> lat; for (int i = 0; i < N * N * N; ++i) lat.push_back({(ld)(i % N), (ld)(i / N % N), (ld)(i / N / N)});
    size_t bi = 0;
    for (auto& b : boxes()) {
        ++bi;
        size_t mi = 0;
        for (auto& m : maps()) {
            ++mi;
            size_t stride = r.thorough() ? 1 : (mi == 1 && bi == 1 ? 1 : 5);
            for (size_t a = 0; a < lat.size(); ++a) {
                if (!r.take()) continue;
                r.run([&] { return cat("box ", b.name, " map ", m.name, " first vertex ", a); }, [&] {
                    P3 lo = place(m, b.lo, false), hi = place(m, b.hi, false);
                    ld size = std::max({std::abs(lo.x), std::abs(lo.y), std::abs(lo.z), std::abs(hi.x), std::abs(hi.y), std::abs(hi.z), hi.x - lo.x, hi.y - lo.y, hi.z - lo.z, 4 * m.s});
                    size_t k = a + bi + mi;
                    for (size_t p = a + 1; p < lat.size(); ++p) for (size_t q = a + 1; q < lat.size(); ++q) {
                        if (p == q) continue;
                        if (k++ % stride) continue;
                        if (norm(cross(lat[p] - lat[a], lat[q] - lat[a])) < 1e-9L) continue;
                        clipOne({place(m, lat[a], true), place(m, lat[p], true), place(m, lat[q], true)}, lo, hi, size, k % (r.thorough() ? 1 : 3) == 0, fnv(cat(bi, mi, a, p, q)));
                    }
                });
            }
        }
    }
    r.count("polygons compared", g_n[0]); r.count("polygons with more than three vertices", g_n[1]); r.count("meshes clipped by the B-rep operator", g_n[2]);
    r.count("borders on box planes", g_n[3]); r.count("polygons with seven or more vertices", g_n[4]);
}

// ------------------------------------------------------------------------------------------------ C27
struct Tri { P3 a, b, c; };
static P3 bmin(const Tri& t) { return {std::min({t.a.x, t.b.x, t.c.x}), std::min({t.a.y, t.b.y, t.c.y}), std::min({t.a.z, t.b.z, t.c.z})}; }
static P3 bmax(const Tri& t) { return {std::max({t.a.x, t.b.x, t.c.x}), std::max({t.a.y, t.b.y, t.c.y}), std::max({t.a.z, t.b.z, t.c.z})}; }
static TriangleMesh meshOf(const std::vector<Tri>& T) {
    TriangleMesh m;
    for (auto& t : T) {
        IndexType k = m.NumOfVertices();
        m.AddVertex(pt(t.a)); m.AddVertex(pt(t.b)); m.AddVertex(pt(t.c));
        P3 n = cross(t.b - t.a, t.c - t.a); n = (1 / norm(n)) * n;
        m.AddTriangle(Vector3i{k, k + 1, k + 2}, pt(n));
    }
    return m;
}
// exact separating-axis test (small integers in long double); returns > 0: interiors meet, 0: touch, < 0: apart
static int triBox(const Tri& t, P3 lo, P3 hi) {
    P3 c = 0.5L * (lo + hi), h = 0.5L * (hi - lo);
    P3 v[3] = {t.a - c, t.b - c, t.c - c};
    P3 e[3] = {t.b - t.a, t.c - t.b, t.a - t.c};
    std::vector<P3> ax;
    for (int d = 0; d < 3; ++d) { P3 u; u[d] = 1; ax.push_back(u); for (auto& f : e) ax.push_back(cross(u, f)); }
    ax.push_back(cross(e[0], e[1]));
    int res = 1;
    for (auto& a : ax) {
        if (a.x == 0 && a.y == 0 && a.z == 0) continue;
        ld p0 = dot(a, v[0]), p1 = dot(a, v[1]), p2 = dot(a, v[2]);
        ld rr = h.x * std::abs(a.x) + h.y * std::abs(a.y) + h.z * std::abs(a.z);
        ld gap = std::max(-std::max({p0, p1, p2}), std::min({p0, p1, p2})) - rr;
        if (gap > 0) return -1;
        if (gap == 0) res = 0;
    }
    return res;
}
// 0 miss, 1 border or parallel touch, 2 proper hit
static int rayTri(P3 o, P3 d, const Tri& t) {
    P3 e1 = t.b - t.a, e2 = t.c - t.a; P3 pv = cross(d, e2); ld det = dot(e1, pv);
    if (det == 0) return -1;
    P3 tv = o - t.a; ld u = dot(tv, pv) / det; P3 qv = cross(tv, e1); ld v = dot(d, qv) / det, w = dot(e2, qv) / det;
    if (u < 0 || v < 0 || u + v > 1 || w < 0) return 0;
    if (u == 0 || v == 0 || u + v == 1 || w == 0) return 1;
    return 2;
}
struct Q { std::vector<std::array<P3, 2>> boxes; std::vector<std::array<P3, 2>> rays; };
static const Q& queries() {
    static Q q;
    if (q.boxes.empty()) {
        std::vector<std::array<ld, 2>> I;
        for (ld a : {-0.5L, 0.0L, 0.5L, 1.0L, 2.0L}) for (ld b : {0.0L, 0.5L, 1.0L, 2.0L, 2.5L}) if (a < b) I.push_back({a, b});
        for (auto& x : I) for (auto& y : I) for (auto& z : I) q.boxes.push_back({P3{x[0], y[0], z[0]}, P3{x[1], y[1], z[1]}});
        for (ld x : {-0.5L, 0.0L, 0.75L, 1.0L, 2.5L}) for (ld y : {-0.5L, 0.0L, 0.75L, 1.0L, 2.5L}) for (ld z : {-0.5L, 0.0L, 0.75L, 1.0L, 2.5L})
            for (int a = -2; a <= 2; ++a) for (int b = -2; b <= 2; ++b) for (int c = -2; c <= 2; ++c) if (a || b || c) {
                if ((a == 2 || a == -2) && (b == 2 || b == -2) && (c == 2 || c == -2)) continue;
                q.rays.push_back({P3{x, y, z}, P3{(ld)a, (ld)b, (ld)c}});
            }
    }
    return q;
}
static long long h_n[8];
static void askTree(const std::vector<Tri>& T, const AABB_tree& tree, const std::set<IndexType>& live, size_t qs) {
    auto& r = R();
    auto& q = queries();
    std::vector<P3> mn, mx; for (auto& t : T) { mn.push_back(bmin(t)); mx.push_back(bmax(t)); }
    auto uniqueLive = [&](const std::vector<IndexType>& v, const char* what) {
        std::set<IndexType> s(v.begin(), v.end());
        VP_CHECK(s.size() == v.size(), what, " returned a triangle twice");
        for (auto i : s) VP_CHECK(live.count(i), what, " returned ", i, " which is not in the tree");
        return s;
    };
    size_t k = qs;
    for (auto& b : q.boxes) {
        if (k++ % 7) continue;
        AABB_primitive prim(pt(b[0]), pt(b[1]));
        auto s = uniqueLive(tree.Query(prim), "box query");
        ++r.transitions;
        for (auto i : live) {
            bool meet = true; for (int d = 0; d < 3; ++d) meet = meet && mn[i][d] <= b[1][d] && mx[i][d] >= b[0][d];
            if (meet) { ++h_n[0]; VP_CHECK(s.count(i), "box query ", str(pt(b[0])), str(pt(b[1])), " misses triangle ", i); }
        }
    }
    for (auto& y : q.rays) {
        if (k++ % 7) continue;
        Ray_AABB_primitive prim(pt(y[0]), pt(y[1]));
        auto s = uniqueLive(tree.Query(prim), "ray query");
        ++r.transitions;
        for (auto i : live) {
            int hit = rayTri(y[0], y[1], T[i]);
            if (hit > 0) { ++h_n[1]; VP_CHECK(s.count(i), "ray query from ", str(pt(y[0])), " in direction ", str(pt(y[1])), " misses triangle ", i); }
        }
    }
    if (live.empty()) return;
    for (ld x : {-0.5L, 0.0L, 1.0L, 1.5L, 2.0L, 2.25L}) for (ld yy : {-0.5L, 0.0L, 1.0L, 2.0L, 2.25L}) for (ld z : {-0.5L, 0.0L, 1.5L, 2.0L}) {
        bool in = true; P3 p{x, yy, z}; P3 lo{1e9L, 1e9L, 1e9L}, hi{-1e9L, -1e9L, -1e9L};
        for (size_t i = 0; i < T.size(); ++i) for (int d = 0; d < 3; ++d) { lo[d] = std::min(lo[d], mn[i][d]); hi[d] = std::max(hi[d], mx[i][d]); }
        for (int d = 0; d < 3; ++d) in = in && p[d] >= lo[d] && p[d] <= hi[d];
        VP_CHECK(tree.IsWithinBoundingBox(pt(p)) == in, "IsWithinBoundingBox(", str(pt(p)), ") is ", !in);
    }
}
static void askGeometry(const std::vector<Tri>& T, size_t qs) {
    auto& r = R();
    auto& q = queries();
    TriangleMesh m = meshOf(T);
    GeometryQuery gq(m.View(), true);
    size_t k = qs;
    for (auto& b : q.boxes) {
        if (k++ % 11) continue;
        bool any = false, sure = false;
        for (double tol : {0.0, 1e-12}) {
            auto ids = gq.GetIntersectedTriangleIds(pt(b[0]), pt(b[1]), tol);
            std::set<IndexType> s(ids.begin(), ids.end());
            VP_CHECK(s.size() == ids.size(), "GetIntersectedTriangleIds returned a triangle twice");
            for (IndexType i = 0; i < T.size(); ++i) {
                int w = triBox(T[i], b[0], b[1]);
                ++h_n[2];
                if (w > 0) { any = true; sure = true; VP_CHECK(s.count(i), "triangle ", i, " crosses the box ", str(pt(b[0])), str(pt(b[1])), " but is not reported"); }
                if (w < 0) VP_CHECK(!s.count(i), "triangle ", i, " is apart from the box ", str(pt(b[0])), str(pt(b[1])), " but reported");
                if (w == 0) { ++h_n[3]; if (tol == 0.0) { any = true; VP_CHECK(s.count(i), "triangle ", i, " touches the box ", str(pt(b[0])), str(pt(b[1])), " but is not reported without tolerance"); }
                              else VP_CHECK(!s.count(i), "triangle ", i, " only touches the box ", str(pt(b[0])), str(pt(b[1])), " but is reported with tolerance"); }
            }
        }
        VP_CHECK(gq.DoIntersect(pt(b[0]), pt(b[1]), 1e-12) == sure, "DoIntersect(", str(pt(b[0])), str(pt(b[1])), ") is ", !sure);
        (void)any; ++r.transitions;
    }
    for (auto& y : q.rays) {
        if (k++ % 11) continue;
        Ray_AABB_primitive ray(pt(y[0]), pt(y[1]));
        for (IndexType i = 0; i < T.size(); ++i) {
            int hit = rayTri(y[0], y[1], T[i]);
            double t = -1, u = -1, v = -1; bool back = false, par = false;
            bool got = ray.intersect(pt(T[i].a), pt(T[i].b), pt(T[i].c), t, u, v, back, par);
            VP_CHECK(ray.is_parallel(pt(T[i].a), pt(T[i].b), pt(T[i].c)) == (hit == -1), "is_parallel wrong for triangle ", i);
            if (hit == -1) { VP_CHECK(got && par, "parallel ray not reported as parallel"); continue; }
            VP_CHECK(!par, "ray reported as parallel to triangle ", i);
            VP_CHECK(got == (hit > 0), "ray from ", str(pt(y[0])), " in direction ", str(pt(y[1])), (hit > 0 ? " hits triangle " : " misses triangle "), i, " but the opposite is reported");
            if (hit > 0) {
                ++h_n[4];
                P3 X = y[0] + (ld)t * y[1], Z = T[i].a + (ld)u * (T[i].b - T[i].a) + (ld)v * (T[i].c - T[i].a);
                VP_CHECK(norm(X - Z) < 1e-12L, "the reported parameters do not name the point that is hit");
                VP_CHECK(back == (dot(y[1], cross(T[i].b - T[i].a, T[i].c - T[i].a)) > 0), "facing reported wrongly for triangle ", i);
            }
        }
    }
}
static void C27() {
    auto& r = R();
    std::vector<P3> lat; for (int i = 0; i < 27; ++i) lat.push_back({(ld)(i % 3), (ld)(i / 3 % 3), (ld)(i / 9)});
    std::vector<Tri> all;
    for (size_t a = 0; a < 27; ++a) for (size_t b = a + 1; b < 27; ++b) for (size_t c = b + 1; c < 27; ++c)
        if (norm(cross(lat[b] - lat[a], lat[c] - lat[a])) > 0.5L) all.push_back((a + b + c) % 2 ? Tri{lat[a], lat[b], lat[c]} : Tri{lat[a], lat[c], lat[b]});
    // 1. every lattice triangle alone and in pairs: exact tests
    for (size_t i = 0; i < all.size(); i += 8) {
        if (!r.take()) continue;
        r.run([&] { return cat("lattice triangles ", i, " to ", i + 7); }, [&] {
            for (size_t j = i; j < std::min(i + 8, all.size()); ++j) { askGeometry({all[j], all[(j * 7 + 3) % all.size()]}, j); ++r.states; r.nontrivial(fnv(cat("t", j))); }
        });
    }
    // 2. trees built from meshes of every size up to n, several orders (node storage grows at 16, 32, 64, ...)
    const size_t maxN = r.thorough() ? 300 : 140;
    for (size_t n = 0; n <= maxN; ++n) for (int order = 0; order < 6; ++order) {
        if (!r.take()) continue;
        r.run([&] { return cat("tree of ", n, " triangles, order ", order); }, [&] {
            std::vector<Tri> T;
            static const size_t step[] = {1, all.size() - 1, 37, 1001, 0, 5};
            for (size_t i = 0; i < n; ++i) T.push_back(order == 4 ? all[i % 3] : all[(i * step[order] + (order == 1 ? all.size() - 1 : 0)) % all.size()]);
            TriangleMesh m = meshOf(T);
            AABB_tree tree(m.View());
            std::set<IndexType> live; for (size_t i = 0; i < n; ++i) live.insert(i);
            if (!live.empty()) tree.validate();
            askTree(T, tree, live, n + (size_t)order);
            ++r.states; if (n > 1) r.nontrivial(fnv(cat("n", n, order)));
        });
    }
    // 3. all insertion orders of small sets
    std::vector<std::vector<size_t>> sets{{0, 1, 2, 3, 4, 5}, {0, 300, 700, 1200, 1500, 1900}, {10, 11, 900, 901, 1800, 1801}, {100, 100, 100, 2000, 2000, 5}, {77, 177, 277, 377, 477, 577}};
    for (size_t s = 0; s < sets.size(); ++s) for (size_t first = 0; first < 6; ++first) for (size_t second = 0; second < 5; ++second) {
        if (!r.take()) continue;
        r.run([&] { return cat("all insertion orders of set ", s, " starting with ", first, ", ", second); }, [&] {
            std::vector<size_t> rest{0, 1, 2, 3, 4, 5}; size_t f = rest[first]; rest.erase(rest.begin() + (long)first); size_t g = rest[second]; rest.erase(rest.begin() + (long)second);
            do {
                std::vector<size_t> perm{f, g}; perm.insert(perm.end(), rest.begin(), rest.end());
                std::vector<Tri> T; for (auto k : perm) T.push_back(all[sets[s][k] % all.size()]);
                TriangleMesh m = meshOf(T); AABB_tree tree(m.View()); tree.validate();
                std::set<IndexType> live{0, 1, 2, 3, 4, 5};
                askTree(T, tree, live, rest[0]);
                ++r.states; ++r.traces; r.nontrivial(fnv(cat("p", s, perm[0], perm[1], perm[2], perm[3], perm[4])));
            } while (std::next_permutation(rest.begin(), rest.end()));
        });
    }
    // 4. all histories of insertions, removals and moves of up to four objects, to a depth
    const int depth = r.thorough() ? 7 : 6;
    std::vector<Tri> pos{all[3], all[700], all[1300], all[1999 % all.size()], all[50], all[820]};
    for (int first = 0; first < 64; ++first) {
        if (!r.take()) continue;
        r.run([&] { return cat("histories of insert, remove and move, first operations ", first); }, [&] {
            // operation o: object o/4... encoded as object (0..3) x {insert at A, remove, move to B, move to A}
            std::vector<int> h;
            auto replay = [&](bool ask) {
                TriangleMesh empty; AABB_tree tree(empty.View());
                std::map<IndexType, Tri> live;
                for (int o : h) {
                    IndexType ob = (IndexType)(o % 4); int op = o / 4; bool has = live.count(ob);
                    Tri t = op == 2 ? pos[(ob + 2) % 6] : pos[ob];
                    auto lo = pt(bmin(t)), hi = pt(bmax(t));
                    bool threw = false;
                    try {
                        if (op == 0) tree.insertParticle((unsigned)ob, lo, hi);
                        else if (op == 1) tree.removeParticle((unsigned)ob);
                        else tree.updateParticle((unsigned)ob, lo, hi, op == 3);
                    } catch (const std::exception&) { threw = true; }
                    bool ok = op == 0 ? !has : has;
                    VP_CHECK(threw == !ok, "operation ", o, ok ? " was refused" : " was accepted");
                    if (ok) { if (op == 1) live.erase(ob); else live[ob] = t; }
                    // a refused operation must not change anything: the history goes on
                }
                if (!ask) return;
                if (!live.empty()) tree.validate();
                for (auto& b : {std::array<P3, 2>{P3{0, 0, 0}, P3{2, 2, 2}}, {P3{0, 0, 0}, P3{0.5L, 0.5L, 0.5L}}, {P3{1.5L, 1.5L, 1.5L}, P3{2, 2, 2}}, {P3{0.5L, 0.5L, -1}, P3{0.75L, 2.5L, 1}}}) {
                    AABB_primitive prim(pt(b[0]), pt(b[1]));
                    auto v = tree.Query(prim); std::set<IndexType> s(v.begin(), v.end());
                    VP_CHECK(s.size() == v.size(), "query returned an object twice");
                    for (auto i : s) VP_CHECK(live.count(i), "query returned a removed object");
                    for (auto& [i, t] : live) { P3 a = bmin(t), c = bmax(t); bool meet = true; for (int d = 0; d < 3; ++d) meet = meet && a[d] <= b[1][d] && c[d] >= b[0][d]; VP_CHECK(!meet || s.count(i), "query misses object ", i); }
                }
                ++r.traces; ++r.states;
                if (live.size() > 1) ++h_n[5];
            };
            std::function<void(int)> go = [&](int dleft) {
                try { replay(true); } catch (const Stop&) { std::string s; for (int o : h) s += cat(o, " "); r.violations.back().msg += " after the operations " + s; throw; }
                if (!dleft) return;
                // symmetry: objects appear in order of their numbers
                int mx = -1; for (int o : h) mx = std::max(mx, o % 4);
                for (int o = 0; o < 16; ++o) { if (o % 4 > mx + 1) continue; bool present = false; for (int x : h) if (x % 4 == o % 4 && x / 4 == 0) present = true; if (!present && o / 4 != 0) { if (h.size() > 1) continue; } h.push_back(o); go(dleft - 1); h.pop_back(); }
            };
            int a = first % 16, b = first / 16;   // second operation on object 0 or 1
            if (a % 4 != 0) return;
            h = {a}; int second[4] = {0, 4, 8, 1};
            h.push_back(second[b]);
            go(depth - 2);
            r.nontrivial(fnv(cat("h", first)));
        });
    }
    r.count("box/triangle pairs that meet", h_n[0]); r.count("ray hits", h_n[1]); r.count("exact triangle/box decisions", h_n[2]); r.count("touching decisions", h_n[3]);
    r.count("ray/triangle hits compared", h_n[4]); r.count("histories with two or more objects", h_n[5]);
}
int main(int argc, char** argv) {
    R().init(argc, argv);
    if (R().prop == "C13") C13();
    if (R().prop == "C27") C27();
    return R().finish();
}
