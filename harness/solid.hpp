// Exact reference solids: unions of convex polyhedra with their closed boundary mesh, point membership,
// intersection with boxes and moments (long double).
#pragma once
#include "vp.hpp"
#include <algorithm>
#include "queso/containers/triangle_mesh.hpp"
#include "queso/containers/triangle_mesh_view.hpp"
namespace vp {
using queso::TriangleMesh;
using queso::PointType;
using queso::IndexType;
using queso::Vector3i;
using queso::Vector3d;
using ld = long double;
struct P3 {
    ld x = 0, y = 0, z = 0;
    ld& operator[](int i) { return i == 0 ? x : i == 1 ? y : z; }
    ld operator[](int i) const { return i == 0 ? x : i == 1 ? y : z; }
};
inline P3 operator+(P3 a, P3 b) { return {a.x + b.x, a.y + b.y, a.z + b.z}; }
inline P3 operator-(P3 a, P3 b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; }
inline P3 operator*(ld s, P3 a) { return {s * a.x, s * a.y, s * a.z}; }
inline ld dot(P3 a, P3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
inline P3 cross(P3 a, P3 b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
inline ld norm(P3 a) { return std::sqrt(dot(a, a)); }
template <class V> P3 p3(const V& v) { return {v[0], v[1], v[2]}; }
inline PointType pt(P3 a) { return PointType{(double)a.x, (double)a.y, (double)a.z}; }

struct Plane { P3 n; ld d; };                 // inside: n.x <= d, |n| = 1
using Poly = std::vector<P3>;

struct Piece {                                // convex polyhedron
    std::vector<Plane> planes;                // one per face
    std::vector<Poly> faces;                  // ccw from outside

    bool empty() const { return faces.size() < 4; }
    // clip by n.x <= d
    Piece clip(Plane pl, ld eps = 1e-15L) const {
        Piece r;
        std::vector<P3> cap;
        bool cut = false;
        for (size_t f = 0; f < faces.size(); ++f) {
            const Poly& p = faces[f];
            Poly q;
            bool any_in = false;
            for (size_t i = 0; i < p.size(); ++i) {
                P3 a = p[i], b = p[(i + 1) % p.size()];
                ld da = dot(pl.n, a) - pl.d, db = dot(pl.n, b) - pl.d;
                if (da <= eps) { q.push_back(a); if (da >= -eps) cap.push_back(a); else any_in = true; } else cut = true;
                if ((da > eps && db < -eps) || (da < -eps && db > eps)) {
                    P3 c = a + (da / (da - db)) * (b - a);
                    q.push_back(c); cap.push_back(c);
                }
            }
            if (q.size() >= 3 && any_in) { r.faces.push_back(q); r.planes.push_back(planes[f]); }
        }
        if (!cut) return *this;
        // cap polygon
        std::vector<P3> u;
        for (auto& c : cap) {
            bool dup = false;
            for (auto& e : u) if (norm(e - c) < 1e-13L) dup = true;
            if (!dup) u.push_back(c);
        }
        if (r.faces.empty()) return Piece{};
        if (u.size() >= 3) {
            P3 m; for (auto& c : u) m = m + c; m = (1.0L / u.size()) * m;
            P3 e1 = u[0] - m; e1 = (1 / norm(e1)) * e1; P3 e2 = cross(pl.n, e1);
            std::sort(u.begin(), u.end(), [&](P3 a, P3 b) {
                return std::atan2(dot(a - m, e2), dot(a - m, e1)) < std::atan2(dot(b - m, e2), dot(b - m, e1)); });
            r.faces.push_back(u); r.planes.push_back(pl);
        }
        if (r.faces.size() < 4) return Piece{};
        return r;
    }
    Piece clipBox(P3 lo, P3 hi) const {
        Piece r = *this;
        for (int d = 0; d < 3 && !r.empty(); ++d) {
            P3 n; n[d] = 1; r = r.clip({n, hi[d]});
            if (r.empty()) break;
            P3 m; m[d] = -1; r = r.clip({m, -lo[d]});
        }
        return r;
    }
    template <class F> void tets(F f) const {
        if (empty()) return;
        P3 c = faces[0][0];
        for (auto& p : faces) for (size_t i = 1; i + 1 < p.size(); ++i) f(c, p[0], p[i], p[i + 1]);
    }
    ld volume() const { ld v = 0; tets([&](P3 a, P3 b, P3 c, P3 d) { v += dot(b - a, cross(c - a, d - a)) / 6; }); return v; }
    // > 0 strictly inside (distance to nearest face), < 0 outside
    ld depth(P3 p) const { ld m = 1e30L; for (auto& pl : planes) m = std::min(m, pl.d - dot(pl.n, p)); return empty() ? -1e30L : m; }
};

inline Plane planeOf(const Poly& p) {
    P3 n;
    for (size_t i = 1; i + 1 < p.size(); ++i) n = n + cross(p[i] - p[0], p[i + 1] - p[0]);
    n = (1 / norm(n)) * n;
    return {n, dot(n, p[0])};
}
inline Piece pieceFromFaces(std::vector<Poly> f) {
    Piece r; r.faces = std::move(f);
    for (auto& p : r.faces) r.planes.push_back(planeOf(p));
    return r;
}
inline Piece hexPiece(const std::array<P3, 8>& v) {  // v[i + 2j + 4k]
    return pieceFromFaces({{v[0], v[2], v[3], v[1]}, {v[4], v[5], v[7], v[6]}, {v[0], v[1], v[5], v[4]},
                           {v[2], v[6], v[7], v[3]}, {v[0], v[4], v[6], v[2]}, {v[1], v[3], v[7], v[5]}});
}
inline Piece boxPiece(P3 lo, P3 hi) {
    std::array<P3, 8> v;
    for (int i = 0; i < 8; ++i) v[i] = {i & 1 ? hi.x : lo.x, i & 2 ? hi.y : lo.y, i & 4 ? hi.z : lo.z};
    return hexPiece(v);
}
inline Piece tetPiece(P3 a, P3 b, P3 c, P3 d) {
    if (dot(b - a, cross(c - a, d - a)) < 0) std::swap(c, d);
    return pieceFromFaces({{a, c, b}, {a, b, d}, {b, c, d}, {a, d, c}});
}

// ---- Gauss-Legendre on [0,1] (n=9) for reference moments
inline const std::vector<std::pair<ld, ld>>& gl(int n) {
    static std::map<int, std::vector<std::pair<ld, ld>>> cache;
    auto& v = cache[n];
    if (v.empty()) {
        for (int i = 0; i < n; ++i) {
            ld x = std::cos(3.141592653589793238462643383279L * (i + 0.75L) / (n + 0.5L)), dp = 0;
            for (int it = 0; it < 100; ++it) {
                ld p0 = 1, p1 = x;
                for (int k = 2; k <= n; ++k) { ld p2 = ((2 * k - 1) * x * p1 - (k - 1) * p0) / k; p0 = p1; p1 = p2; }
                if (n == 1) { p1 = x; p0 = 1; }
                dp = n * (x * p1 - p0) / (x * x - 1);
                ld dx = p1 / dp; x -= dx;
                if (std::abs(dx) < 1e-19L) break;
            }
            v.push_back({(1 + x) / 2, 1 / ((1 - x * x) * dp * dp)});
        }
    }
    return v;
}
// visit quadrature points (exact for total degree <= 2n-3) of a tet
template <class F> void tetQuad(P3 a, P3 b, P3 c, P3 d, int n, F f) {
    ld vol6 = dot(b - a, cross(c - a, d - a));
    for (auto& [x, wx] : gl(n)) for (auto& [y, wy] : gl(n)) for (auto& [z, wz] : gl(n)) {
        // collapsed coordinates
        ld u = x, v = (1 - x) * y, w = (1 - x) * (1 - y) * z;
        ld jac = (1 - x) * (1 - x) * (1 - y);
        f(a + u * (b - a) + v * (c - a) + w * (d - a), wx * wy * wz * jac * vol6);
    }
}

struct Solid {
    std::string name;
    TriangleMesh mesh;
    std::vector<Piece> pieces;       // interiors disjoint, union = solid
    ld volume() const { ld v = 0; for (auto& p : pieces) v += p.volume(); return v; }
    ld volumeIn(P3 lo, P3 hi) const { ld v = 0; for (auto& p : pieces) v += p.clipBox(lo, hi).volume(); return v; }
    std::vector<Piece> clipped(P3 lo, P3 hi) const {
        std::vector<Piece> r;
        for (auto& p : pieces) { auto q = p.clipBox(lo, hi); if (!q.empty() && q.volume() > 1e-18L) r.push_back(q); }
        return r;
    }
    // distance to the surface (unsigned), over the mesh
    ld surfaceDistance(P3 p) const {
        ld m = 1e30L;
        for (IndexType t = 0; t < mesh.NumOfTriangles(); ++t) {
            auto& id = mesh.TriangleIndices()[t];
            P3 a = p3(mesh.Vertex(id[0])), b = p3(mesh.Vertex(id[1])), c = p3(mesh.Vertex(id[2]));
            m = std::min(m, triDist(p, a, b, c));
        }
        return m;
    }
    // inside the closed union; only meaningful when the point is off the surface
    bool inside(P3 p) const { for (auto& q : pieces) if (q.depth(p) >= -1e-14L) return true; return false; }
    static ld segDist(P3 p, P3 a, P3 b) {
        P3 d = b - a; ld t = dot(p - a, d) / dot(d, d); t = std::max(0.0L, std::min(1.0L, t));
        return norm(p - a - t * d);
    }
    static ld triDist(P3 p, P3 a, P3 b, P3 c) {
        P3 n = cross(b - a, c - a); ld l = norm(n);
        if (l > 0) {
            n = (1 / l) * n;
            P3 q = p - dot(p - a, n) * n;
            if (dot(cross(b - a, q - a), n) >= 0 && dot(cross(c - b, q - b), n) >= 0 && dot(cross(a - c, q - c), n) >= 0)
                return std::abs(dot(p - a, n));
        }
        return std::min({segDist(p, a, b), segDist(p, b, c), segDist(p, c, a)});
    }
};

struct MeshBuilder {
    TriangleMesh m;
    std::map<std::array<double, 3>, IndexType> ids;
    int rot = 0;             // rotate the vertex order of every triangle
    bool share = true;
    IndexType vid(P3 p) {
        std::array<double, 3> k{(double)p.x, (double)p.y, (double)p.z};
        if (share) { auto it = ids.find(k); if (it != ids.end()) return it->second; }
        return ids[k] = m.AddVertex(pt(p));
    }
    void tri(P3 a, P3 b, P3 c) {
        P3 n = cross(b - a, c - a); n = (1 / norm(n)) * n;
        std::array<P3, 3> v{a, b, c};
        std::array<IndexType, 3> id;
        for (int i = 0; i < 3; ++i) id[i] = vid(v[(i + rot) % 3]);
        m.AddTriangle(Vector3i{id[0], id[1], id[2]}, Vector3d{(double)n.x, (double)n.y, (double)n.z});
    }
    void quad(P3 a, P3 b, P3 c, P3 d, bool flip = false) {
        if (flip) { tri(b, c, d); tri(b, d, a); } else { tri(a, b, c); tri(a, c, d); }
    }
    void fan(const Poly& p, size_t start = 0) {
        for (size_t i = 1; i + 1 < p.size(); ++i) tri(p[start % p.size()], p[(start + i) % p.size()], p[(start + i + 1) % p.size()]);
    }
};

inline Solid convexSolid(const std::string& name, Piece p, int rot = 0, size_t start = 0) {
    // round vertices to double first so mesh and pieces agree
    for (auto& f : p.faces) for (auto& v : f) v = p3(pt(v));
    Solid s; s.name = name;
    MeshBuilder b; b.rot = rot;
    for (auto& f : p.faces) b.fan(f, start);
    s.mesh = std::move(b.m);
    s.pieces = {std::move(p)};
    return s;
}

// Voxel solid: bit i+nx*(j+ny*k) of mask; xs,ys,zs are the plane coordinates.
inline Solid voxelSolid(const std::vector<double>& xs, const std::vector<double>& ys, const std::vector<double>& zs,
                        uint64_t mask, bool flip = false, int rot = 0) {
    int nx = (int)xs.size() - 1, ny = (int)ys.size() - 1, nz = (int)zs.size() - 1;
    auto has = [&](int i, int j, int k) {
        return i >= 0 && j >= 0 && k >= 0 && i < nx && j < ny && k < nz && ((mask >> (i + nx * (j + ny * k))) & 1); };
    Solid s; s.name = cat("voxels ", nx, "x", ny, "x", nz, " mask=", mask, flip ? " flip" : "", rot ? " rot" : "");
    MeshBuilder b; b.rot = rot;
    auto P = [&](int i, int j, int k) { return P3{xs[i], ys[j], zs[k]}; };
    for (int k = 0; k < nz; ++k) for (int j = 0; j < ny; ++j) for (int i = 0; i < nx; ++i) {
        if (!has(i, j, k)) continue;
        s.pieces.push_back(boxPiece(P(i, j, k), P(i + 1, j + 1, k + 1)));
        if (!has(i - 1, j, k)) b.quad(P(i, j, k), P(i, j, k + 1), P(i, j + 1, k + 1), P(i, j + 1, k), flip);
        if (!has(i + 1, j, k)) b.quad(P(i + 1, j, k), P(i + 1, j + 1, k), P(i + 1, j + 1, k + 1), P(i + 1, j, k + 1), flip);
        if (!has(i, j - 1, k)) b.quad(P(i, j, k), P(i + 1, j, k), P(i + 1, j, k + 1), P(i, j, k + 1), flip);
        if (!has(i, j + 1, k)) b.quad(P(i, j + 1, k), P(i, j + 1, k + 1), P(i + 1, j + 1, k + 1), P(i + 1, j + 1, k), flip);
        if (!has(i, j, k - 1)) b.quad(P(i, j, k), P(i, j + 1, k), P(i + 1, j + 1, k), P(i + 1, j, k), flip);
        if (!has(i, j, k + 1)) b.quad(P(i, j, k + 1), P(i + 1, j, k + 1), P(i + 1, j + 1, k + 1), P(i, j + 1, k + 1), flip);
    }
    s.mesh = std::move(b.m);
    return s;
}
// every edge shared by exactly two faces and no vertex-only contact (2-manifold surface)
inline bool voxelManifold(int nx, int ny, int nz, uint64_t mask) {
    auto has = [&](int i, int j, int k) {
        return i >= 0 && j >= 0 && k >= 0 && i < nx && j < ny && k < nz && ((mask >> (i + nx * (j + ny * k))) & 1); };
    for (int k = 0; k <= nz; ++k) for (int j = 0; j <= ny; ++j) for (int i = 0; i <= nx; ++i) {
        bool c[2][2][2]; int n = 0;
        for (int a = 0; a < 2; ++a) for (int b = 0; b < 2; ++b) for (int d = 0; d < 2; ++d) { c[a][b][d] = has(i - 1 + a, j - 1 + b, k - 1 + d); n += c[a][b][d]; }
        for (int a = 0; a < 2; ++a) {
            if (c[a][0][0] == c[a][1][1] && c[a][0][1] == c[a][1][0] && c[a][0][0] != c[a][0][1]) return false;
            if (c[0][a][0] == c[1][a][1] && c[0][a][1] == c[1][a][0] && c[0][a][0] != c[0][a][1]) return false;
            if (c[0][0][a] == c[1][1][a] && c[0][1][a] == c[1][0][a] && c[0][0][a] != c[0][1][a]) return false;
        }
        // opposite corners only
        for (int a = 0; a < 4; ++a) {
            bool x = a & 1, y = a & 2;
            if (n == 2 && c[x][y][0] && c[!x][!y][1]) return false;
            if (n == 6 && !c[x][y][0] && !c[!x][!y][1]) return false;
        }
    }
    return true;
}

// Prism over a simple polygon given ccw in (u,v), extruded along axis (u,v,axis cyclic).
inline bool segProper(std::array<ld, 2> a, std::array<ld, 2> b, std::array<ld, 2> c, std::array<ld, 2> d) {
    auto o = [](auto p, auto q, auto r) { ld v = (q[0] - p[0]) * (r[1] - p[1]) - (q[1] - p[1]) * (r[0] - p[0]); return v > 1e-12L ? 1 : v < -1e-12L ? -1 : 0; };
    auto on = [&](auto p, auto q, auto r) { return o(p, q, r) == 0 && std::min(p[0], q[0]) <= r[0] && r[0] <= std::max(p[0], q[0]) && std::min(p[1], q[1]) <= r[1] && r[1] <= std::max(p[1], q[1]); };
    return (o(a, b, c) != o(a, b, d) && o(c, d, a) != o(c, d, b)) || on(a, b, c) || on(a, b, d) || on(c, d, a) || on(c, d, b);
}
using P2 = std::array<ld, 2>;
inline ld area2(const std::vector<P2>& p) { ld a = 0; for (size_t i = 0; i < p.size(); ++i) { auto& q = p[(i + 1) % p.size()]; a += p[i][0] * q[1] - p[i][1] * q[0]; } return a / 2; }
inline bool simplePolygon(const std::vector<P2>& p) {
    size_t n = p.size();
    for (size_t i = 0; i < n; ++i) {
        auto a = p[i], b = p[(i + 1) % n], c = p[(i + 2) % n];
        if (std::abs((b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])) < 1e-12L) return false;  // collinear
        for (size_t j = i + 2; j < n; ++j) {
            if (i == 0 && j == n - 1) continue;
            if (segProper(a, b, p[j], p[(j + 1) % n])) return false;
        }
    }
    return true;
}
inline std::vector<std::array<size_t, 3>> earClip(const std::vector<P2>& p) {
    std::vector<size_t> v(p.size()); for (size_t i = 0; i < v.size(); ++i) v[i] = i;
    std::vector<std::array<size_t, 3>> r;
    auto cr = [&](size_t a, size_t b, size_t c) { return (p[b][0] - p[a][0]) * (p[c][1] - p[a][1]) - (p[b][1] - p[a][1]) * (p[c][0] - p[a][0]); };
    while (v.size() > 3) {
        bool f = false;
        for (size_t i = 0; i < v.size() && !f; ++i) {
            size_t a = v[(i + v.size() - 1) % v.size()], b = v[i], c = v[(i + 1) % v.size()];
            if (cr(a, b, c) <= 1e-12L) continue;
            bool ok = true;
            for (size_t q : v) if (q != a && q != b && q != c && cr(a, b, q) >= -1e-12L && cr(b, c, q) >= -1e-12L && cr(c, a, q) >= -1e-12L) ok = false;
            if (!ok) continue;
            r.push_back({a, b, c}); v.erase(v.begin() + (long)i); f = true;
        }
        if (!f) return {};
    }
    r.push_back({v[0], v[1], v[2]});
    return r;
}
inline Solid prismSolid(std::vector<P2> poly, int axis, ld lo, ld hi, const std::string& name = "prism") {
    if (area2(poly) < 0) std::reverse(poly.begin(), poly.end());
    Solid s; s.name = name;
    auto P = [&](P2 q, ld h) { P3 r; r[(axis + 1) % 3] = q[0]; r[(axis + 2) % 3] = q[1]; r[axis] = h; return r; };
    MeshBuilder b;
    for (auto& t : earClip(poly)) {
        P3 a0 = P(poly[t[0]], lo), b0 = P(poly[t[1]], lo), c0 = P(poly[t[2]], lo), a1 = P(poly[t[0]], hi), b1 = P(poly[t[1]], hi), c1 = P(poly[t[2]], hi);
        b.tri(a0, c0, b0); b.tri(a1, b1, c1);
        s.pieces.push_back(pieceFromFaces({{a0, c0, b0}, {a1, b1, c1}, {a0, b0, b1, a1}, {b0, c0, c1, b1}, {c0, a0, a1, c1}}));
    }
    for (size_t i = 0; i < poly.size(); ++i) {
        auto q = poly[i], r = poly[(i + 1) % poly.size()];
        b.quad(P(q, lo), P(r, lo), P(r, hi), P(q, hi));
    }
    s.mesh = std::move(b.m);
    return s;
}
} // namespace vp
