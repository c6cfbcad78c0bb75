// Families of reference solids shared by the geometry harnesses.
#pragma once
#include "solid.hpp"
namespace vp {
struct Made { std::string name; std::function<Solid()> make; };

inline std::vector<P3> lattice3() { std::vector<P3> L; for (int i = 0; i < 27; ++i) L.push_back({(ld)(i % 3), (ld)(i / 3 % 3), (ld)(i / 9)}); return L; }

template <class F> void latticeTets(F f) {
    static const auto L = lattice3();
    size_t no = 0;
    for (size_t a = 0; a < 27; ++a) for (size_t b = a + 1; b < 27; ++b) for (size_t c = b + 1; c < 27; ++c) for (size_t d = c + 1; d < 27; ++d) {
        if (std::abs(dot(L[b] - L[a], cross(L[c] - L[a], L[d] - L[a]))) < 0.5L) continue;
        f(no++, Made{cat("tet ", a, ",", b, ",", c, ",", d), [=] { return convexSolid("tet", tetPiece(L[a], L[b], L[c], L[d]), (int)(a % 3)); }});
    }
}
// all simple polygons with k vertices on {0,1,2}^2 (no collinear triples of consecutive vertices), extruded
template <class F> void latticePrisms(size_t k, F f) {
    std::vector<P2> L;
    for (int i = 0; i < 9; ++i) L.push_back({(ld)(i % 3), (ld)(i / 3)});
    std::vector<size_t> id(k);
    size_t no = 0;
    std::function<void(size_t)> rec = [&](size_t pos) {
        if (pos == k) {
            std::vector<P2> p; for (auto i : id) p.push_back(L[i]);
            if (id[1] > id[k - 1] || !simplePolygon(p)) return;
            size_t h = 0; for (auto i : id) h = h * 5 + i;
            std::string s = cat("prism axis ", h % 3, " polygon"); for (auto i : id) s += cat(" ", i);
            f(no++, Made{s, [=] { return prismSolid(p, (int)(h % 3), h & 1 ? 0.0L : 0.5L, h & 1 ? 2.0L : 1.75L); }});
            return;
        }
        for (size_t i = (pos ? id[0] + 1 : 0); i < 9; ++i) {
            if (std::find(id.begin(), id.begin() + (long)pos, i) != id.begin() + (long)pos) continue;
            id[pos] = i; rec(pos + 1);
        }
    };
    rec(0);
}
inline Made voxelMade(std::vector<double> xs, std::vector<double> ys, std::vector<double> zs, uint64_t m) {
    return {cat("voxels ", xs.size() - 1, ys.size() - 1, zs.size() - 1, " mask=", m, " spacing ", xs[1] - xs[0], " at ", xs[0]),
            [=] { return voxelSolid(xs, ys, zs, m, m & 1, (int)(m % 3)); }};
}
inline uint64_t cavityMask(uint64_t hole) {
    uint64_t m = (1ULL << 27) - 1;
    for (int b = 0; b < 9; ++b) if (hole >> b & 1) m &= ~(1ULL << (9 + (b + 4) % 9));
    return m;
}
// octahedron-like and rotated convex solids: image of a piece under a linear map
inline Piece mapPiece(Piece p, const std::function<P3(P3)>& g) {
    for (auto& f : p.faces) for (auto& v : f) v = p3(pt(g(v)));
    p.planes.clear();
    for (auto& f : p.faces) p.planes.push_back(planeOf(f));
    return p;
}
inline P3 rotate(P3 v, P3 ax, ld ang) {
    ax = (1 / norm(ax)) * ax;
    return std::cos(ang) * v + std::sin(ang) * cross(ax, v) + ((1 - std::cos(ang)) * dot(ax, v)) * ax;
}
// uniform transformation of a whole solid
inline Solid transformed(const Solid& s, ld scale, P3 off) {
    auto g = [&](P3 v) { return p3(pt(scale * v + off)); };
    Solid r; r.name = s.name;
    for (auto& p : s.pieces) r.pieces.push_back(mapPiece(p, g));
    for (IndexType i = 0; i < s.mesh.NumOfVertices(); ++i) r.mesh.AddVertex(pt(g(p3(s.mesh.Vertex(i)))));
    for (IndexType i = 0; i < s.mesh.NumOfTriangles(); ++i) {
        auto n = s.mesh.Normal(i);
        r.mesh.AddTriangle(s.mesh.TriangleIndices()[i], Vector3d{n[0], n[1], n[2]});
    }
    return r;
}
} // namespace vp
