// C04: every cell of every small grid classified against exact reference solids.
#include "vp.hpp"
#include "settings.hpp"
#include "solid.hpp"
#include "queso/embedding/brep_operator.h"
#include <omp.h>
using namespace vp;

// Does the surface pass through the open box [lo,hi]? Exact up to eps: 1 yes (by more than eps), 0 no, -1 too close to call.
static bool triMeets(P3 a, P3 b, P3 c, P3 lo, P3 hi) {
    Poly p{a, b, c};
    for (int d = 0; d < 3; ++d) for (int s = 0; s < 2; ++s) {
        Poly q; ld pos = s ? hi[d] : lo[d]; ld sg = s ? 1 : -1;
        for (size_t i = 0; i < p.size(); ++i) {
            P3 u = p[i], v = p[(i + 1) % p.size()];
            ld du = sg * (u[d] - pos), dv = sg * (v[d] - pos);
            if (du <= 0) q.push_back(u);
            if ((du < 0 && dv > 0) || (du > 0 && dv < 0)) q.push_back(u + (du / (du - dv)) * (v - u));
        }
        p = q;
        if (p.empty()) return false;
    }
    return true;
}
static bool meets(const Solid& s, P3 lo, P3 hi) {
    for (auto& t : s.mesh.TriangleIndices())
        if (triMeets(p3(s.mesh.Vertex(t[0])), p3(s.mesh.Vertex(t[1])), p3(s.mesh.Vertex(t[2])), lo, hi)) return true;
    return false;
}

static void Check(const Solid& s, const Cfg& c, const std::function<std::string()>& describe) {
    auto& r = R();
    auto set = MakeSettings(c);
    GridIndexer gi(*set);
    BRepOperator op(s.mesh);
    auto st = op.pGetElementClassifications(*set);
    VP_CHECK(st->size() == gi.NumberOfElements(), "one state per cell");
    bool in = false, out = false, cut = false, notcut_face = false;
    for (IndexType i = 0; i < gi.NumberOfElements(); ++i) {
        auto b = gi.GetBoundingBoxXYZFromIndex(i);
        P3 lo = p3(b.lower), hi = p3(b.upper), D = hi - lo;
        ld e = 1e-9L * std::max({D.x, D.y, D.z}), e2 = 1e-14L * std::max({D.x, D.y, D.z});
        bool deep = meets(s, lo + P3{e, e, e}, hi - P3{e, e, e});
        bool shallow = meets(s, lo + P3{e2, e2, e2}, hi - P3{e2, e2, e2});
        auto got = (*st)[i];
        ++r.states;
        P3 ctr = 0.5L * (lo + hi);
        if (deep) {
            VP_CHECK(got == IntersectionState::trimmed, "cell ", i, " is cut by the surface but reported ", got);
            cut = true;
        } else {
            // the surface only grazes the cell (or not at all)
            bool inside = s.inside(ctr);
            if (!shallow) VP_CHECK(got != IntersectionState::trimmed, "cell ", i, " is not cut but reported cut");
            if (got != IntersectionState::trimmed)
                VP_CHECK((got == IntersectionState::inside) == inside, "cell ", i, " is ", inside ? "inside" : "outside", " but reported ", got);
            (inside ? in : out) = true;
            if (meets(s, lo - P3{e, e, e}, hi + P3{e, e, e})) notcut_face = true;
        }
        // single-cell queries agree
        bool t1 = op.IsTrimmed(b.lower, b.upper);
        if (deep) VP_CHECK(t1, "cell ", i, " is cut but IsTrimmed says no");
        if (!shallow) VP_CHECK(!t1, "cell ", i, " is not cut but IsTrimmed says yes");
        if (!t1) VP_CHECK(op.GetIntersectionState(b.lower, b.upper) == (s.inside(ctr) ? IntersectionState::inside : IntersectionState::outside), "single-cell state of cell ", i);
    }
    if (in && out && (cut || notcut_face)) { r.nontrivial(fnv(describe())); if (in && out && cut && notcut_face) r.sample(describe()); }
    if (notcut_face) r.count("cases with the surface on cell faces");
    if (in && out && cut) r.count("cases with inside, outside and cut cells");
}

int main(int argc, char** argv) {
    auto& r = R(); r.init(argc, argv);
    omp_set_num_threads(1);
    const bool th = r.thorough();
    auto go = [&](auto makeSolid, const Cfg& c, const std::string& what) {
        if (!r.take()) return;
        auto d = [what, c] { return cat(what, " grid n=", str(c.n), " lo=", str(c.lo), " hi=", str(c.hi)); };
        r.run(d, [&] { Solid s = makeSolid(); Check(s, c, d); });
    };
    // 1. voxel solids; the grid planes hit the voxel planes, halve them, or miss them
    struct G { PointType lo, hi; Vector3i n; };
    auto voxels = [&](int nx, int ny, int nz, const std::vector<std::vector<double>>& coords, const std::vector<G>& grids, bool all) {
        uint64_t lim = 1ULL << (nx * ny * nz);
        for (uint64_t m = 1; m < lim; ++m) {
            if (!all && !voxelManifold(nx, ny, nz, m)) continue;
            for (auto& g : grids) for (auto& cs : coords) {
                auto cut = [&](int n) { return std::vector<double>(cs.begin(), cs.begin() + n + 1); };
                Cfg c; c.lo = g.lo; c.hi = g.hi; c.n = g.n;
                go([&] { return voxelSolid(cut(nx), cut(ny), cut(nz), m, m & 1, (int)(m % 3)); }, c, cat("voxels ", nx, ny, nz, " mask=", m, " spacing ", cs[1] - cs[0], " at ", cs[0]));
            }
        }
    };
    std::vector<std::vector<double>> co = {{0, 1, 2, 3}, {0.1, 0.9, 2.05, 2.8}};
    std::vector<G> gs = {
        {{0, 0, 0}, {2, 2, 2}, {2, 2, 2}},          // grid box = solid box
        {{-1, -1, -1}, {3, 3, 3}, {4, 4, 4}},       // one layer around, aligned
        {{-1, -1, -1}, {3, 3, 3}, {8, 8, 8}},       // two cells per voxel
        {{-0.5, -0.5, -0.5}, {2.5, 2.5, 2.5}, {6, 3, 3}},
        {{-0.3, -0.2, -0.1}, {2.3, 2.3, 2.3}, {5, 4, 3}},
        {{0, 0, 0}, {2, 2, 2}, {4, 2, 1}},
        {{0, 0, 0}, {2, 2, 2}, {1, 4, 3}},
        {{0.5, 0.5, 0.5}, {1.5, 1.5, 1.5}, {2, 2, 3}},   // grid inside the solid's box
        {{0.25, 0.25, 0.25}, {0.75, 0.75, 0.75}, {2, 1, 3}},   // no surface in the grid box
        {{-1, 0, 0}, {1, 2, 2}, {3, 2, 2}},
    };
    voxels(2, 2, 2, co, gs, true);
    {
        std::vector<G> g3 = {{{0, 0, 0}, {3, 3, 2}, {3, 3, 2}}, {{-1, -1, -1}, {4, 4, 3}, {10, 5, 4}}, {{-0.1, -0.1, -0.1}, {3.1, 3.1, 2.1}, {7, 8, 5}}};
        if (th) voxels(3, 3, 2, co, g3, false);
        else voxels(3, 2, 2, {co[0]}, {g3[0], g3[2]}, false);
    }
    // other scales and offsets
    for (double sc : {1e-3, 250.0}) for (double off : {0.0, -3.7}) {
        std::vector<G> g2;
        for (auto g : {gs[0], gs[1], gs[4], gs[6]}) {
            for (int d = 0; d < 3; ++d) { g.lo[d] = sc * (g.lo[d] + off); g.hi[d] = sc * (g.hi[d] + off); }
            g2.push_back(g);
        }
        std::vector<std::vector<double>> c2;
        for (auto v : co) { for (auto& x : v) x = sc * (x + off); c2.push_back(v); }
        voxels(2, 2, 2, {c2[0]}, g2, true);
        if (th) voxels(2, 2, 2, {c2[1]}, g2, true);
    }
    // cavities and a tunnel
    for (auto& g : std::vector<G>{{{0, 0, 0}, {3, 3, 3}, {3, 3, 3}}, {{0, 0, 0}, {3, 3, 3}, {6, 6, 6}}, {{-1, -1, -1}, {4, 4, 4}, {5, 5, 5}}, {{-0.1, -0.1, -0.1}, {3.1, 3.1, 3.1}, {9, 8, 7}}, {{-0.5, 0, 0}, {3.5, 3, 3}, {12, 3, 3}}})
        for (uint64_t hole = 0; hole < (th ? 512u : 64u); ++hole) {
            // remove a subset of the middle layer's voxels and/or the centre column
            uint64_t m = (1ULL << 27) - 1;
            for (int b = 0; b < 9; ++b) if (hole >> b & 1) m &= ~(1ULL << (9 + (b + 4) % 9));
            if (!voxelManifold(3, 3, 3, m)) continue;
            Cfg c; c.lo = g.lo; c.hi = g.hi; c.n = g.n;
            go([&] { return voxelSolid({0, 1, 2, 3}, {0, 1, 2, 3}, {0, 1, 2, 3}, m, hole & 1, (int)(hole % 3)); }, c, cat("voxels 333 mask=", m));
        }
    // 2. lattice tetrahedra
    {
        std::vector<P3> L;
        for (int i = 0; i < 27; ++i) L.push_back({(ld)(i % 3), (ld)(i / 3 % 3), (ld)(i / 9)});
        std::vector<G> g = {{{0, 0, 0}, {2, 2, 2}, {2, 2, 2}}, {{-0.5, -0.5, -0.5}, {2.5, 2.5, 2.5}, {6, 6, 6}}, {{-0.13, -0.21, -0.17}, {2.1, 2.2, 2.3}, {5, 3, 4}}, {{0, 0, 0}, {2, 2, 2}, {4, 4, 4}}};
        for (size_t a = 0; a < 27; ++a) for (size_t b = a + 1; b < 27; ++b) for (size_t cc = b + 1; cc < 27; ++cc) for (size_t d = cc + 1; d < 27; ++d) {
            ld v = dot(L[b] - L[a], cross(L[cc] - L[a], L[d] - L[a]));
            if (std::abs(v) < 0.5L) continue;
            size_t h = (a * 7 + b * 5 + cc * 3 + d) % 4;
            for (size_t q = 0; q < g.size(); ++q) {
                if (!th && q != h) continue;
                Cfg c; c.lo = g[q].lo; c.hi = g[q].hi; c.n = g[q].n;
                go([&] { return convexSolid("tet", tetPiece(L[a], L[b], L[cc], L[d]), (int)(a % 3)); }, c, cat("tet ", a, ",", b, ",", cc, ",", d));
            }
        }
    }
    // 3. prisms over simple lattice polygons
    {
        std::vector<P2> L;
        for (int i = 0; i < 9; ++i) L.push_back({(ld)(i % 3), (ld)(i / 3)});
        std::vector<G> g = {{{0, 0, 0}, {2, 2, 2}, {2, 2, 2}}, {{-0.5, -0.5, -0.5}, {2.5, 2.5, 2.5}, {6, 6, 6}}, {{-0.13, -0.21, -0.17}, {2.1, 2.2, 2.3}, {7, 5, 6}}};
        for (size_t k = 4; k <= (th ? 6u : 5u); ++k) {
            std::vector<size_t> id(k);
            std::function<void(size_t)> rec = [&](size_t pos) {
                if (pos == k) {
                    std::vector<P2> p; for (auto i : id) p.push_back(L[i]);
                    if (id[1] > id[k - 1] || !simplePolygon(p)) return;
                    size_t h = 0; for (auto i : id) h = h * 5 + i;
                    for (int ax = 0; ax < 3; ++ax) for (size_t q = 0; q < g.size(); ++q) {
                        if (!th && (size_t)ax != h % 3 ) continue;
                        if (!th && k == 5 && q != h / 3 % 3) continue;
                        Cfg c; c.lo = g[q].lo; c.hi = g[q].hi; c.n = g[q].n;
                        std::string s = cat("prism axis ", ax, " polygon"); for (auto i : id) s += cat(" ", i);
                        go([&] { return prismSolid(p, ax, h & 1 ? 0.0L : 0.5L, h & 1 ? 2.0L : 1.75L); }, c, s);
                    }
                    return;
                }
                for (size_t i = (pos ? id[0] + 1 : 0); i < 9; ++i) {
                    if (std::find(id.begin(), id.begin() + (long)pos, i) != id.begin() + (long)pos) continue;
                    id[pos] = i; rec(pos + 1);
                }
            };
            rec(0);
        }
    }
    return r.finish();
}
