// C01 (cells of the background grid), C02 (directional walks)
#include "vp.hpp"
#include "settings.hpp"
using namespace queso;
using vp::R;
using Dir = GridIndexer::Direction;
using Info = GridIndexer::IndexInfo;

struct Space { PointType lo, hi; const char* name; };
static const std::vector<Space> kSpaces = {
    {{0, 0, 0}, {1, 1, 1}, "unit"},
    {{-24, -43, 5}, {85, 46, 115}, "large"},
    {{-1.5, 0.25, -3}, {-1.25, 7.75, -2.9}, "skew"},
    {{1e3, -1e3, 0}, {1e3 + 0.001, -1e3 + 10, 1e-3}, "thin"},
    {{0.1, 0.2, 0.3}, {0.7, 1.1, 2.4}, "decimal"},
};

static void C01() {
    const IndexType N = R().thorough() ? 9 : 6;
    for (size_t si = 0; si < kSpaces.size(); ++si)
    for (size_t ui = 0; ui < kSpaces.size(); ++ui)
    for (int gt = 0; gt < 2; ++gt)
    for (IndexType nx = 1; nx <= N; ++nx) for (IndexType ny = 1; ny <= N; ++ny) for (IndexType nz = 1; nz <= N; ++nz) {
        if (!R().take()) continue;
        const Space &S = kSpaces[si], &U = kSpaces[ui];
        R().run([&] { return vp::cat("grid ", nx, "x", ny, "x", nz, " xyz=", S.name, " uvw=", U.name, gt ? " hexahedral_fe_grid" : " b_spline_grid"); }, [&] {
            vp::Cfg c; c.lo = S.lo; c.hi = S.hi; c.lou = U.lo; c.hiu = U.hi; c.n = {nx, ny, nz};
            c.grid = gt ? GridType::hexahedral_fe_grid : GridType::b_spline_grid;
            auto s = vp::MakeSettings(c);
            GridIndexer g(*s);
            const IndexType total = nx * ny * nz;
            VP_CHECK(g.NumberOfElements() == total, "NumberOfElements = ", g.NumberOfElements(), " expected ", total);
            std::vector<char> seen(total, 0);
            IndexType expect = 0;
            const Vector3i n{nx, ny, nz};
            auto checkbox = [&](const BoundingBoxType& b, const Space& sp, const Vector3i& ijk, bool whole, const char* what) {
                for (int d = 0; d < 3; ++d) {
                    const long double len = (long double)sp.hi[d] - sp.lo[d];
                    const double l = whole ? sp.lo[d] : (double)(sp.lo[d] + len * ijk[d] / n[d]);
                    const double u = whole ? sp.hi[d] : (double)(sp.lo[d] + len * (ijk[d] + 1) / n[d]);
                    const double tol = 1e-13 * (1 + std::abs(sp.lo[d]) + std::abs(sp.hi[d]));
                    VP_CHECK(vp::close(b.lower[d], l, tol) && vp::close(b.upper[d], u, tol), what, " box of cell ", vp::str(ijk), " axis ", d,
                             " = [", b.lower[d], ",", b.upper[d], "] expected [", l, ",", u, "]");
                }
            };
            // triple loop x fastest: ids are consecutive
            for (IndexType k = 0; k < nz; ++k) for (IndexType j = 0; j < ny; ++j) for (IndexType i = 0; i < nx; ++i, ++expect) {
                const IndexType v = g.GetVectorIndexFromMatrixIndices(i, j, k);
                VP_CHECK(v < total, "index ", v, " of cell (", i, ",", j, ",", k, ") out of range");
                VP_CHECK(!seen[v], "index ", v, " given to two cells");
                seen[v] = 1;
                VP_CHECK(v == expect, "index of cell (", i, ",", j, ",", k, ") is ", v, " expected ", expect);
                VP_CHECK(g.GetVectorIndexFromMatrixIndices(Vector3i{i, j, k}) == v, "overloads of the forward map disagree");
                const auto m = g.GetMatrixIndicesFromVectorIndex(v);
                VP_CHECK(m[0] == i && m[1] == j && m[2] == k, "inverse map of ", v, " gives ", vp::str(m));
                const Vector3i ijk{i, j, k};
                checkbox(g.GetBoundingBoxXYZFromIndex(v), S, ijk, false, "xyz(index)");
                checkbox(g.GetBoundingBoxXYZFromIndex(ijk), S, ijk, false, "xyz(vector)");
                checkbox(g.GetBoundingBoxXYZFromIndex(i, j, k), S, ijk, false, "xyz(i,j,k)");
                checkbox(g.GetBoundingBoxUVWFromIndex(v), U, ijk, gt == 1, "uvw(index)");
                checkbox(g.GetBoundingBoxUVWFromIndex(ijk), U, ijk, gt == 1, "uvw(vector)");
                checkbox(g.GetBoundingBoxUVWFromIndex(i, j, k), U, ijk, gt == 1, "uvw(i,j,k)");
                // neighbours share their face (to the last bits): no gap, no overlap between the boxes
                if (i) VP_CHECK(vp::close(g.GetBoundingBoxXYZFromIndex(i - 1, j, k).upper[0], g.GetBoundingBoxXYZFromIndex(i, j, k).lower[0], 1e-15 * (std::abs(S.lo[0]) + std::abs(S.hi[0]))), "gap/overlap in x before cell ", vp::str(ijk));
                if (j) VP_CHECK(vp::close(g.GetBoundingBoxXYZFromIndex(i, j - 1, k).upper[1], g.GetBoundingBoxXYZFromIndex(i, j, k).lower[1], 1e-15 * (std::abs(S.lo[1]) + std::abs(S.hi[1]))), "gap/overlap in y before cell ", vp::str(ijk));
                if (k) VP_CHECK(vp::close(g.GetBoundingBoxXYZFromIndex(i, j, k - 1).upper[2], g.GetBoundingBoxXYZFromIndex(i, j, k).lower[2], 1e-15 * (std::abs(S.lo[2]) + std::abs(S.hi[2]))), "gap/overlap in z before cell ", vp::str(ijk));
                R().count("cells");
            }
            for (IndexType v = 0; v < total; ++v) VP_CHECK(seen[v], "index ", v, " belongs to no cell");
            if (total > 1 && !(nx == ny && ny == nz)) R().nontrivial(R().idx);
            if (nx == 2 && ny == 3 && nz == 1) R().sample(R().cur_desc());
        });
    }
}

// Grids of up to 2^60 cells: nothing but the indexer exists, so that first, second, middle and last cells can be visited.
static std::vector<IndexType> positions(IndexType n) {
    std::set<IndexType> s{0, n - 1, n / 2, n > 1 ? n - 2 : 0, n > 1 ? IndexType{1} : IndexType{0}};
    return {s.begin(), s.end()};
}
static const std::vector<IndexType>& largeSizes() {
    static const std::vector<IndexType> v = R().thorough() ? std::vector<IndexType>{1, 2, 7, 255, 257, 1000, 65537, 100000, 1048576} : std::vector<IndexType>{1, 2, 257, 65537, 1048576};
    return v;
}
static void C01large() {
    for (IndexType nx : largeSizes()) for (IndexType ny : largeSizes()) for (IndexType nz : largeSizes()) for (int gt = 0; gt < 2; ++gt) {
        if (!R().take()) continue;
        const Space &S = kSpaces[(nx + ny + nz) % kSpaces.size()], &U = kSpaces[(nx + nz) % kSpaces.size()];
        R().run([&] { return vp::cat("large grid ", nx, "x", ny, "x", nz, gt ? " hexahedral_fe_grid" : " b_spline_grid", " xyz=", S.name); }, [&] {
            vp::Cfg c; c.lo = S.lo; c.hi = S.hi; c.lou = U.lo; c.hiu = U.hi; c.n = {nx, ny, nz};
            c.grid = gt ? GridType::hexahedral_fe_grid : GridType::b_spline_grid;
            auto s = vp::MakeSettings(c);
            GridIndexer g(*s);
            VP_CHECK(g.NumberOfElements() == nx * ny * nz, "NumberOfElements = ", g.NumberOfElements());
            for (IndexType k : positions(nz)) for (IndexType j : positions(ny)) for (IndexType i : positions(nx)) {
                const IndexType v = g.GetVectorIndexFromMatrixIndices(i, j, k), e = i + nx * (j + ny * k);
                VP_CHECK(v == e && g.GetVectorIndexFromMatrixIndices(Vector3i{i, j, k}) == e, "index of cell (", i, ",", j, ",", k, ") is ", v, " expected ", e);
                const auto m = g.GetMatrixIndicesFromVectorIndex(v);
                VP_CHECK(m[0] == i && m[1] == j && m[2] == k, "inverse map of ", v, " gives ", vp::str(m));
                const Vector3i ijk{i, j, k};
                for (int uvw = 0; uvw < 2; ++uvw) for (int how = 0; how < 3; ++how) {
                    const BoundingBoxType b = uvw ? (how == 0 ? g.GetBoundingBoxUVWFromIndex(v) : how == 1 ? g.GetBoundingBoxUVWFromIndex(ijk) : g.GetBoundingBoxUVWFromIndex(i, j, k))
                                                  : (how == 0 ? g.GetBoundingBoxXYZFromIndex(v) : how == 1 ? g.GetBoundingBoxXYZFromIndex(ijk) : g.GetBoundingBoxXYZFromIndex(i, j, k));
                    const Space& sp = uvw ? U : S;
                    for (int d = 0; d < 3; ++d) {
                        const bool whole = uvw && gt;
                        const long double len = (long double)sp.hi[d] - sp.lo[d];
                        const double l = whole ? sp.lo[d] : (double)(sp.lo[d] + len * ijk[d] / c.n[d]);
                        const double u = whole ? sp.hi[d] : (double)(sp.lo[d] + len * (ijk[d] + 1) / c.n[d]);
                        const double tol = 1e-14 * (1 + std::abs(sp.lo[d]) + std::abs(sp.hi[d]));
                        VP_CHECK(vp::close(b.lower[d], l, tol) && vp::close(b.upper[d], u, tol), uvw ? "uvw" : "xyz", " box of cell ", vp::str(ijk), " axis ", d,
                                 " = [", b.lower[d], ",", b.upper[d], "] expected [", l, ",", u, "]");
                    }
                }
                R().count("cells of large grids");
            }
            if (nx != ny && ny != nz) R().nontrivial(R().idx);
        });
    }
}
static void C02large() {
    const auto dirs = GridIndexer::GetDirections();
    for (IndexType nx : largeSizes()) for (IndexType ny : largeSizes()) for (IndexType nz : largeSizes()) for (int block = 0; block < 3; ++block) {
        if (!R().take()) continue;
        R().run([&] { return vp::cat("large grid ", nx, "x", ny, "x", nz, " block ", block); }, [&] {
            vp::Cfg c; c.n = {nx, ny, nz};
            auto s = vp::MakeSettings(c);
            GridIndexer g(*s);
            // whole grid, upper half, inner block
            Vector3i lo{0, 0, 0}, hi{nx - 1, ny - 1, nz - 1};
            if (block == 1) for (int d = 0; d < 3; ++d) lo[d] = c.n[d] / 2;
            if (block == 2) for (int d = 0; d < 3; ++d) if (c.n[d] > 2) { lo[d] = 1; hi[d] = c.n[d] - 2; }
            const PartitionBoxType part{lo, hi};
            auto id = [&](const Vector3i& m) { return m[0] + nx * (m[1] + ny * m[2]); };
            std::array<std::vector<IndexType>, 3> pos;
            for (int d = 0; d < 3; ++d) for (IndexType p : positions(hi[d] - lo[d] + 1)) pos[d].push_back(lo[d] + p);
            for (IndexType k : pos[2]) for (IndexType j : pos[1]) for (IndexType i : pos[0]) for (int d = 0; d < 6; ++d) {
                const Vector3i m{i, j, k};
                const int axis = d / 2; const bool fwd = d % 2 == 0;
                const auto [to, info] = g.GetNextIndex(id(m), dirs[d], part);
                const bool at_end = m[axis] == (fwd ? hi[axis] : lo[axis]);
                VP_CHECK(g.IsEnd(id(m), dirs[d], part) == at_end, "IsEnd of cell ", vp::str(m), " direction ", d);
                if (block == 0) VP_CHECK(g.GetNextIndex(id(m), dirs[d]) == (GridIndexer::IndexReturnType{to, info}) && g.IsEnd(id(m), dirs[d]) == at_end, "whole grid and covering block disagree at ", vp::str(m));
                ++R().transitions;
                if (!at_end) {
                    auto e = m; e[axis] += fwd ? 1 : -1;
                    VP_CHECK(info == Info::middle && to == id(e), "step ", d, " from cell ", vp::str(m), " gives ", to, ", expected ", id(e));
                } else {
                    VP_CHECK(info != Info::middle, "step ", d, " over the end of the line at ", vp::str(m), " is not flagged");
                    const auto t = g.GetMatrixIndicesFromVectorIndex(to);
                    for (int a = 0; a < 3; ++a) VP_CHECK(t[a] >= lo[a] && t[a] <= hi[a], "step ", d, " from ", vp::str(m), " leaves the block: ", vp::str(t));
                    if (info == Info::global_end) VP_CHECK(t == m, "end of the walk must stay at the cell");
                    else {
                        // first cell of another line, and the line walked before that one is entered from its last cell
                        VP_CHECK(t[axis] == (fwd ? lo[axis] : hi[axis]) && t != m, "step ", d, " from ", vp::str(m), " does not go to the begin of a line: ", vp::str(t));
                        VP_CHECK(g.GetNextIndex(to, dirs[d ^ 1], part).first == id(m), "step back from ", vp::str(t), " does not return to ", vp::str(m));
                    }
                }
            }
            if (block) R().nontrivial(R().idx);
        });
    }
}

static const char* DN[6] = {"+x", "-x", "+y", "-y", "+z", "-z"};
static void C02() {
    const IndexType N = R().thorough() ? 5 : 3;
    std::vector<Vector3i> sizes;
    for (IndexType x = 1; x <= N; ++x) for (IndexType y = 1; y <= N; ++y) for (IndexType z = 1; z <= N; ++z) sizes.push_back({x, y, z});
    if (!R().thorough()) for (auto& e : std::vector<Vector3i>{{4, 1, 1}, {1, 4, 1}, {1, 1, 4}, {4, 3, 2}, {2, 4, 3}, {3, 2, 4}, {4, 4, 1}, {1, 4, 4}, {4, 1, 4}, {4, 4, 4}, {5, 2, 2}, {2, 5, 2}, {2, 2, 5}}) sizes.push_back(e);
    const auto dirs = GridIndexer::GetDirections();
    for (auto& n : sizes)
    for (IndexType ax = 0; ax < n[0]; ++ax) for (IndexType bx = ax; bx < n[0]; ++bx)
    for (IndexType ay = 0; ay < n[1]; ++ay) for (IndexType by = ay; by < n[1]; ++by)
    for (IndexType az = 0; az < n[2]; ++az) for (IndexType bz = az; bz < n[2]; ++bz) {
        if (!R().take()) continue;
        R().run([&] { return vp::cat("grid ", vp::str(n), " block (", ax, ",", ay, ",", az, ")..(", bx, ",", by, ",", bz, ")"); }, [&] {
            vp::Cfg c; c.n = n;
            auto s = vp::MakeSettings(c);
            GridIndexer g(*s);
            const PartitionBoxType part{Vector3i{ax, ay, az}, Vector3i{bx, by, bz}};
            const bool whole = ax == 0 && ay == 0 && az == 0 && bx == n[0] - 1 && by == n[1] - 1 && bz == n[2] - 1;
            const Vector3i lo = part.first, hi = part.second;
            std::set<IndexType> cells;
            auto id = [&](const Vector3i& m) { return m[0] + n[0] * (m[1] + n[1] * m[2]); };
            for (IndexType i = ax; i <= bx; ++i) for (IndexType j = ay; j <= by; ++j) for (IndexType k = az; k <= bz; ++k) cells.insert(id({i, j, k}));
            std::map<int, std::vector<IndexType>> walks;
            auto next = [&](IndexType i, int d) {
                auto r = g.GetNextIndex(i, dirs[d], part);
                GridIndexer::IndexReturnType q;
                switch (d) {
                    case 0: q = g.GetNextIndexX(i, part); break;
                    case 1: q = g.GetPreviousIndexX(i, part); break;
                    case 2: q = g.GetNextIndexY(i, part); break;
                    case 3: q = g.GetPreviousIndexY(i, part); break;
                    case 4: q = g.GetNextIndexZ(i, part); break;
                    default: q = g.GetPreviousIndexZ(i, part);
                }
                VP_CHECK(r == q, "GetNextIndex(", DN[d], ") and the axis function disagree at ", i);
                if (whole) {
                    auto w = g.GetNextIndex(i, dirs[d]);
                    VP_CHECK(w == r, "walk of the whole grid differs from the walk of the block that covers it at ", i, " ", DN[d]);
                    GridIndexer::IndexReturnType u;
                    switch (d) {
                        case 0: u = g.GetNextIndexX(i); break;
                        case 1: u = g.GetPreviousIndexX(i); break;
                        case 2: u = g.GetNextIndexY(i); break;
                        case 3: u = g.GetPreviousIndexY(i); break;
                        case 4: u = g.GetNextIndexZ(i); break;
                        default: u = g.GetPreviousIndexZ(i);
                    }
                    VP_CHECK(u == r, "axis function without block differs at ", i, " ", DN[d]);
                    VP_CHECK(g.IsEnd(i, dirs[d]) == g.IsEnd(i, dirs[d], part), "IsEnd without block differs at ", i);
                }
                return r;
            };
            for (int d = 0; d < 6; ++d) {
                const int axis = d / 2; const bool fwd = d % 2 == 0;
                VP_CHECK(static_cast<int>(GridIndexer::ReverseDirection(dirs[d])) == (d ^ 1), "ReverseDirection of ", DN[d], " is wrong");
                for (IndexType i : cells) {
                    const auto [j, info] = next(i, d);
                    auto m = g.GetMatrixIndicesFromVectorIndex(i);
                    const bool at_end = m[axis] == (fwd ? hi[axis] : lo[axis]);
                    VP_CHECK(g.IsEnd(i, dirs[d], part) == at_end, "IsEnd(", i, ",", DN[d], ") = ", !at_end);
                    ++R().transitions;
                    if (!at_end) {
                        auto e = m; e[axis] += fwd ? 1 : -1;
                        VP_CHECK(info == Info::middle && j == id(e), "step ", DN[d], " from cell ", i, " gives ", j, " (", info, "), expected the neighbour ", id(e), " (middle)");
                        const auto [b, binfo] = next(j, d ^ 1);
                        VP_CHECK(b == i && binfo == Info::middle, "step back from ", j, " does not return to ", i);
                    } else {
                        VP_CHECK(info != Info::middle, "step ", DN[d], " over the end of the line at cell ", i, " is not flagged");
                        VP_CHECK(cells.count(j), "step ", DN[d], " from cell ", i, " leaves the block: ", j);
                        if (info == Info::global_end) VP_CHECK(j == i, "end of the walk must stay at the cell, got ", j);
                    }
                }
                // complete walk
                Vector3i start{fwd ? lo[0] : hi[0], fwd ? lo[1] : hi[1], fwd ? lo[2] : hi[2]};
                IndexType cur = id(start);
                std::set<IndexType> vis;
                for (;;) {
                    VP_CHECK(vis.insert(cur).second, "walk ", DN[d], " visits cell ", cur, " twice");
                    walks[d].push_back(cur);
                    const auto [j, info] = next(cur, d);
                    if (info == Info::global_end) break;
                    VP_CHECK(vis.size() <= cells.size(), "walk ", DN[d], " does not end");
                    cur = j;
                }
                VP_CHECK(vis == cells, "walk ", DN[d], " visits ", vis.size(), " of ", cells.size(), " cells");
                R().states += (long long)vis.size();
                ++R().traces;
            }
            for (int d = 0; d < 6; d += 2) {
                auto r = walks[d + 1]; std::reverse(r.begin(), r.end());
                VP_CHECK(r == walks[d], "backward walk is not the reverse of the forward walk along axis ", d / 2);
            }
            if (cells.size() > 1 && !whole) R().nontrivial(R().idx);
            if (n == Vector3i{2, 3, 2} && cells.size() == 4) R().sample(R().cur_desc());
        });
    }
}

int main(int argc, char** argv) {
    R().init(argc, argv);
    if (R().prop == "C01") { C01(); C01large(); } else { C02(); C02large(); }
    return R().finish();
}
