// C03: all insertion histories of a background grid, compared with a map model after lock (and move).
#include "vp.hpp"
#include "settings.hpp"
#include "solid.hpp"
#include "queso/containers/background_grid.hpp"
#include "queso/containers/boundary_integration_point.hpp"
#include "queso/containers/integration_point.hpp"
#include "queso/embedding/brep_operator.h"
using namespace vp;
using Grid = BackgroundGrid<IntegrationPoint, BoundaryIntegrationPoint>;
using Full = Grid::UntrimmedElementType;
using Trim = Grid::TrimmedElementType;
using F = Grid::ElementFilter;
using Dir = Grid::Direction;
static const BRepOperator* gBrep;

struct FullB {
    static constexpr F Builds = F::untrimmed;
    bool reject; int tag;
    std::optional<Full> Build(IndexType Id, const ElementBounds& b) {
        if (reject) return std::nullopt;
        Full e(Id, b);
        for (IndexType i = 0; i < Id; ++i) e.GetIntegrationPoints().push_back(IntegrationPoint((double)Id, (double)i, (double)tag, 0.5 * (double)Id));
        e.SetValue(ElementValues::neighbor_coefficient, 10.0 * (double)Id + tag);
        return e;
    }
};
struct TrimB {
    static constexpr F Builds = F::trimmed;
    bool reject; int tag;
    std::optional<Trim> Build(IndexType Id, const ElementBounds& b) {
        if (reject) return std::nullopt;
        auto d = gBrep->pGetTrimmedDomain(b.global.lower, b.global.upper, 1e-3, 10, true);
        if (!d) throw std::runtime_error("harness: no trimmed domain");
        Trim e(Id, b, std::move(*d));
        for (IndexType i = 0; i < Id; ++i) e.GetIntegrationPoints().push_back(IntegrationPoint((double)Id, (double)i, (double)tag, 0.25 * (double)Id));
        return e;
    }
};
struct Rec { bool trimmed; int tag; };
struct Shape { Vector3i n; PointType lo, hi, lou, hiu; };

struct World {
    Shape sh; Cfg c; Unique<Dict> set; Unique<GridIndexer> gi; Solid solid; Unique<BRepOperator> brep;
    int cutaxis;
    explicit World(const Shape& s) : sh(s) {
        c.n = s.n; c.lo = s.lo; c.hi = s.hi; c.lou = s.lou; c.hiu = s.hiu;
        set = MakeSettings(c); gi = MakeUnique<GridIndexer>(*set);
        cutaxis = s.n[2] == 1 ? 2 : s.n[1] == 1 ? 1 : 0;
        // slanted block covering the lower part of every cell along the cut axis
        std::array<P3, 8> v;
        for (int i = 0; i < 8; ++i) {
            P3 p; P3 L = p3(s.lo), H = p3(s.hi), D = H - L;
            for (int d = 0; d < 3; ++d) p[d] = (i >> d & 1) ? H[d] + 0.25L * D[d] : L[d] - 0.25L * D[d];
            if (i >> cutaxis & 1) {
                ld t = 0.45L;
                for (int d = 0; d < 3; ++d) if (d != cutaxis) t += ((i >> d & 1) ? 1 : -1) * 0.11L * (d + 1) / 2;
                p[cutaxis] = L[cutaxis] + t * D[cutaxis];
            }
            v[(size_t)i] = p;
        }
        solid = convexSolid("slanted block", hexPiece(v));
        brep = MakeUnique<BRepOperator>(solid.mesh);
    }
};

static void CheckView(const World& w, const Grid::ElementViewType& v, IndexType id, const Rec& r) {
    VP_CHECK(v.GetId() == id, "lookup of ", id, " gives id ", v.GetId());
    VP_CHECK(v.IsTrimmed() == r.trimmed, "id ", id, " in the wrong family");
    auto g = w.gi->GetBoundingBoxXYZFromIndex(id - 1); auto u = w.gi->GetBoundingBoxUVWFromIndex(id - 1);
    const auto& gb = v.GetCellBounds<CoordinateSpace::global>(); const auto& ub = v.GetCellBounds<CoordinateSpace::parametric>();
    for (int d = 0; d < 3; ++d) {
        VP_CHECK(gb.lower[d] == g.lower[d] && gb.upper[d] == g.upper[d], "id ", id, " has foreign physical bounds");
        VP_CHECK(ub.lower[d] == u.lower[d] && ub.upper[d] == u.upper[d], "id ", id, " has foreign parametric bounds");
    }
    const auto& ips = v.GetIntegrationPoints<CoordinateSpace::parametric>();
    VP_CHECK(ips.size() == id, "id ", id, " has ", ips.size(), " points");
    for (IndexType i = 0; i < ips.size(); ++i) {
        VP_CHECK(ips[i][0] == (double)id && ips[i][1] == (double)i && ips[i][2] == r.tag, "id ", id, " has foreign points (tag ", ips[i][2], " expected ", r.tag, ")");
        VP_CHECK(ips[i].Weight() == (r.trimmed ? 0.25 : 0.5) * (double)id, "foreign weight");
    }
}
static void CheckTrim(const World& w, const Trim& e, IndexType id) {
    auto g = w.gi->GetBoundingBoxXYZFromIndex(id - 1);
    P3 lo = p3(g.lower), hi = p3(g.upper), D = hi - lo;
    auto pc = w.solid.clipped(lo, hi);
    ld vol = 0; P3 bl{1e9L, 1e9L, 1e9L}, bh{-1e9L, -1e9L, -1e9L};
    for (auto& p : pc) { vol += p.volume(); for (auto& f : p.faces) for (auto& q : f) for (int d = 0; d < 3; ++d) { bl[d] = std::min(bl[d], q[d]); bh[d] = std::max(bh[d], q[d]); } }
    ld scale = D.x * D.y * D.z;
    VP_CHECK(std::abs(MeshUtilities::Volume(e.GetActiveDomainBoundaryMesh()) - vol) < 1e-8L * scale, "cut part of id ", id, " encloses a foreign volume");
    auto b = e.template GetActiveDomainBounds<CoordinateSpace::global>();
    for (int d = 0; d < 3; ++d) VP_CHECK(std::abs(b.lower[d] - bl[d]) < 1e-8L * D[d] && std::abs(b.upper[d] - bh[d]) < 1e-8L * D[d], "foreign bounds of the cut part of id ", id);
    for (int i = 0; i < 27; ++i) {
        P3 q{lo.x + D.x * (0.21L + 0.28L * (i % 3)), lo.y + D.y * (0.19L + 0.3L * (i / 3 % 3)), lo.z + D.z * (0.23L + 0.27L * (i / 9))};
        ld dep = w.solid.pieces[0].depth(q);
        if (std::abs(dep) < 1e-6L) continue;
        VP_CHECK(e.IsInsideActiveDomain(pt(q)) == (dep > 0), "membership in the cut part of id ", id, " is wrong");
    }
}

static void CheckAll(const World& w, Grid& g, const std::map<IndexType, Rec>& m) {
    auto& r = R();
    IndexType n = w.gi->NumberOfElements(), nt = 0, nf = 0;
    for (auto& [id, rec] : m) (rec.trimmed ? nt : nf)++;
    VP_CHECK(g.NumberOfActiveElements() == m.size() && g.NumberOfTrimmedElements() == nt && g.NumberOfUntrimmedElements() == nf, "wrong counts");
    const Grid& cg = g;
    for (IndexType id = 0; id <= n + 2; ++id) {
        auto it = m.find(id);
        bool has = it != m.end(), tr = has && it->second.trimmed;
        auto a = cg.GetElementView(id); auto t = cg.GetElementView<F::trimmed>(id); auto u = cg.GetElementView<F::untrimmed>(id);
        VP_CHECK(a.has_value() == has && t.has_value() == tr && u.has_value() == (has && !tr), "lookup of id ", id, " finds the wrong thing");
        auto* pt_ = g.pGetElement<F::trimmed>(id); auto* pu = g.pGetElement<F::untrimmed>(id);
        VP_CHECK((pt_ != nullptr) == tr && (pu != nullptr) == (has && !tr), "pointer lookup of id ", id, " finds the wrong thing");
        if (has) {
            CheckView(w, *a, id, it->second); CheckView(w, tr ? *t : *u, id, it->second);
            if (tr) { CheckView(w, pt_->View(), id, it->second); CheckTrim(w, *pt_, id); }
            else {
                CheckView(w, pu->View(), id, it->second);
                VP_CHECK(pu->GetValue<double>(ElementValues::neighbor_coefficient) == 10.0 * (double)id + it->second.tag, "element data of id ", id, " lost");
                auto b = pu->GetActiveDomainBounds<CoordinateSpace::global>(); auto gb = w.gi->GetBoundingBoxXYZFromIndex(id - 1);
                for (int d = 0; d < 3; ++d) VP_CHECK(b.lower[d] == gb.lower[d] && b.upper[d] == gb.upper[d], "domain of full element");
            }
        }
        if (id >= 1 && id <= n) {
            auto ijk = w.gi->GetMatrixIndicesFromVectorIndex(id - 1);
            for (Dir d : {Dir::x_forward, Dir::x_backward, Dir::y_forward, Dir::y_backward, Dir::z_forward, Dir::z_backward}) {
                int ax = (int)d / 2; bool fw = d == Dir::x_forward || d == Dir::y_forward || d == Dir::z_forward;
                ax = (d == Dir::x_forward || d == Dir::x_backward) ? 0 : (d == Dir::y_forward || d == Dir::y_backward) ? 1 : 2;
                bool mid = fw ? ijk[ax] + 1 < w.sh.n[ax] : ijk[ax] > 0;
                VP_CHECK(g.IsEnd(id, d) == !mid, "end-of-line query of id ", id);
                IndexType want = 0;
                if (mid) { auto q = ijk; q[ax] += fw ? 1 : -1; want = w.gi->GetVectorIndexFromMatrixIndices(q[0], q[1], q[2]) + 1; }
                auto check = [&](auto res, bool present_in_filter, auto get_id) {
                    ++r.transitions;
                    if (mid) {
                        VP_CHECK(res.next_id == want, "neighbour id of ", id);
                        VP_CHECK(res.is_end == !present_in_filter, "end flag towards neighbour ", want, " of ", id);
                        VP_CHECK((get_id(res) != 0) == present_in_filter, "neighbour element of ", id);
                    } else VP_CHECK(res.is_end, "line end of ", id, " not flagged");
                    if (get_id(res)) VP_CHECK(get_id(res) == res.next_id, "traversal returns element ", get_id(res), " for id ", res.next_id);
                };
                auto f = m.find(want); bool p = mid && f != m.end(), ptr = p && f->second.trimmed;
                auto vid = [](const auto& x) -> IndexType { return x.element ? x.element->GetId() : 0; };
                auto pid = [](const auto& x) -> IndexType { return x.p_element ? x.p_element->GetId() : 0; };
                check(g.GetNextElementView(id, d), p, vid);
                check(g.GetNextElementView<F::trimmed>(id, d), ptr, vid);
                check(g.GetNextElementView<F::untrimmed>(id, d), p && !ptr, vid);
                check(g.GetNextElement<F::trimmed>(id, d), ptr, pid);
                check(g.GetNextElement<F::untrimmed>(id, d), p && !ptr, pid);
            }
        }
    }
    std::set<IndexType> s, st, su, s2;
    for (auto v : cg.GetElementViews()) { VP_CHECK(m.count(v.GetId()) && s.insert(v.GetId()).second, "listing repeats or invents ", v.GetId()); CheckView(w, v, v.GetId(), m.at(v.GetId())); }
    for (auto v : cg.GetElementViews<F::trimmed>()) VP_CHECK(m.count(v.GetId()) && m.at(v.GetId()).trimmed && st.insert(v.GetId()).second, "trimmed listing");
    for (auto v : cg.GetElementViews<F::untrimmed>()) VP_CHECK(m.count(v.GetId()) && !m.at(v.GetId()).trimmed && su.insert(v.GetId()).second, "full listing");
    VP_CHECK(s.size() == m.size() && st.size() == nt && su.size() == nf, "listing misses elements");
    for (auto& e : cg.GetElements<F::trimmed>()) VP_CHECK(st.erase(e.GetId()) == 1, "trimmed span");
    for (auto& e : g.GetElements<F::untrimmed>()) VP_CHECK(su.erase(e.GetId()) == 1, "full span");
    VP_CHECK(st.empty() && su.empty(), "span misses elements");
}

struct LargeFull {
    static constexpr F Builds = F::untrimmed;
    std::optional<Full> Build(IndexType Id, const ElementBounds& b) {
        Full e(Id, b);
        e.GetIntegrationPoints().push_back(IntegrationPoint((double)Id, 1.0, 0.0, 0.5));
        return e;
    }
};
struct LargeTrim {
    static constexpr F Builds = F::trimmed;
    std::optional<Trim> Build(IndexType Id, const ElementBounds& b) {
        Trim e(Id, b, TrimmedDomain(ClippedTriangleMesh{}, b.global.lower, b.global.upper, gBrep, 0, false));
        e.GetIntegrationPoints().push_back(IntegrationPoint((double)Id, 2.0, 0.0, 0.5));
        return e;
    }
};
// Grids with more elements than fit into 16 bits, and ids that do not fit into 32 bits.
static void Large() {
    auto& r = R();
    const IndexType total = r.thorough() ? 140000 : 70000;
    for (int order = 0; order < 4; ++order) for (int family = 0; family < 5; ++family) for (int moved = 0; moved < 2; ++moved) {
        if (!r.take()) continue;
        r.run([&] { return cat("large grid, order ", order, " family pattern ", family, moved ? " moved" : ""); }, [&] {
            // order 3: ids spread over a grid of 2^39 cells
            Shape sh{order == 3 ? Vector3i{8192, 8192, 8192} : Vector3i{total / 10, 5, 2}, {0, 0, 0}, {1, 2, 3}, {0, 0, 0}, {1, 1, 1}};
            World w(sh); gBrep = w.brep.get();
            auto pg = MakeUnique<Grid>(*w.set);
            auto idOf = [&](IndexType i) -> IndexType {
                switch (order) { case 0: return i + 1; case 1: return total - i; case 2: return (i * 7919) % total + 1; default: return (i * 7853977) % (IndexType{1} << 39) + 1; }
            };
            auto isTrim = [&](IndexType i) { switch (family) { case 0: return false; case 1: return true; case 2: return i % 2 == 1; case 3: return i < 100; default: return i >= 100; } };
            for (IndexType i = 0; i < total; ++i) {
                const IndexType id = idOf(i);
                ElementBounds b{w.gi->GetBoundingBoxXYZFromIndex(id - 1), w.gi->GetBoundingBoxUVWFromIndex(id - 1)};
                LargeFull f; LargeTrim t;
                VP_CHECK(isTrim(i) ? pg->MakeElement(t, id, b) : pg->MakeElement(f, id, b), "insertion of id ", id, " reported as not done");
            }
            pg->LockElements();
            if (moved) { auto q = MakeUnique<Grid>(std::move(*pg)); pg = std::move(q); }
            IndexType nt = 0;
            for (IndexType i = 0; i < total; ++i) nt += isTrim(i);
            VP_CHECK(pg->NumberOfActiveElements() == total && pg->NumberOfTrimmedElements() == nt && pg->NumberOfUntrimmedElements() == total - nt, "wrong counts");
            for (IndexType i = 0; i < total; ++i) {
                const IndexType id = idOf(i); const bool tr = isTrim(i);
                const auto v = pg->GetElementView(id);
                VP_CHECK(v && v->GetId() == id && v->IsTrimmed() == tr, "lookup of id ", id, " (insertion ", i, ") finds ", v ? v->GetId() : 0);
                const auto b = w.gi->GetBoundingBoxXYZFromIndex(id - 1);
                for (int d = 0; d < 3; ++d) VP_CHECK(v->GetCellBounds<CoordinateSpace::global>().lower[d] == b.lower[d] && v->GetCellBounds<CoordinateSpace::global>().upper[d] == b.upper[d], "id ", id, " has foreign bounds");
                const auto& p = v->GetIntegrationPoints<CoordinateSpace::parametric>();
                VP_CHECK(p.size() == 1 && p[0][0] == (double)id && p[0][1] == (tr ? 2.0 : 1.0), "id ", id, " has foreign points");
                auto* pt_ = pg->pGetElement<F::trimmed>(id); auto* pu = pg->pGetElement<F::untrimmed>(id);
                VP_CHECK((pt_ != nullptr) == tr && (pu != nullptr) == !tr && (tr ? pt_->GetId() : pu->GetId()) == id, "pointer lookup of id ", id);
                ++r.states;
            }
            std::unordered_set<IndexType> ids;
            for (auto v : pg->GetElementViews()) VP_CHECK(ids.insert(v.GetId()).second, "listing repeats ", v.GetId());
            for (IndexType i = 0; i < total; ++i) VP_CHECK(ids.count(idOf(i)), "listing misses ", idOf(i));
            r.count("elements of large grids", (long long)total);
        });
    }
}

int main(int argc, char** argv) {
    auto& r = R(); r.init(argc, argv);
    std::vector<Shape> shapes = {
        {{2, 2, 1}, {0, 0, 0}, {2, 3, 1}, {0, 0, 0}, {1, 1, 1}},
        {{3, 1, 1}, {-1, 2, 0.5}, {2.2, 3, 4}, {0, -1, 0}, {3, 1, 2}},
        {{1, 2, 2}, {0.1, -7, 3}, {1.3, -5, 4.7}, {-1, -1, -1}, {1, 1, 1}},
    };
    const bool th = r.thorough();
    const char* opn[] = {"full", "trimmed", "rejected-full", "rejected-trimmed"};
    for (auto& sh : shapes) {
        World w(sh); gBrep = w.brep.get();
        IndexType n = w.gi->NumberOfElements();
        int nop = (int)n * 4, depth = (n == 3) ? 4 : (th ? 4 : 3);
        for (int len = 0; len <= depth; ++len) {
            long long tot = 1; for (int i = 0; i < len; ++i) tot *= nop;
            for (long long code = 0; code < tot; ++code) {
                // variants: 0 reserve+late move, 1 no reserve, move after every insertion and before lock
                if (!r.take()) continue;
                int variant = (int)((code + len) % 2);
                std::vector<int> ops; long long c = code;
                for (int i = 0; i < len; ++i) { ops.push_back((int)(c % nop)); c /= nop; }
                auto describe = [&] {
                    std::string s = cat("grid ", str(sh.n), variant ? " moving" : " reserved", " history:");
                    for (int o : ops) s += cat(" ", opn[o % 4], "(", o / 4 + 1, ")");
                    return s; };
                r.run(describe, [&] {
                    auto pg = MakeUnique<Grid>(*w.set);
                    std::map<IndexType, Rec> m;
                    if (!variant) pg->ReserveElements(2, 2);
                    int dup = 0;
                    auto ins = [&](IndexType id, bool trimmed, bool rej, int tag) -> int {   // 1 inserted, 0 not, -1 threw
                        ElementBounds b{w.gi->GetBoundingBoxXYZFromIndex(id - 1), w.gi->GetBoundingBoxUVWFromIndex(id - 1)};
                        try {
                            if (trimmed) { TrimB tb{rej, tag}; return pg->MakeElement(tb, id, b); }
                            FullB fb{rej, tag}; return pg->MakeElement(fb, id, b);
                        } catch (const queso::Exception&) { return -1; }
                    };
                    for (int s = 0; s < len; ++s) {
                        IndexType id = (IndexType)(ops[(size_t)s] / 4 + 1); int k = ops[(size_t)s] % 4;
                        bool tr = k & 1, rej = k >= 2;
                        int got = ins(id, tr, rej, s + 1);
                        int want = rej ? 0 : m.count(id) ? -1 : 1;
                        VP_CHECK(got == want, "insertion ", s, " returned ", got, " expected ", want, " (1 inserted, 0 nothing built, -1 refused)");
                        if (want == 1) m[id] = {tr, s + 1};
                        if (want == -1) ++dup;
                        ++r.transitions;
                        if (variant) { auto q = MakeUnique<Grid>(std::move(*pg)); pg = std::move(q); }
                        VP_CHECK(pg->NumberOfActiveElements() == m.size(), "count after insertion ", s);
                    }
                    pg->LockElements();
                    CheckAll(w, *pg, m);
                    // pointers survive a move of the locked grid
                    std::vector<std::pair<IndexType, const void*>> ptrs;
                    for (auto& [id, rec] : m) ptrs.push_back({id, rec.trimmed ? (const void*)pg->pGetElement<F::trimmed>(id) : (const void*)pg->pGetElement<F::untrimmed>(id)});
                    auto q = MakeUnique<Grid>(std::move(*pg)); pg = std::move(q);
                    for (auto& [id, p] : ptrs) {
                        const void* now = m[id].trimmed ? (const void*)pg->pGetElement<F::trimmed>(id) : (const void*)pg->pGetElement<F::untrimmed>(id);
                        VP_CHECK(now == p, "pointer of id ", id, " changed by a move of the locked grid");
                    }
                    CheckAll(w, *pg, m);
                    // insertion after lock is refused and changes nothing
                    for (IndexType id = 1; id <= n; ++id) for (int k = 0; k < 2; ++k)
                        VP_CHECK(ins(id, k, false, 99) == -1, "insertion of ", id, " after lock accepted");
                    for (auto& [id, p] : ptrs) VP_CHECK((m[id].trimmed ? (const void*)pg->pGetElement<F::trimmed>(id) : (const void*)pg->pGetElement<F::untrimmed>(id)) == p, "refused insertion moved elements");
                    VP_CHECK(pg->NumberOfActiveElements() == m.size(), "refused insertion changed the count");
                    ++r.states; ++r.traces;
                    bool t = false, f = false; for (auto& [id, rec] : m) (rec.trimmed ? t : f) = true;
                    if (t && f) r.nontrivial(fnv(describe()));
                    if (dup) r.count("histories with a refused duplicate");
                    if (t && f && dup) r.sample(describe());
                });
            }
        }
    }
    Large();
    return r.finish();
}
