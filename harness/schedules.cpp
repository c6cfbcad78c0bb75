// C05/C06: every schedule (OpenMP teams as controlled fibers) of the classification and of the whole model creation.
#include "vp.hpp"
#include "settings.hpp"
#include "solid.hpp"
#include "sched.hpp"
#include "queso/embedding/brep_operator.h"
#include "queso/embedded_model.h"
using namespace vp;

using Model = EmbeddedModel;

// ---------------------------------------------------------------- observations of a model
struct Obs {
    std::map<IndexType, std::string> elements;       // id -> bytes of everything observable
    std::multimap<std::string, int> segments;        // bytes of mesh, parent
    std::vector<IndexType> counts;
    double vol = 0, repr = 0, perc = 0, area = 0, aperc = 0;
    bool closed = false; std::string error;
};
static void put(std::string& s, const void* p, size_t n) { s.append((const char*)p, n); }
template <class T> static void put(std::string& s, const T& v) { put(s, &v, sizeof v); }
static std::string meshBytes(const TriangleMesh& m) {
    std::string s;
    for (auto& t : m.TriangleIndices()) for (int k = 0; k < 3; ++k) { auto v = m.Vertex(t[k]); for (int d = 0; d < 3; ++d) { double x = v[d]; put(s, x); } }
    return s;
}
static Obs observe(Model& m, bool cond) {
    Obs o;
    for (auto e : m.GetElementViews<>()) {
        std::string s;
        put(s, e.IsTrimmed());
        auto b = e.GetCellBounds<CoordinateSpace::global>(), u = e.GetCellBounds<CoordinateSpace::parametric>();
        for (int d = 0; d < 3; ++d) { put(s, b.lower[d]); put(s, b.upper[d]); put(s, u.lower[d]); put(s, u.upper[d]); }
        for (auto& p : e.GetIntegrationPoints()) { for (int d = 0; d < 3; ++d) { double x = p.Point()[d]; put(s, x); } double w = p.Weight(); put(s, w); }
        if (!o.elements.emplace(e.GetId(), s).second) o.error = cat("element ", e.GetId(), " stored twice");
    }
    const auto& info = m.GetModelInfo();
    auto& bg = info[MainInfo::background_grid_info];
    o.counts = {val<IndexType>(bg, BackgroundGridInfo::num_active_elements), val<IndexType>(bg, BackgroundGridInfo::num_trimmed_elements),
                val<IndexType>(bg, BackgroundGridInfo::num_full_elements), val<IndexType>(bg, BackgroundGridInfo::num_inactive_elements),
                val<IndexType>(info[MainInfo::quadrature_info], QuadratureInfo::tot_num_points)};
    o.repr = val<double>(info[MainInfo::quadrature_info], QuadratureInfo::represented_volume);
    o.perc = val<double>(info[MainInfo::quadrature_info], QuadratureInfo::percentage_of_geometry_volume);
    o.vol = val<double>(info[MainInfo::embedded_geometry_info], EmbeddedGeometryInfo::volume);
    o.closed = val<bool>(info[MainInfo::embedded_geometry_info], EmbeddedGeometryInfo::is_closed);
    if (cond) {
        auto& cs = m.GetConditions();
        if (cs.size() != 1) o.error = "number of conditions";
        for (auto& s : cs[0].GetSegments()) {
            std::string b = meshBytes(s.GetTriangleMesh());
            IndexType p = s.IsInActiveElement() ? s.GetParentElement()->GetId() : 0;
            put(b, p);
            o.segments.emplace(b, 1);
        }
        auto& ci = *info.GetList(MainInfo::conditions_infos_list).at(0);
        o.area = val<double>(ci, ConditionInfo::surf_area);
        o.aperc = val<double>(ci, ConditionInfo::perc_surf_area_in_active_domain);
    }
    for (auto k : {VolumeTimeInfo::computation_of_intersections, VolumeTimeInfo::solution_of_moment_fitting_eqs}) {
        double t = val<double>(info[MainInfo::elapsed_time_info][ElapsedTimeInfo::volume_time_info], k);
        if (!(t >= 0 && t < 1e6)) o.error = "accumulated time is not a time";
    }
    return o;
}
static bool near(double a, double b) { return std::abs(a - b) <= 1e-10 * (1 + std::abs(b)); }
static std::string diff(const Obs& a, const Obs& r) {
    if (!a.error.empty()) return a.error;
    if (a.elements.size() != r.elements.size()) return cat("number of elements ", a.elements.size(), " instead of ", r.elements.size());
    for (auto& [id, s] : r.elements) { auto it = a.elements.find(id); if (it == a.elements.end()) return cat("element ", id, " missing"); if (it->second != s) return cat("element ", id, " has other data"); }
    if (a.counts != r.counts) return "counts in the model info";
    if (a.segments != r.segments) return cat("condition segments differ: ", a.segments.size(), " / ", r.segments.size());
    if (a.closed != r.closed) return "is_closed";
    if (!near(a.vol, r.vol)) return cat("volume ", a.vol, " instead of ", r.vol);
    if (!near(a.repr, r.repr) || !near(a.perc, r.perc)) return cat("represented volume ", a.repr, " instead of ", r.repr);
    if (!near(a.area, r.area)) return cat("condition area ", a.area, " instead of ", r.area);
    if (!near(a.aperc, r.aperc)) return cat("active part of the condition ", a.aperc, " instead of ", r.aperc);
    return "";
}

struct G { PointType lo, hi; Vector3i n; };
static void account(const sched::Stats& st, size_t cfgs) {
    auto& r = R();
    r.traces += st.schedules; r.transitions += st.points; r.states += st.points + st.schedules;
    if (st.capped) { r.capped = true; r.count("cases cut off at the schedule limit"); }
    r.count("schedules", st.schedules);
    r.counters["max_choice_points"] = std::max<long long>(r.counters["max_choice_points"], st.max_points);
    (void)cfgs;
}

static void Classification() {
    auto& r = R(); const bool th = r.thorough();
    struct Case { std::string name; std::function<Solid()> make; G g; bool crowded = false; };
    std::vector<Case> cs;
    auto vox = [&](int nx, int ny, int nz, uint64_t m, const G& g) {
        std::vector<double> c{0, 1, 2, 3, 4, 5, 6};
        auto cut = [c](int n) { return std::vector<double>(c.begin(), c.begin() + n + 1); };
        cs.push_back({cat("voxels ", nx, "x", ny, "x", nz, " mask ", m, " grid ", str(g.lo), str(g.hi), str(g.n)), [=] { return voxelSolid(cut(nx), cut(ny), cut(nz), m, 0, 0); }, g});
    };
    // rows and plates: several groups per partition; the partition direction is each axis in turn
    auto perm = [](PointType p, int a) { return a == 0 ? p : a == 1 ? PointType{p[2], p[0], p[1]} : PointType{p[1], p[2], p[0]}; };
    auto permi = [](Vector3i p, int a) { return a == 0 ? p : a == 1 ? Vector3i{p[2], p[0], p[1]} : Vector3i{p[1], p[2], p[0]}; };
    for (int a = 0; a < 3; ++a) {
        for (uint64_t m = 1; m < 8; ++m) {
            Vector3i v = permi({3, 1, 1}, a);
            vox((int)v[0], (int)v[1], (int)v[2], m, {perm({0, 0, 0}, a), perm({3, 1, 1}, a), permi({3, 1, 1}, a)});
            vox((int)v[0], (int)v[1], (int)v[2], m, {perm({0, 0, 0}, a), perm({3, 1, 1}, a), permi({6, 2, 1}, a)});
            vox((int)v[0], (int)v[1], (int)v[2], m, {perm({-0.25, -0.25, 0.25}, a), perm({3.25, 1.25, 0.75}, a), permi({7, 3, 1}, a)});
        }
        for (uint64_t m : {uint64_t(5), uint64_t(0b010101), uint64_t(0b011110), uint64_t(0b110011), uint64_t(0b111111), uint64_t(0b101101)}) {
            Vector3i v = permi({3, 2, 1}, a);
            vox((int)v[0], (int)v[1], (int)v[2], m, {perm({0, 0, 0}, a), perm({3, 2, 1}, a), permi({3, 2, 1}, a)});
            vox((int)v[0], (int)v[1], (int)v[2], m, {perm({-0.5, -0.5, 0}, a), perm({3.5, 2.5, 1}, a), permi({8, 3, 2}, a)});
        }
    }
    // ring: the outside (or the inside) falls into several groups per partition that have to be merged again
    for (uint64_t m : {uint64_t(0b111101111), uint64_t(0b010111010), uint64_t(0b101010101), uint64_t(0b111001111)})
        for (auto& g : std::vector<G>{{{0, 0, 0}, {3, 3, 1}, {3, 3, 1}}, {{0, 0, 0}, {3, 3, 1}, {6, 3, 1}}, {{0, 0, 0}, {3, 3, 1}, {3, 6, 2}}, {{-0.5, -0.5, 0.25}, {3.5, 3.5, 0.75}, {8, 8, 1}}, {{-0.1, -0.1, -0.1}, {3.1, 3.1, 1.1}, {8, 7, 3}}})
            { vox(3, 3, 1, m, g); cs.back().crowded = true; }
    {   // cells inside only / outside only: no surface in the grid
        vox(3, 3, 3, (1 << 27) - 1, {{0.25, 0.25, 0.25}, {2.5, 0.75, 0.75}, {4, 1, 1}});
        vox(3, 3, 3, (1 << 27) - 1 - (1 << 13), {{0, 0, 0}, {3, 3, 3}, {3, 3, 3}});
        vox(3, 3, 3, (1 << 27) - 1 - (1 << 13), {{0, 0, 0}, {3, 3, 3}, {6, 6, 6}});
    }
    for (int o = 0; o < 4; ++o)
        cs.push_back({cat("skew tetrahedron ", o), [o] { return convexSolid("tet", tetPiece({0, 0, 0}, {2, 0.3L, o * 0.2L}, {0.4L, 2, 0.3L}, {0.2L * o, 0.5L, 2}), 0); }, {{-0.1, -0.1, -0.1}, {2.1, 2.1, 2.1}, {(IndexType)(o == 1 ? 2 : 4), (IndexType)(o == 1 ? 4 : 3), (IndexType)(o == 2 ? 5 : 2)}}});
    if (th) for (uint64_t m = 1; m < 256; ++m) if (voxelManifold(2, 2, 2, m)) {
        vox(2, 2, 2, m, {{0, 0, 0}, {2, 2, 2}, {2, 2, 2}});
        vox(2, 2, 2, m, {{-0.5, 0, 0}, {2.5, 2, 2}, {6, 2, 2}});
        vox(2, 2, 2, m, {{0, -0.5, -0.25}, {2, 2.5, 2.25}, {3, 6, 5}});
    }
    std::vector<std::vector<int>> teams = {{2}, {3}, {4}, {5}, {3, 2, 2}, {4, 2, 3}, {2, 1, 2}};
    if (th) { teams.push_back({6}); teams.push_back({8}); teams.push_back({5, 3, 1}); }
    for (auto& c : cs) for (auto& t : teams) {
        if (!r.take()) continue;
        std::string ts; for (int x : t) ts += cat(x, " ");
        auto d = [&] { return cat(c.name, " threads ", ts); };
        r.run(d, [&] {
            Solid s = c.make();
            Cfg cfg; cfg.lo = c.g.lo; cfg.hi = c.g.hi; cfg.n = c.g.n;
            auto set = MakeSettings(cfg);
            BRepOperator op(s.mesh);
            sched::Config sc; sc.team = {1};
            sched::setTeam(sc);
            auto ref = op.pGetElementClassifications(*set);
            sc.team = t;
            IndexType cells = c.g.n[0] * c.g.n[1] * c.g.n[2];
            sc.preemptions = cells <= 9 ? (c.crowded ? 3 : 1000000) : cells <= 24 && !c.crowded ? 2 : cells <= 60 ? 1 : 0;
            if (c.crowded && cells > 9 && t[0] > 3) sc.preemptions = 0;
            if (th) sc.preemptions = cells <= 12 && !c.crowded ? 1000000 : cells <= 24 ? 4 : cells <= 60 ? 2 : 1;
            std::set<std::vector<IntersectionState>> outcomes;
            std::string bad;
            auto st = sched::explore(sc, th ? 20000 : 1500, [&](long long) {
                if (!bad.empty()) return;
                auto got = op.pGetElementClassifications(*set);
                outcomes.insert(*got);
                if (*got != *ref) for (size_t i = 0; i < ref->size(); ++i) if ((*got)[i] != (*ref)[i]) { bad = cat("cell ", i, " classified ", (*got)[i], " instead of ", (*ref)[i], " under schedule ", sched::lastTrace()); break; }
            }, [&](const std::string& p) { if (bad.empty()) bad = cat(p, " | schedule ", sched::lastTrace()); });
            account(st, 1);
            VP_CHECK(bad.empty(), bad);
            if (st.schedules > 1) { r.nontrivial(fnv(d())); r.sample(cat(d(), ": ", st.schedules, " schedules")); }
        });
    }
}

static void Creation() {
    auto& r = R(); const bool th = r.thorough();
    struct Case { std::string name; std::function<Solid()> make; G g; Vector3i p; IntegrationMethod method; std::function<Solid()> cond; };
    std::vector<Case> cs;
    auto box = [](P3 lo, P3 hi) { return [=] { return convexSolid("box", boxPiece(lo, hi), 0); }; };
    auto tet = [](ld h) { return [=] { return convexSolid("tet", tetPiece({0, 0, 0}, {2 + h, 0.1L, 0.05L}, {0.1L, 2, 0.1L}, {0.2L, 0.3L, 2}), 0); }; };
    auto g = IntegrationMethod::gauss;
    cs.push_back({"box, 3 cells: cut, full, cut", box({0.25L, 0, 0}, {2.75L, 1, 1}), {{0, 0, 0}, {3, 1, 1}, {3, 1, 1}}, {1, 1, 1}, g, box({0.25L, 0.1L, 0.1L}, {2.75L, 0.9L, 0.9L})});
    cs.push_back({"box, 4 full cells", box({0, 0, 0}, {2, 2, 1}), {{0, 0, 0}, {2, 2, 1}, {2, 2, 1}}, {1, 1, 1}, g, box({0.5L, 0.5L, 0.25L}, {1.5L, 1.5L, 0.75L})});
    cs.push_back({"box, ggq rules", box({0, 0, 0}, {3, 1, 1}), {{0, 0, 0}, {4, 1, 1}, {4, 1, 1}}, {2, 2, 2}, IntegrationMethod::ggq_optimal, box({0.5L, 0.25L, 0.25L}, {3.5L, 0.75L, 0.75L})});
    cs.push_back({"tetrahedron, 2x2x1", tet(0), {{0, 0, 0}, {2, 2, 2}, {2, 2, 1}}, {1, 1, 1}, g, box({0.3L, 0.3L, 0.3L}, {0.6L, 0.6L, 0.6L})});
    cs.push_back({"tetrahedron, 3x1x1", tet(0.5L), {{0, 0, 0}, {3, 2, 2}, {3, 1, 1}}, {2, 1, 1}, g, box({0.3L, 0.3L, 0.3L}, {1.6L, 0.6L, 0.6L})});
    cs.push_back({"box, one cell outside", box({0, 0, 0}, {1.5L, 1, 1}), {{0, 0, 0}, {3, 1, 1}, {3, 1, 1}}, {1, 1, 1}, g, box({0.2L, 0.2L, 0.2L}, {2.9L, 0.8L, 0.8L})});
    cs.push_back({"sliver cells dropped", box({0.9999L, 0, 0}, {2.0001L, 1, 1}), {{0, 0, 0}, {3, 1, 1}, {3, 1, 1}}, {1, 1, 1}, g, box({0.2L, 0.2L, 0.2L}, {2.9L, 0.8L, 0.8L})});
    if (th) {
        cs.push_back({"box, 6 cells", box({0.25L, 0.25L, 0}, {2.75L, 1.75L, 1}), {{0, 0, 0}, {3, 2, 1}, {3, 2, 1}}, {1, 1, 1}, g, box({0.25L, 0.1L, 0.1L}, {2.75L, 1.9L, 0.9L})});
        cs.push_back({"tetrahedron, 2x2x2", tet(0), {{0, 0, 0}, {2, 2, 2}, {2, 2, 2}}, {2, 2, 2}, g, box({0.3L, 0.3L, 0.3L}, {1.6L, 0.6L, 0.6L})});
    }
    struct T { std::vector<int> team; int pre; bool atomics; };
    // regions of CreateVolume: volume sum, team size, fill, merge, element loop; of CreateCondition: area sum, cell loop
    std::vector<T> ts = {{{1, 1, 1, 1, 2, 1}, 2, true}, {{1, 1, 1, 1, 3, 1}, 1, true}, {{1, 1, 1, 1, 2, 1}, 1000, false}, {{1, 1, 1, 1, 1, 1, 2}, 3, true}, {{1, 1, 1, 1, 1, 1, 3}, 2, false}, {{1, 1, 1, 1, 1, 1, 2}, 1000, false}, {{2}, 1, false}, {{3}, 0, false}, {{2, 1}, 1000, true}, {{1, 1, 1, 1, 1, 2, 1}, 1000, true}};
    if (th) { ts.push_back({{1, 1, 1, 1, 2, 1}, 4, true}); ts.push_back({{1, 1, 1, 1, 3, 1}, 2, true}); ts.push_back({{1, 1, 1, 1, 4, 1}, 2, false}); ts.push_back({{1, 1, 1, 1, 1, 1, 4}, 2, false}); ts.push_back({{4}, 1, false}); }
    for (auto& c : cs) for (auto& t : ts) {
        if (!r.take()) continue;
        std::string tn; for (int x : t.team) tn += cat(x, " ");
        auto d = [&] { return cat(c.name, " threads per region ", tn, "preemptions<=", t.pre, t.atomics ? " every atomic operation" : " critical sections and chunks"); };
        r.run(d, [&] {
            Solid s = c.make(), cm = c.cond();
            Cfg cfg; cfg.lo = c.g.lo; cfg.hi = c.g.hi; cfg.n = c.g.n; cfg.p = c.p; cfg.method = c.method; cfg.mintri = 4; cfg.lou = c.g.lo; cfg.hiu = c.g.hi;
            auto cset = DictionaryFactory<key::MainValuesTypeTag>::Create("ConditionSettings");
            cset->SetValue(ConditionSettings::condition_id, IndexType(1));
            cset->SetValue(ConditionSettings::input_filename, std::string("none"));
            cset->CheckRequired();
            auto once = [&] {
                auto m = Model::Create(MakeSettings(cfg));
                m.CreateVolume(s.mesh.View());
                m.CreateCondition(cm.mesh.View(), *cset);
                return observe(m, true);
            };
            sched::Config sc; sc.team = {1}; sched::setTeam(sc);
            Obs ref = once();
            VP_CHECK(ref.error.empty(), ref.error);
            sc.team = t.team; sc.preemptions = t.pre; sc.yield_atomics = t.atomics;
            std::string bad;
            auto st = sched::explore(sc, th ? 20000 : 3000, [&](long long) {
                if (!bad.empty()) return;
                std::string e = diff(once(), ref);
                if (!e.empty()) bad = e + " under schedule " + sched::lastTrace();
            }, [&](const std::string& p) { if (bad.empty()) bad = cat(p, " | schedule ", sched::lastTrace()); });
            account(st, 1);
            r.count(cat("elements in reference models"), (long long)ref.elements.size());
            VP_CHECK(bad.empty(), bad);
            if (st.schedules > 1) { r.nontrivial(fnv(d())); r.sample(cat(d(), ": ", st.schedules, " schedules")); }
        });
    }
}

int main(int argc, char** argv) {
    auto& r = R(); r.init(argc, argv);
    r.cpu_limit_s = 600;
    if (r.prop == "C05") Classification(); else Creation();
    return r.finish();
}
