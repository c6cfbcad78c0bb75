// C29: models of flawed geometries, and every history of the operations of a model.
#include "vp.hpp"
#include "families.hpp"
#include "settings.hpp"
#include "queso/embedded_model.h"
#include <omp.h>
#include <random>
#include <filesystem>
#include <fstream>
#include <tuple>
using namespace vp;
using namespace queso;
using Model = EmbeddedModel;
static int draws = 0;
static double Source() { ++draws; return 0.31 + 0.047 * (draws % 5); }
using Tri = std::array<P3, 3>;
using Soup = std::vector<Tri>;

static Soup soupOf(const TriangleMesh& m) {
    Soup s;
    for (auto& t : m.TriangleIndices()) s.push_back({p3(m.Vertex(t[0])), p3(m.Vertex(t[1])), p3(m.Vertex(t[2]))});
    return s;
}
// normals as the STL reader of QuESo computes them; no normal for a triangle without area
static TriangleMesh meshOf(const Soup& s) {
    TriangleMesh m;
    for (auto& t : s) {
        IndexType v = m.NumOfVertices();
        for (auto& p : t) m.AddVertex(pt(p));
        P3 n = cross(t[1] - t[0], t[2] - t[0]); ld l = norm(n);
        m.AddTriangle({v, v + 1, v + 2}, l > 0 && std::isfinite((double)l) ? Vector3d{(double)(n.x / l), (double)(n.y / l), (double)(n.z / l)} : Vector3d{0, 0, 0});
    }
    return m;
}
struct G { PointType lo, hi; Vector3i n; const char* name; };
static const std::vector<G>& grids() {
    static const std::vector<G> g = {
        {{-0.5, -0.5, -0.5}, {2.5, 2.5, 2.5}, {3, 3, 3}, "halving"}, {{0, 0, 0}, {2, 2, 2}, {2, 2, 2}, "aligned"}, {{-0.1, -0.2, -0.3}, {2.2, 2.1, 2.4}, {3, 4, 2}, "skew"},
        {{-1, -1, -1}, {3, 3, 3}, {1, 1, 1}, "one cell"}, {{0.3, 0.3, 0.3}, {1.2, 1.3, 1.4}, {2, 1, 2}, "inside"}, {{5, 5, 5}, {7, 6, 8}, {2, 2, 2}, "elsewhere"}};
    return g;
}
static size_t total(const Vector3i& n) { return n[0] * n[1] * n[2]; }
static ld soupArea(const Soup& s) { ld a = 0; for (auto& t : s) a += norm(cross(t[1] - t[0], t[2] - t[0])) / 2; return a; }

// whatever the geometry is, the model agrees with itself
static void Consistent(Model& m, const Cfg& c, const std::string& what) {
    std::set<IndexType> ids; size_t cut = 0, full = 0, points = 0; ld rep = 0;
    for (auto e : m.GetElementViews<>()) {
        VP_CHECK(e.GetId() >= 1 && e.GetId() <= total(c.n) && ids.insert(e.GetId()).second, what, "element id ", e.GetId());
        auto u = e.GetCellBounds<CoordinateSpace::parametric>();
        auto& pts = e.GetIntegrationPoints();
        (e.IsTrimmed() ? cut : full)++;
        VP_CHECK(!e.IsTrimmed() || !pts.empty(), what, "trimmed element ", e.GetId(), " without points");
        points += pts.size();
        for (auto& p : pts) {
            VP_CHECK(std::isfinite(p.Weight()) && p.Weight() > 0, what, "weight ", p.Weight(), " in element ", e.GetId());
            for (size_t d = 0; d < 3; ++d) VP_CHECK(p.Point()[d] >= u.lower[d] - 1e-9 && p.Point()[d] <= u.upper[d] + 1e-9, what, "point outside of element ", e.GetId());
            rep += (ld)p.Weight() * e.DetJ();
        }
        R().states++;
    }
    const auto& info = m.GetModelInfo();
    auto& bg = info[MainInfo::background_grid_info]; auto& q = info[MainInfo::quadrature_info];
    VP_CHECK(val<IndexType>(bg, BackgroundGridInfo::num_active_elements) == full + cut && val<IndexType>(bg, BackgroundGridInfo::num_trimmed_elements) == cut
             && val<IndexType>(bg, BackgroundGridInfo::num_full_elements) == full && val<IndexType>(bg, BackgroundGridInfo::num_inactive_elements) == total(c.n) - full - cut, what, "element counts");
    VP_CHECK(val<IndexType>(q, QuadratureInfo::tot_num_points) == points, what, "number of points");
    VP_CHECK(std::abs(val<double>(q, QuadratureInfo::represented_volume) - rep) <= 1e-9L * std::abs(rep), what, "represented volume");
}
static Unique<Dict> condSettings(IndexType id) {
    auto s = DictionaryFactory<key::MainValuesTypeTag>::Create("ConditionSettings");
    s->SetValue(ConditionSettings::condition_id, id);
    s->SetValue(ConditionSettings::input_filename, std::string("none"));
    s->CheckRequired();
    return s;
}

static void One(const Soup& s, Cfg c, bool condition) {
    auto mesh = meshOf(s);
    auto m = Model::Create(MakeSettings(c));
    auto set = condSettings(3);
    bool made = true;
    try { m.CreateVolume(mesh.View()); } catch (const Exception&) { made = false; R().count("volumes refused with an error"); }
    if (made) { Consistent(m, c, ""); R().count("models"); if (m.GetElementViews<>().size()) R().nontrivial(fnv(R().cur_desc())); }
    if (condition) {
        try {
            m.CreateCondition(mesh.View(), *set);
            ld a = 0;
            VP_CHECK(m.GetConditions().size() == 1, "condition not added");
            for (auto& seg : m.GetConditions().at(0).GetSegments()) for (auto& t : soupOf(seg.GetTriangleMesh())) a += norm(cross(t[1] - t[0], t[2] - t[0])) / 2;
            VP_CHECK(a <= soupArea(s) * (1 + 1e-9L) + 1e-12L, "segments of area ", (double)a, " of a condition of area ", (double)soupArea(s));
            R().count("conditions");
        } catch (const Exception&) { R().count("conditions refused with an error"); }
    }
    R().transitions++;
}

struct Base { std::string name; Soup s; };
static std::vector<Base> bases() {
    std::vector<Base> b;
    auto vox = [&](uint64_t m) { auto v = voxelMade({0, 1, 2}, {0, 1, 2}, {0, 1, 2}, m); b.push_back({v.name, soupOf(v.make().mesh)}); };
    vox(0x01); vox(0x03); vox(0x17); vox(0x7f); vox(0xff);
    b.push_back({"tetrahedron", soupOf(convexSolid("t", tetPiece({0, 0, 0}, {1.9L, 0.3L, 0.2L}, {0.2L, 1.8L, 0.3L}, {0.3L, 0.5L, 2})).mesh)});
    b.push_back({"prism", soupOf(prismSolid({{0, 0}, {2, 0.2L}, {0.6L, 0.7L}, {0.1L, 1.9L}}, 2, 0.1L, 1.7L).mesh)});
    auto cube = [](P3 a, P3 h) { return soupOf(convexSolid("c", boxPiece(a, h)).mesh); };
    auto join = [](Soup a, const Soup& x) { a.insert(a.end(), x.begin(), x.end()); return a; };
    auto flip = [](Soup a) { for (auto& t : a) std::swap(t[1], t[2]); return a; };
    b.push_back({"overlapping boxes", join(cube({0, 0, 0}, {1.2L, 1.2L, 1.2L}), cube({0.7L, 0.6L, 0.5L}, {2, 2, 2}))});
    b.push_back({"touching boxes", join(cube({0, 0, 0}, {1, 1, 1}), cube({1, 0, 0}, {2, 1, 1}))});
    b.push_back({"box twice", join(cube({0, 0, 0}, {1.2L, 1.2L, 1.2L}), cube({0, 0, 0}, {1.2L, 1.2L, 1.2L}))});
    b.push_back({"box and its inverse", join(cube({0, 0, 0}, {1.2L, 1.2L, 1.2L}), flip(cube({0, 0, 0}, {1.2L, 1.2L, 1.2L})))});
    b.push_back({"inverted box", flip(cube({0.1L, 0.2L, 0.3L}, {1.2L, 1.7L, 1.2L}))});
    b.push_back({"nested boxes, inner one not inverted", join(cube({0, 0, 0}, {2, 2, 2}), cube({0.4L, 0.4L, 0.4L}, {1.6L, 1.6L, 1.6L}))});
    b.push_back({"boxes touching in a corner", join(cube({0, 0, 0}, {1, 1, 1}), cube({1, 1, 1}, {2, 2, 2}))});
    return b;
}

static const IntegrationMethod methods[] = {IntegrationMethod::gauss, IntegrationMethod::ggq_optimal, IntegrationMethod::gauss_reduced_1, IntegrationMethod::ggq_reduced_2};
static void RunFlawed() {
    auto& r = R(); const bool th = r.thorough();
    size_t h = 0;
    auto go = [&](const std::string& name, const std::function<Soup()>& f, size_t every = 1) {
        for (size_t gi = 0; gi < grids().size(); ++gi) {
            ++h;
            if (!th && every > 1 && h % every) continue;
            if (!r.take()) continue;
            Cfg c; c.lo = grids()[gi].lo; c.hi = grids()[gi].hi; c.n = grids()[gi].n; c.lou = {0, 0, 0}; c.hiu = {1, 2, 3};
            const size_t k = h * 7 + h / 6;
            c.method = methods[k % 4]; c.p = k % 4 == 0 && k % 3 ? Vector3i{1, 1, 1} : Vector3i{2, 2, 2};
            c.minvol = k % 5 == 0 ? 0.0 : 1e-3; c.mintri = k % 3 ? 4 : 100; c.neglect = k / 4 % 2; c.residual = th ? (k % 7 ? 1e-10 : 1e-2) : (k % 9 ? 1e-2 : 1e-10);
            r.run([=] { return cat(name, " grid ", grids()[gi].name, " order ", c.p[0], " method ", k % 4, " min ratio ", c.minvol, " triangles ", c.mintri, " neglect ", c.neglect); }, [&] {
                One(f(), c, true);
                r.sample(r.cur_desc());
            });
        }
    };
    auto B = bases();
    for (auto& b : B) go(b.name, [=] { return b.s; });
    // nothing at all, single triangles, triangles without an area
    go("no triangle", [] { return Soup{}; });
    const auto L = lattice3();
    const P3 pts[] = {{0, 0, 0}, {1, 0, 0}, {2, 2, 2}, {0.5L, 0.5L, 0.5L}, {1, 1, 0}, {0.3L, 1.7L, 0.9L}};
    for (auto& a : pts) for (auto& b : pts) for (auto& c : pts) go(cat("one triangle ", &a - pts, &b - pts, &c - pts), [=] { return Soup{{a, b, c}}; }, 25);
    // one triangle of a solid changed
    const ld eps[] = {1e-14L, 1e-10L, 1e-6L, 1e-3L, 0.3L};
    for (auto& b : B) {
        for (size_t i = 0; i < b.s.size(); ++i) {
            auto mod = [&](const std::string& n, std::function<void(Soup&)> g, size_t every) { go(cat(b.name, ", triangle ", i, " ", n), [s = b.s, g] { Soup t = s; g(t); return t; }, every); };
            mod("missing", [i](Soup& s) { s.erase(s.begin() + (long)i); }, 11);
            mod("inverted", [i](Soup& s) { std::swap(s[i][1], s[i][2]); }, 23);
            mod("twice", [i](Soup& s) { s.push_back(s[i]); }, 35);
            mod("twice, once inverted", [i](Soup& s) { s.push_back({s[i][0], s[i][2], s[i][1]}); }, 35);
            mod("without area", [i](Soup& s) { s[i][2] = 0.5L * (s[i][0] + s[i][1]); }, 35);
            mod("a point", [i](Soup& s) { s[i][1] = s[i][2] = s[i][0]; }, 35);
            for (auto e : eps) for (size_t v = 0; v < 3; ++v) for (int d = 0; d < 3; ++d) mod(cat("vertex ", v, " moved by ", (double)e, " along ", d), [=](Soup& s) { s[i][v][d] += e; }, 301);
            mod("alone", [i](Soup& s) { s = Soup{s[i]}; }, 35);
            if (b.s.size() <= 12) for (size_t j = 0; j < i; ++j) {
                mod(cat("and ", j, " missing"), [=](Soup& s) { s.erase(s.begin() + (long)i); s.erase(s.begin() + (long)j); }, 61);
                mod(cat("and ", j, " inverted"), [=](Soup& s) { std::swap(s[i][1], s[i][2]); std::swap(s[j][0], s[j][1]); }, 101);
                mod(cat("and ", j, " alone"), [=](Soup& s) { s = Soup{s[j], s[i]}; }, 101);
            }
        }
    }
    // huge and tiny coordinates
    for (auto& b : B) for (ld sc : {1e-8L, 1e-4L, 1e4L, 1e8L, 1e150L}) go(cat(b.name, " scaled by ", (double)sc), [=] { Soup s = b.s; for (auto& t : s) for (auto& p : t) p = sc * p; return s; }, 5);
}

// thin plates through one cell: so few points of the octree lie in the material that the rule has fewer points than functions
static void RunPlates() {
    auto& r = R(); const bool th = r.thorough();
    for (int a = th ? 0 : 30; a < (th ? 60 : 31); ++a) for (int b = 0; b < 17; ++b) for (int k = 0; k < 4; ++k) for (IndexType p = 1; p <= (th ? 2u : 1u); ++p) {
        if (k && (th ? (a + b + k) % 4 : (a * 7 + b + k) % 23)) continue;
        if (!th && (b == 2 || b == 10)) continue; // slow
        if (!r.take()) continue;
        r.run([=] { return cat("plate of thickness ", 0.02 * std::pow(0.97, a), " position ", b, " kind ", k, " order ", p); }, [=, &r] {
            const ld t = 0.02L * std::pow(0.97L, (ld)a), sh = 0.013L * b;
            std::vector<P2> q = k == 0 ? std::vector<P2>{{-1, -1 + sh}, {2, 2 + sh}, {2, 2 + sh + t}, {-1, -1 + sh + t}} : k == 1 ? std::vector<P2>{{-1, -0.4L + sh}, {2, 0.9L}, {2, 0.9L + t}, {-1, -0.4L + sh + t}}
                              : k == 2 ? std::vector<P2>{{-1, 0.31L}, {2, 0.77L + sh}, {2, 0.77L + sh + t}} : std::vector<P2>{{-1, -1 + sh}, {2, 1.2L + sh}, {1.3L, 1.2L + sh + t}};
            Solid s = prismSolid(q, 0, 0.1L, 0.11L + t);
            Cfg c; c.p = {p, p, p}; c.minvol = 0; c.lou = {0, 0, 0}; c.residual = a % 2 ? 1e-10 : 1e-5;
            auto m = Model::Create(MakeSettings(c));
            m.CreateVolume(s.mesh.View());
            Consistent(m, c, "");
            const ld want = s.volumeIn({0, 0, 0}, {1, 1, 1});
            for (auto e : m.GetElementViews<>()) {
                ld w = 0; for (auto& x : e.GetIntegrationPoints()) w += (ld)x.Weight() * e.DetJ();
                VP_CHECK(std::abs(w - want) < 0.03L * want, "the points represent the volume ", (double)w, " instead of ", (double)want);
                r.nontrivial(fnv(r.cur_desc()));
            }
            r.transitions++;
        });
    }
}

// ---------------------------------------------------------------------------------------------------------- histories
using Bytes = std::string;
static void put(Bytes& b, const void* p, size_t n) { b.append((const char*)p, n); }
template <class T> static void put(Bytes& b, const T& x) { put(b, &x, sizeof x); }
static Bytes digestElements(const Model& m) {
    Bytes b;
    try { (void)m.GetElementViews<>(); } catch (const Exception&) { return b; }   // no volume yet
    for (auto e : m.GetElementViews<>()) {
        put(b, e.GetId()); put(b, e.IsTrimmed()); put(b, e.GetCellBounds<CoordinateSpace::global>().lower); put(b, e.GetCellBounds<CoordinateSpace::parametric>().upper);
        for (auto& p : e.GetIntegrationPoints()) { for (size_t d = 0; d < 3; ++d) put(b, p.Point()[d]); put(b, p.Weight()); }
    }
    return b;
}
static Bytes digestCondition(const Model& m, size_t i) {
    Bytes b; const auto& c = m.GetConditions().at(i);
    put(b, val<IndexType>(c.GetSettings(), ConditionSettings::condition_id));
    for (auto& s : c.GetSegments()) {
        put(b, s.IsInActiveElement());
        if (s.IsInActiveElement()) {   // the segment refers to an element of this model
            for (auto& p : s.GetParentElement()->GetIntegrationPoints()) put(b, p.Weight());
            put(b, s.GetParentElement()->GetId());
        }
        for (auto& t : soupOf(s.GetTriangleMesh())) for (auto& p : t) put(b, PointType{(double)p.x, (double)p.y, (double)p.z});
    }
    return b;
}
static Bytes infoBytes(const Model& m) {   // everything but the times
    std::ostringstream o; o.precision(17);
    const auto& i = m.GetModelInfo();
    auto opt = [&](auto f) { try { o << f(); } catch (const Exception&) { o << "unset"; } o << ' '; };
    auto& g = i[MainInfo::background_grid_info]; auto& q = i[MainInfo::quadrature_info]; auto& e = i[MainInfo::embedded_geometry_info];
    for (auto k : {0, 1, 2, 3}) opt([&] { return k == 0 ? val<IndexType>(g, BackgroundGridInfo::num_active_elements) : k == 1 ? val<IndexType>(g, BackgroundGridInfo::num_trimmed_elements) : k == 2 ? val<IndexType>(g, BackgroundGridInfo::num_full_elements) : val<IndexType>(g, BackgroundGridInfo::num_inactive_elements); });
    opt([&] { return val<IndexType>(q, QuadratureInfo::tot_num_points); });
    opt([&] { return val<double>(q, QuadratureInfo::represented_volume); });
    opt([&] { return val<double>(q, QuadratureInfo::percentage_of_geometry_volume); });
    opt([&] { return val<double>(q, QuadratureInfo::num_of_points_per_full_element); });
    opt([&] { return val<double>(q, QuadratureInfo::num_of_points_per_trimmed_element); });
    opt([&] { return val<double>(e, EmbeddedGeometryInfo::volume); });
    opt([&] { return val<bool>(e, EmbeddedGeometryInfo::is_closed); });
    return o.str();
}
static std::string condInfo(const Dict& c) {
    std::ostringstream o; o.precision(17);
    o << val<IndexType>(c, ConditionInfo::condition_id) << ' ' << val<double>(c, ConditionInfo::surf_area) << ' ' << val<double>(c, ConditionInfo::perc_surf_area_in_active_domain);
    return o.str();
}
struct Scratch {
    std::string dir;
    Scratch() { std::string t = "/tmp/vprob.XXXXXX"; if (!::mkdtemp(t.data())) std::exit(2); dir = t; }
    ~Scratch() { clear(); ::rmdir(dir.c_str()); }
    void clear() { for (auto& f : std::filesystem::directory_iterator(dir)) ::unlink(f.path().c_str()); }
};
static std::string slurp(const std::string& f) { std::ifstream i(f, std::ios::binary); std::ostringstream o; o << i.rdbuf(); return o.str(); }

enum Op { vol0, vol1, volNone, volOut, con0, con1, conNone, construct, assign, writeOp, numOps };
static const char* opName[] = {"volume 0", "volume 1", "volume of no triangles", "volume elsewhere", "condition 0", "condition 1", "condition of no triangles", "move", "move over another model", "write"};
static TriangleMesh opMesh(int op) {
    switch (op) {
    case vol0: return convexSolid("t", tetPiece({0, 0, 0}, {1.9L, 0.3L, 0.2L}, {0.2L, 1.8L, 0.3L}, {0.3L, 0.5L, 2})).mesh;
    case vol1: return convexSolid("b", boxPiece({0, 0, 0}, {2, 1.3L, 0.9L})).mesh;
    case volOut: return convexSolid("b", boxPiece({5, 5, 5}, {6, 6, 6})).mesh;
    case con0: return meshOf({{P3{0.1L, 0.2L, 0.3L}, P3{1.7L, 0.3L, 0.4L}, P3{0.3L, 1.5L, 0.5L}}});
    case con1: return meshOf({{P3{-1, 0.2L, 0}, P3{1.4L, 0.3L, 0}, P3{0.3L, 3, 0.2L}}, {P3{0, 0, 1}, P3{1, 0, 1}, P3{1, 1, 1}}});
    default: return TriangleMesh{};
    }
}
static void RunHistories() {
    auto& r = R(); const bool th = r.thorough();
    Scratch sc;
    Cfg c; c.lo = {0, 0, 0}; c.hi = {2, 2, 2}; c.n = {2, 2, 1}; c.lou = {0, 0, 0}; c.hiu = {1, 2, 3}; c.minvol = 0; c.mintri = 4; c.residual = 1e-2; c.p = {1, 1, 1};
    c.write = true; c.dir = sc.dir;
    struct Run { Model m; std::vector<Unique<Dict>> sets; };
    auto fresh = [&] { return Run{Model::Create(MakeSettings(c)), {}}; };
    auto volume = [&](Run& x, int op) { draws = 0; auto mesh = opMesh(op); x.m.CreateVolume(mesh.View()); };
    auto condition = [&](Run& x, int op, IndexType id) { draws = 0; auto mesh = opMesh(op); x.sets.push_back(condSettings(id)); x.m.CreateCondition(mesh.View(), *x.sets.back()); };
    // reference results, each from a model of its own
    std::map<int, Bytes> elements, infos; std::map<std::tuple<int, int, IndexType>, Bytes> conds, cinfos; std::map<int, std::array<Bytes, 2>> files;
    for (int v : {-1, (int)vol0, (int)vol1, (int)volNone, (int)volOut}) {
        { auto x = fresh(); if (v >= 0) volume(x, v); elements[v] = digestElements(x.m); infos[v] = infoBytes(x.m); if (v < 0) continue;
          sc.clear(); x.m.WriteModelToFile(); files[v] = {slurp(sc.dir + "/elements.vtk"), slurp(sc.dir + "/integration_points.vtk")}; }
        for (int q : {con0, con1, conNone}) for (IndexType id = 0; id < 6; ++id) {
            auto x = fresh(); volume(x, v);
            condition(x, q, id); conds[{v, q, id}] = digestCondition(x.m, 0); cinfos[{v, q, id}] = condInfo(*x.m.GetModelInfo().GetList(MainInfo::conditions_infos_list).back());
        }
    }
    if (elements[vol0] == elements[vol1] || elements[vol0].empty() || !elements[volOut].empty() || conds[{vol0, con0, 0}] == conds[{volOut, con0, 0}]) { std::puts("reference models do not differ"); std::exit(2); }
    const int depth = th ? 5 : 4;
    long total = 0, n = 1; for (int d = 1; d <= depth; ++d) { n *= numOps; total += d == depth ? n : 0; }
    for (long h = 0; h < total; ++h) {
        std::vector<int> ops; for (long k = h, d = 0; d < depth; ++d, k /= numOps) ops.insert(ops.begin(), (int)(k % numOps));
        if (!r.take()) continue;
        r.run([=] { std::string s; for (auto o : ops) s += cat(s.empty() ? "" : ", ", opName[o]); return s; }, [&] {
            auto x = fresh(); int v = -1; std::vector<std::tuple<int, int, IndexType>> cs;
            for (int op : ops) {
                auto views = [&] { std::vector<typename Model::BackgroundGridType::ElementViewType> w; if (v >= 0) for (auto e : x.m.GetElementViews<>()) w.push_back(e); return w; };
                auto held = views();
                if (op <= volOut) {
                    bool refused = false;
                    try { volume(x, op); } catch (const Exception&) { refused = true; }
                    VP_CHECK(refused == (v >= 0), refused ? "the first volume was refused" : "a second volume was created");
                    if (v < 0) v = op;
                } else if (op <= conNone) {
                    bool refused = false;
                    try { condition(x, op, (IndexType)cs.size()); } catch (const Exception&) { refused = true; }
                    VP_CHECK(refused == (v < 0), refused ? "a condition was refused" : "a condition was created before the volume");
                    if (!refused) cs.push_back({v, op, (IndexType)cs.size()}); }
                else if (op == construct) { Run y{std::move(x.m), std::move(x.sets)}; x.sets.clear(); auto z = MakeUnique<Model>(std::move(y.m)); x.m = std::move(*z); x.sets = std::move(y.sets); }
                else if (op == assign) {
                    auto y = fresh(); volume(y, vol1); condition(y, con1, 9); auto old = std::move(y.sets);
                    y.m = std::move(x.m); y.sets = std::move(x.sets); x.m = std::move(y.m); x.sets = std::move(y.sets);
                } else if (v < 0) { try { x.m.WriteModelToFile(); } catch (const Exception&) {} }
                else {
                    sc.clear(); x.m.WriteModelToFile();
                    VP_CHECK(slurp(sc.dir + "/elements.vtk") == files[v][0] && slurp(sc.dir + "/integration_points.vtk") == files[v][1], "files of another model");
                    for (size_t i = 0; i < cs.size(); ++i) VP_CHECK(!slurp(sc.dir + "/condition_id_" + std::to_string(i) + ".stl").empty(), "no file for condition ", i);
                    const std::string j = slurp(sc.dir + "/model_info.json");
                    VP_CHECK(!j.empty() && j.find(": nan") == j.npos && j.find(": -nan") == j.npos && j.find(": inf") == j.npos, "model_info.json: ", j);
                    r.count("models written");
                }
                // the elements obtained before refer to the same elements, also after a move
                for (auto& e : held) { std::vector<IntegrationPoint> g; for (const auto& p : e.GetIntegrationPoints<CoordinateSpace::global>()) g.push_back(p); VP_CHECK(g.size() == e.GetIntegrationPoints().size(), "points of a held element"); }
                VP_CHECK(digestElements(x.m) == elements[v], "after ", opName[op], ": elements of another model");
                VP_CHECK(infoBytes(x.m) == infos[v], "after ", opName[op], ": model info ", infoBytes(x.m), " instead of ", infos[v]);
                const auto& il = x.m.GetModelInfo().GetList(MainInfo::conditions_infos_list);
                VP_CHECK(x.m.GetConditions().size() == cs.size() && il.size() == cs.size(), "after ", opName[op], ": number of conditions ", x.m.GetConditions().size(), " and their infos ", il.size());
                for (size_t i = 0; i < cs.size(); ++i) {
                    VP_CHECK(digestCondition(x.m, i) == conds[cs[i]], "after ", opName[op], ": condition ", i, " differs");
                    VP_CHECK(condInfo(*il[i]) == cinfos[cs[i]], "after ", opName[op], ": info of condition ", i, ": ", condInfo(*il[i]), " instead of ", cinfos[cs[i]]);
                }
                // points in global space outlive the view they came from
                if (v >= 0) for (auto e : x.m.GetElementViews<>()) {
                    auto range = [&] { auto w = *x.m.GetElementViews<>().begin(); return w.template GetIntegrationPoints<CoordinateSpace::global>(); }();
                    ld s = 0, t = 0; for (const auto& p : range) s += p.Weight();
                    for (auto& p : e.GetIntegrationPoints()) t += (ld)p.Weight() * e.DetJ();
                    VP_CHECK(std::abs(s - t) <= 1e-12L * t, "points in global space weigh ", (double)s, " instead of ", (double)t);
                    break;
                }
                r.transitions++; r.states++;
            }
            if (v >= 0 && cs.size()) r.nontrivial(fnv(r.cur_desc()));
            r.sample(r.cur_desc());
        });
    }
}

int main(int argc, char** argv) {
    auto& r = R(); r.init(argc, argv);
    omp_set_num_threads(1);
    vp_rnd::source = &Source;
    if (r.args.empty() || r.args[0] == "flawed") RunFlawed();
    else if (r.args[0] == "plates") RunPlates();
    else if (r.args[0] == "histories") RunHistories();
    return r.finish();
}
