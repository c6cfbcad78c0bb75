// C17: written files against independent parsers. C18: every write fault, every disk capacity, every open failure for every writer.
#include "vp.hpp"
#include "iofault.hpp"
#include "families.hpp"
#include "settings.hpp"
#include "queso/embedded_model.h"
#include "queso/containers/background_grid.hpp"
#include "queso/containers/boundary_integration_point.hpp"
#include "queso/containers/integration_point.hpp"
#include "queso/io/io_utilities.h"
#include <filesystem>
using namespace vp;
using namespace queso;
using Grid = BackgroundGrid<IntegrationPoint, BoundaryIntegrationPoint>;
using Full = Grid::UntrimmedElementType;
using Trim = Grid::TrimmedElementType;
using Enc = IO::EncodingType;
using V3 = std::array<double, 3>;
using Tri = std::array<V3, 3>;
static iof::Scratch* scratch;
static const Enc ENC[] = {Enc::ascii, Enc::binary};
static const char* nm(Enc e) { return e == Enc::ascii ? "ascii" : "binary"; }

// ------------------------------------------------------------------------------------------------ parsers
struct Bad { std::string what; };
#define PARSE(c, ...) do { if (!(c)) throw Bad{cat(__VA_ARGS__)}; } while (0)
static double num(const std::string& w) {
    PARSE(!w.empty(), "number missing"); char* e; double d = std::strtod(w.c_str(), &e);
    PARSE(*e == 0, "not a number: ", w); return d;
}
static unsigned long long cnt(const std::string& w) {
    PARSE(!w.empty() && w.find_first_not_of("0123456789") == std::string::npos, "not a count: ", w); return std::stoull(w);
}
struct Facets { std::vector<Tri> t; std::vector<V3> n; };
template <class T> static T le(const std::string& s, size_t o) { T v; unsigned char b[sizeof(T)]; for (size_t i = 0; i < sizeof(T); ++i) b[i] = (unsigned char)s[o + i]; std::memcpy(&v, b, sizeof v); return v; }
template <class T> static T be(const std::string& s, size_t o) { T v; unsigned char b[sizeof(T)]; for (size_t i = 0; i < sizeof(T); ++i) b[sizeof(T) - 1 - i] = (unsigned char)s[o + i]; std::memcpy(&v, b, sizeof v); return v; }
static Facets ParseSTL(const std::string& s, Enc e) {
    Facets r;
    if (e == Enc::binary) {
        PARSE(s.size() >= 84, "binary STL file of ", s.size(), " bytes");
        PARSE(s.compare(0, 5, "solid") != 0, "binary STL file begins like an Ascii file");
        const size_t n = le<uint32_t>(s, 80);
        PARSE(s.size() == 84 + 50 * n, "binary STL file announces ", n, " triangles and has ", s.size(), " bytes");
        for (size_t i = 0; i < n; ++i) {
            size_t o = 84 + 50 * i; V3 v[4];
            for (size_t q = 0; q < 12; ++q) v[q / 3][q % 3] = (double)le<float>(s, o + 4 * q);
            r.n.push_back(v[0]); r.t.push_back({v[1], v[2], v[3]});
        }
        return r;
    }
    std::istringstream f(s); std::string w;
    auto line = [&](bool must = true) { std::string l; bool ok = (bool)std::getline(f, l); PARSE(ok || !must, "Ascii STL file ends early"); std::vector<std::string> v; std::istringstream g(l); while (g >> w) v.push_back(w); return v; };
    auto l = line(); PARSE(!l.empty() && l[0] == "solid", "Ascii STL file does not begin with solid");
    for (;;) {
        l = line();
        if (!l.empty() && l[0] == "endsolid") break;
        PARSE(l.size() == 5 && l[0] == "facet" && l[1] == "normal", "line of a facet");
        r.n.push_back({num(l[2]), num(l[3]), num(l[4])});
        l = line(); PARSE(l.size() == 2 && l[0] == "outer" && l[1] == "loop", "outer loop");
        Tri t; for (auto& p : t) { l = line(); PARSE(l.size() == 4 && l[0] == "vertex", "vertex"); p = {num(l[1]), num(l[2]), num(l[3])}; }
        r.t.push_back(t);
        l = line(); PARSE(l.size() == 1 && l[0] == "endloop", "endloop");
        l = line(); PARSE(l.size() == 1 && l[0] == "endfacet", "endfacet");
    }
    while (f.good()) PARSE(line(false).empty(), "text after endsolid");
    return r;
}
struct VtkFile { std::vector<V3> points; std::vector<std::vector<size_t>> cells; std::vector<int> types; bool weights = false; std::vector<double> w; };
static VtkFile ParseVTK(const std::string& s, Enc enc) {
    VtkFile r; size_t p = 0; const bool bin = enc == Enc::binary;
    auto line = [&] { size_t e = s.find('\n', p); PARSE(e != std::string::npos, "VTK file ends within a line"); std::string l = s.substr(p, e - p); p = e + 1; PARSE(l.size() < 300, "VTK header line of ", l.size(), " bytes"); return l; };
    auto words = [](const std::string& l) { std::vector<std::string> v; std::istringstream g(l); std::string w; while (g >> w) v.push_back(w); return v; };
    auto skip = [&] { while (p < s.size() && std::isspace((unsigned char)s[p])) ++p; };   // before a keyword
    auto token = [&] { skip(); size_t b = p; while (p < s.size() && !std::isspace((unsigned char)s[p])) ++p; PARSE(p > b, "VTK file ends early"); return s.substr(b, p - b); };
    PARSE(line().rfind("# vtk DataFile Version ", 0) == 0, "VTK version line");
    line();
    PARSE(words(line()) == std::vector<std::string>{bin ? "BINARY" : "ASCII"}, "VTK encoding line");
    PARSE((words(line()) == std::vector<std::string>{"DATASET", "UNSTRUCTURED_GRID"}), "VTK dataset line");
    auto dbl = [&] { if (!bin) return num(token()); PARSE(p + 8 <= s.size(), "VTK file ends early"); double d = be<double>(s, p); p += 8; return d; };
    auto in = [&]() -> size_t { if (!bin) return (size_t)cnt(token()); PARSE(p + 4 <= s.size(), "VTK file ends early"); auto d = be<int32_t>(s, p); p += 4; PARSE(d >= 0, "negative number in the connectivity"); return (size_t)d; };
    auto w = words(line()); PARSE(w.size() == 3 && w[0] == "POINTS" && w[2] == "double", "VTK POINTS line");
    const size_t n = cnt(w[1]); PARSE(n <= s.size(), "number of points ", n);
    r.points.resize(n); for (auto& q : r.points) for (auto& x : q) x = dbl();
    skip(); w = words(line()); PARSE(w.size() == 3 && w[0] == "CELLS", "VTK CELLS line: ", w.empty() ? "" : w[0]);
    const size_t nc = cnt(w[1]), size = cnt(w[2]); PARSE(nc <= s.size(), "number of cells ", nc);
    size_t used = 0; r.cells.resize(nc);
    for (auto& c : r.cells) { size_t k = in(); PARSE(k <= 64, "cell with ", k, " points"); used += k + 1; c.resize(k); for (auto& x : c) { x = in(); PARSE(x < n, "cell uses point ", x, " of ", n); } }
    PARSE(used == size, "CELLS announces ", size, " numbers and has ", used);
    skip(); w = words(line()); PARSE(w.size() == 2 && w[0] == "CELL_TYPES" && cnt(w[1]) == nc, "VTK CELL_TYPES line");
    r.types.resize(nc); for (auto& t : r.types) t = (int)in();
    skip();
    if (p == s.size()) return r;
    w = words(line()); PARSE(w.size() == 2 && w[0] == "POINT_DATA" && cnt(w[1]) == n, "VTK POINT_DATA line");
    w = words(line()); PARSE(w.size() >= 3 && w[0] == "SCALARS" && w[2] == "double" && (w.size() == 3 || w[3] == "1"), "VTK SCALARS line");
    w = words(line()); PARSE(w.size() == 2 && w[0] == "LOOKUP_TABLE", "VTK LOOKUP_TABLE line");
    r.weights = true; r.w.resize(n); for (auto& x : r.w) x = dbl();
    skip(); PARSE(p == s.size(), "data after the end of the VTK file");
    return r;
}

// ------------------------------------------------------------------------------------------------ comparison
// lists agree in some order; the given order first
template <class T, class F> static std::string Match(const std::vector<T>& got, const std::vector<T>& want, F same) {
    if (got.size() != want.size()) return cat(got.size(), " instead of ", want.size());
    size_t i = 0; while (i < got.size() && same(got[i], want[i])) ++i;
    if (i == got.size()) return "";
    std::vector<bool> used(got.size()); size_t hint = 0;
    for (size_t k = 0; k < want.size(); ++k) {
        bool f = false;
        for (size_t q = 0; q < got.size() && !f; ++q) { size_t j = (hint + q) % got.size(); if (!used[j] && same(got[j], want[k])) { used[j] = f = true; hint = j + 1; } }
        if (!f) return cat("entry ", k, " is missing (first difference in order at ", i, ")");
    }
    return "";
}
static bool nearStl(double g, double w, Enc e) { return e == Enc::binary ? g == (double)(float)w : std::abs(g - w) <= 5.1e-7 + 1e-15 * std::abs(w); }
static bool nearVtk(double g, double w, double rel, Enc e) { return std::abs(g - w) <= (e == Enc::binary ? 0 : 5.1e-16 + 2.3e-16 * std::abs(w)) + rel; }
struct Facet { Tri t; V3 n; };
static std::vector<Facet> Facets_of(const TriangleMesh& m) {
    std::vector<Facet> r;
    for (IndexType i = 0; i < m.NumOfTriangles(); ++i) { Facet f; auto id = m.TriangleIndices()[i]; for (size_t k = 0; k < 3; ++k) { auto v = m.Vertices()[id[k]]; f.t[k] = {v[0], v[1], v[2]}; } auto n = m.Normals()[i]; f.n = {n[0], n[1], n[2]}; r.push_back(f); }
    return r;
}
static bool rotEq(const Tri& a, const Tri& b, const std::function<bool(double, double)>& eq) {
    for (size_t o = 0; o < 3; ++o) { bool ok = true; for (size_t k = 0; k < 3 && ok; ++k) for (size_t d = 0; d < 3; ++d) if (!eq(a[(k + o) % 3][d], b[k][d])) { ok = false; break; } if (ok) return true; }
    return false;
}
template <class F> static void Guarded(const char* what, F f) { try { f(); } catch (const Bad& b) { R().fail(cat(what, ": ", b.what)); } }
static void CheckSTL(const std::string& file, const std::vector<Facet>& want, Enc e, bool readback) {
    Guarded("STL file is not well-formed", [&] {
        auto f = ParseSTL(iof::slurp(file), e);
        std::vector<Facet> got; for (size_t i = 0; i < f.t.size(); ++i) got.push_back({f.t[i], f.n[i]});
        auto s = Match(got, want, [&](const Facet& a, const Facet& b) {
            for (size_t d = 0; d < 3; ++d) if (!(std::abs(a.n[d] - b.n[d]) <= 1.1e-6)) return false;
            return rotEq(a.t, b.t, [&](double x, double y) { return nearStl(x, y, e); });
        });
        VP_CHECK(s.empty(), "triangles of the STL file: ", s);
    });
    if (!readback) return;
    TriangleMesh m; IO::ReadMeshFromSTL(m, file);
    auto s = Match(Facets_of(m), want, [&](const Facet& a, const Facet& b) { return rotEq(a.t, b.t, [&](double x, double y) { return std::abs(x - y) <= 6e-7 + 1.2e-7 * std::abs(y); }); });
    VP_CHECK(s.empty(), "triangles read back: ", s);
}
static void CheckMeshVTK(const std::string& file, const std::vector<Facet>& want, Enc e) {
    Guarded("VTK file of a mesh is not well-formed", [&] {
        auto v = ParseVTK(iof::slurp(file), e);
        std::vector<Tri> got, w;
        for (size_t i = 0; i < v.cells.size(); ++i) { VP_CHECK(v.types[i] == 5 && v.cells[i].size() == 3, "cell ", i, " has type ", v.types[i], " and ", v.cells[i].size(), " points"); got.push_back({v.points[v.cells[i][0]], v.points[v.cells[i][1]], v.points[v.cells[i][2]]}); }
        for (auto& f : want) w.push_back(f.t);
        auto s = Match(got, w, [&](const Tri& a, const Tri& b) { return rotEq(a, b, [&](double x, double y) { return nearVtk(x, y, 0, e); }); });
        VP_CHECK(s.empty(), "triangles of the VTK file: ", s);
    });
}
struct Box { V3 lo, hi; };
static void CheckElementsVTK(const std::string& file, const std::vector<Box>& want, Enc e) {
    Guarded("VTK file of the elements is not well-formed", [&] {
        auto v = ParseVTK(iof::slurp(file), e);
        std::vector<Box> got;
        for (size_t i = 0; i < v.cells.size(); ++i) {
            auto& c = v.cells[i];
            VP_CHECK(v.types[i] == 12 && c.size() == 8, "cell ", i, " has type ", v.types[i], " and ", c.size(), " points");
            Box b{v.points[c[0]], v.points[c[0]]};
            for (auto q : c) for (size_t d = 0; d < 3; ++d) { b.lo[d] = std::min(b.lo[d], v.points[q][d]); b.hi[d] = std::max(b.hi[d], v.points[q][d]); }
            // a VTK hexahedron: 0-1-2-3 a face, seen from 4-7 counter-clockwise, and 4-7 above them
            int code[8]; std::set<int> all;
            for (size_t q = 0; q < 8; ++q) { code[q] = 0; for (size_t d = 0; d < 3; ++d) { double x = v.points[c[q]][d]; VP_CHECK(x == b.lo[d] || x == b.hi[d], "point ", q, " of cell ", i, " is no corner"); if (x == b.hi[d] && b.hi[d] > b.lo[d]) code[q] |= 1 << d; } all.insert(code[q]); }
            VP_CHECK(all.size() == 8, "cell ", i, " does not have eight corners");
            auto bit = [](int x) { return x == 1 || x == 2 || x == 4; };
            for (int q = 0; q < 4; ++q) VP_CHECK(bit(code[q] ^ code[(q + 1) % 4]) && bit(code[q] ^ code[q + 4]) && (code[q] ^ code[q + 4]) == (code[0] ^ code[4]), "corners of cell ", i, " are out of order");
            auto vec = [&](int a, int z) { P3 p; for (int d = 0; d < 3; ++d) p[d] = ((code[z] >> d & 1) - (code[a] >> d & 1)); return p; };
            VP_CHECK(dot(cross(vec(0, 1), vec(0, 3)), vec(0, 4)) > 0.5L, "cell ", i, " is inverted");
            got.push_back(b);
        }
        auto s = Match(got, want, [&](const Box& a, const Box& b) { for (size_t d = 0; d < 3; ++d) if (!nearVtk(a.lo[d], b.lo[d], 1e-15 * std::abs(b.lo[d]), e) || !nearVtk(a.hi[d], b.hi[d], 1e-15 * std::abs(b.hi[d]), e)) return false; return true; });
        VP_CHECK(s.empty(), "cells of the VTK file: ", s);
    });
}
struct Pw { V3 x; double w, tol; };
static void CheckPointsVTK(const std::string& file, const std::vector<Pw>& want, Enc e) {
    Guarded("VTK file of the points is not well-formed", [&] {
        auto v = ParseVTK(iof::slurp(file), e);
        VP_CHECK(v.cells.size() == v.points.size(), v.cells.size(), " cells for ", v.points.size(), " points");
        std::vector<bool> seen(v.points.size());
        for (size_t i = 0; i < v.cells.size(); ++i) { VP_CHECK(v.types[i] == 1 && v.cells[i].size() == 1 && !seen[v.cells[i][0]], "cell ", i, " is no vertex of its own"); seen[v.cells[i][0]] = true; }
        VP_CHECK(v.weights, "no weights");
        std::vector<Pw> got; for (size_t i = 0; i < v.points.size(); ++i) got.push_back({v.points[i], v.w[i], 0});
        auto s = Match(got, want, [&](const Pw& a, const Pw& b) { for (size_t d = 0; d < 3; ++d) if (!nearVtk(a.x[d], b.x[d], b.tol, e)) return false; return nearVtk(a.w, b.w, 1e-14 * std::abs(b.w), e); });
        VP_CHECK(s.empty(), "points of the VTK file: ", s);
    });
}
// what a list of elements should give
template <class TViews> static void Expected(TViews&& views, std::vector<Box>& boxes, std::vector<Pw>& pts) {
    for (auto v : views) {
        auto b = v.template GetCellBounds<CoordinateSpace::global>(), u = v.template GetCellBounds<CoordinateSpace::parametric>();
        boxes.push_back({{b.lower[0], b.lower[1], b.lower[2]}, {b.upper[0], b.upper[1], b.upper[2]}});
        for (auto& p : v.GetIntegrationPoints()) {
            Pw q; ld det = 1, mag = 0;
            for (size_t d = 0; d < 3; ++d) { ld j = ((ld)b.upper[d] - b.lower[d]) / ((ld)u.upper[d] - u.lower[d]); det *= j; q.x[d] = (double)(b.lower[d] + ((ld)p.Point()[d] - u.lower[d]) * j); mag = std::max({mag, (ld)std::abs(b.lower[d]), (ld)std::abs(b.upper[d]), j * std::abs((ld)p.Point()[d])}); }
            q.w = (double)(det * p.Weight()); q.tol = 1e-14 * (double)mag; pts.push_back(q);
        }
    }
}

// ------------------------------------------------------------------------------------------------ material
static double val3(int k) { static const double v[] = {0, 1, -1, 0.5, 1.0 / 3, -2.0 / 7, 1e-5, 123456.789, -3.0000001, 2e-16, 99999.5, 1e-7, -0.0, 4096.25, 3.14159265358979312}; return v[k % 15]; }
static TriangleMesh SomeMesh(size_t n, int seed, bool shared) {
    TriangleMesh m; size_t s = (size_t)seed;
    auto next = [&] { s = (s * 6364136223846793005ULL + 1442695040888963407ULL); return (int)(s >> 40 & 0xffff); };
    if (shared) for (size_t i = 0; i < n + 2; ++i) m.AddVertex({val3(next()), val3(next()) + (double)i, val3(next()) + 0.5 * (double)(i % 7)});
    for (size_t i = 0; i < n; ++i) {
        Vector3i id;
        for (size_t k = 0; k < 3; ++k) id[k] = shared ? (i * (1 + (size_t)seed % 3) + k) % (n + 2) : m.AddVertex({val3(next()) + (double)(k == 1), val3(next()) + 2.0 * (double)(k == 2), val3(next()) * (k == 0 ? 1 : 0.5)});
        if (id[0] == id[1] || id[1] == id[2] || id[0] == id[2]) id = {0, 1, 2};
        static const double nn[3][3] = {{0, 0, 1}, {0.6, -0.8, 0}, {1.0 / 3, 2.0 / 3, -2.0 / 3}};
        auto& q = nn[(size_t)next() % 3]; m.AddTriangle(id, Vector3d{q[0], q[1], q[2]});
    }
    return m;
}
static TriangleMesh Ramp(size_t n) {   // many distinct triangles, quickly
    TriangleMesh m; m.Reserve(n);
    for (size_t i = 0; i < n + 2; ++i) m.AddVertex({(double)i / 3, (double)(i % 5) / 7, (double)(i % 3)});
    for (size_t i = 0; i < n; ++i) m.AddTriangle(Vector3i{i, i + 1, i + 2}, Vector3d{0.6, -0.8, 0});
    return m;
}
struct PlainGrid {   // a grid filled by hand: element id carries `points(id)` points
    Cfg c; Unique<Dict> set; Unique<GridIndexer> gi; Solid solid; Unique<BRepOperator> brep; Unique<Grid> grid;
    struct FullB { static constexpr auto Builds = Grid::ElementFilter::untrimmed; IndexType n; std::optional<Full> Build(IndexType Id, const ElementBounds& b) { Full e(Id, b); Fill(e.GetIntegrationPoints(), Id, b, n); return e; } };
    struct TrimB { static constexpr auto Builds = Grid::ElementFilter::trimmed; IndexType n; const BRepOperator* br; std::optional<Trim> Build(IndexType Id, const ElementBounds& b) { Trim e(Id, b, TrimmedDomain(ClippedTriangleMesh{}, b.global.lower, b.global.upper, br, 0, false)); Fill(e.GetIntegrationPoints(), Id, b, n); return e; } };
    template <class T> static void Fill(T& v, IndexType Id, const ElementBounds& b, IndexType n) {
        for (IndexType k = 0; k < n; ++k) { double t[3] = {0.1 + 0.8 * (double)(k % 3) / 3, 0.05 + (double)(Id % 17) / 20, (double)(k % 11) / 10}; v.push_back(IntegrationPoint(b.parametric.lower[0] + t[0] * (b.parametric.upper[0] - b.parametric.lower[0]), b.parametric.lower[1] + t[1] * (b.parametric.upper[1] - b.parametric.lower[1]), b.parametric.lower[2] + t[2] * (b.parametric.upper[2] - b.parametric.lower[2]), (double)(1 + k + Id) / 37)); }
    }
    PlainGrid(Vector3i n, PointType lo, PointType hi, PointType lou, PointType hiu, const std::function<int(IndexType)>& kind, const std::function<IndexType(IndexType)>& points) {
        c.n = n; c.lo = lo; c.hi = hi; c.lou = lou; c.hiu = hiu;
        set = MakeSettings(c); gi = MakeUnique<GridIndexer>(*set); grid = MakeUnique<Grid>(*set);
        solid = convexSolid("box", boxPiece({0, 0, 0}, {1, 1, 1})); brep = MakeUnique<BRepOperator>(solid.mesh);
        for (IndexType id = 1; id <= gi->NumberOfElements(); ++id) {
            ElementBounds b{gi->GetBoundingBoxXYZFromIndex(id - 1), gi->GetBoundingBoxUVWFromIndex(id - 1)};
            int k = kind(id);
            if (k == 1) { FullB f{points(id)}; grid->MakeElement(f, id, b); }
            if (k == 2) { TrimB f{points(id), brep.get()}; grid->MakeElement(f, id, b); }
        }
        grid->LockElements();
    }
};
static EmbeddedModel MakeModel(const Cfg& c, const TriangleMesh& volume, const std::vector<TriangleMesh>& conds, std::vector<Unique<Dict>>& sets) {
    auto m = EmbeddedModel::Create(MakeSettings(c));
    m.CreateVolume(volume.View());
    for (size_t i = 0; i < conds.size(); ++i) {
        sets.push_back(DictionaryFactory<key::MainValuesTypeTag>::Create("ConditionSettings"));
        sets.back()->SetValue(ConditionSettings::condition_id, IndexType(5 + 8 * i));
        sets.back()->SetValue(ConditionSettings::input_filename, std::string("none"));
        sets.back()->CheckRequired();
        m.CreateCondition(conds[i].View(), *sets.back());
    }
    return m;
}
template <class TCond> static std::vector<Facet> CondFacets(const TCond& c) { std::vector<Facet> r; for (auto& s : c.GetSegments()) { auto f = Facets_of(s.GetTriangleMesh()); r.insert(r.end(), f.begin(), f.end()); } return r; }
static void Junk(const std::string& f) { iof::spit(f, std::string(5000, 'j')); }   // an old, longer file of the same name

// ------------------------------------------------------------------------------------------------ C17
static void Buffer() {
    auto& r = R(); const int depth = r.thorough() ? 5 : 4;
    for (size_t bs = 1; bs <= 24; ++bs) for (int en = 0; en < 2; ++en) for (int first = 0; first < 9; ++first) {
        if (r.thorough() && bs > 12 && bs % 3) continue;
        if (!r.take()) continue;
        r.run([=] { return cat("buffer of ", bs, " bytes, ", en ? "big" : "little", " endian, sequences beginning with operation ", first); }, [=, &r] {
            const std::string fn = (*scratch)("buffer.bin");
            const auto E = en ? BinaryBufferWriter::EndianType::big : BinaryBufferWriter::EndianType::little;
            const std::string raw = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";
            int total = 1; for (int d = 1; d < depth; ++d) total *= 9;
            for (int code = 0; code < total; ++code) {
                std::string want;
                auto put = [&](auto v) { unsigned char b[sizeof v]; std::memcpy(b, &v, sizeof v); if (en) std::reverse(b, b + sizeof v); want.append(reinterpret_cast<char*>(b), sizeof v); };
                {
                    std::ofstream f(fn, std::ios::out | std::ios::binary);
                    {
                        BinaryBufferWriter w(f, E, bs);
                        for (int d = 0, c = code, op = first; d < depth; ++d, op = c % 9, c /= 9) {
                            switch (op) {
                            case 0: w.WriteRaw(raw.data(), 0); break;
                            case 1: w.WriteRaw(raw.data() + d, 1); want += raw[(size_t)d]; break;
                            case 2: w.WriteRaw(raw.data(), bs); want += raw.substr(0, bs); break;
                            case 3: w.WriteRaw(raw.data() + 1, bs + 1); want += raw.substr(1, bs + 1); break;
                            case 4: { std::uint8_t v = (std::uint8_t)(0x51 + d); w.WriteValue(v); put(v); break; }
                            case 5: { std::uint16_t v = (std::uint16_t)(0x6162 + d); w.WriteValue(v); put(v); break; }
                            case 6: { double v = 1.2345e67 + d; w.WriteValue(v); put(v); break; }
                            case 7: { std::uint32_t v[3] = {0x01020304u, 0xa5b6c7d8u, 77u + (unsigned)d}; w.WriteArray(v); for (auto x : v) put(x); break; }
                            case 8: w.Flush(); break;
                            }
                        }
                    }
                    f.flush();
                }
                ++r.states; r.transitions += depth;
                if (iof::slurp(fn) != want) r.fail(cat("operations ", first, " and code ", code, " write ", iof::slurp(fn).size(), " bytes, ", want.size(), " expected, or others"));
                if (want.size() > bs) r.nontrivial(fnv(cat(bs, en, first, code)));
            }
            r.sample(r.cur_desc());
        });
    }
}
static void Meshes() {
    auto& r = R(); const bool th = r.thorough();
    auto go = [&](const std::string& name, std::function<TriangleMesh()> make, bool readback) {
        for (Enc e : ENC) {
            if (!r.take()) continue;
            const long long id = r.idx;
            r.run([=] { return cat(name, " ", nm(e)); }, [=, &r] {
                auto m = make(); auto want = Facets_of(m);
                static const char* names[] = {"mesh.out", "a b.stl", "noext", ".hidden.vtk", "x.tar.gz"};
                const std::string f = (*scratch)(names[id % 5]);
                Junk(f); IO::WriteMeshToSTL(m, f, e); CheckSTL(f, want, e, readback);
                Junk(f); IO::WriteMeshToVTK(m, f, e); CheckMeshVTK(f, want, e);
                if (m.NumOfTriangles() > 1) {   // half of the mesh through a view
                    ++r.states;
                    IO::WriteMeshToSTL(m.View(), f, e); CheckSTL(f, want, e, false);
                }
                r.states += 2; r.transitions += (long long)want.size();
                if (!want.empty()) r.nontrivial(fnv(r.cur_desc()));
                r.sample(r.cur_desc());
            });
        }
    };
    for (size_t n = 0; n <= (th ? 40u : 16u); ++n) for (int seed = 0; seed < (th ? 60 : 20); ++seed) for (int sh = 0; sh < 2; ++sh) go(cat("mesh of ", n, " triangles, values ", seed, sh ? " shared vertices" : ""), [=] { return SomeMesh(n, 1 + seed * 7919, sh); }, false);
    for (uint64_t m = 1; m < 256; ++m) go(cat("voxels ", m), [=] { return std::move(voxelMade({0.25, 1, 2}, {-1, 0.1, 2}, {0, 1, 2.5}, m).make().mesh); }, true);
    // around the sizes of the buffer of 2^20 bytes
    for (size_t n : {14562u, 14563u, 14564u, 20969u, 20970u, 20971u, 20972u, 29127u, 29128u, 41942u, 41943u, 65535u, 65536u, 65537u, 349530u}) go(cat("strip of ", n, " triangles"), [=] { return Ramp(n); }, n == 20971u);
    if (th) for (size_t n : {262143u, 262144u, 262145u, 300000u}) go(cat("strip of ", n, " triangles"), [=] { return Ramp(n); }, false);
}
static void Grids() {
    auto& r = R(); const bool th = r.thorough();
    auto go = [&](const std::string& name, std::function<Unique<PlainGrid>()> make) {
        for (Enc e : ENC) {
            if (!r.take()) continue;
            r.run([=] { return cat(name, " ", nm(e)); }, [=, &r] {
                auto g = make(); std::vector<Box> b; std::vector<Pw> p;
                Expected(std::as_const(*g->grid).GetElementViews(), b, p);
                const std::string f = (*scratch)("grid.vtk");
                Junk(f); IO::WriteElementsToVTK(*g->grid, f, e); CheckElementsVTK(f, b, e);
                Junk(f); IO::WritePointsToVTK(*g->grid, f, e); CheckPointsVTK(f, p, e);
                r.states += 2; r.transitions += (long long)(b.size() + p.size());
                if (!b.empty() && !p.empty()) r.nontrivial(fnv(r.cur_desc()));
                r.sample(r.cur_desc());
            });
        }
    };
    // every subset of cells, full or cut, of 2x2x1 cells; number of points per element 0..3
    static const PointType lo[] = {{0, 0, 0}, {-1.1, 1e3, 0.3}, {1e-3, -2e-3, 5}}, hi[] = {{1, 1, 1}, {2.3, 1001.7, 0.9}, {4e-3, 1.0 / 3, 5.5}}, lou[] = {{0, 0, 0}, {-1, -1, -1}, {0, 2, -3}}, hiu[] = {{1, 1, 1}, {1, 1, 1}, {4, 7, 5}};
    for (int mask = 0; mask < 81; ++mask) for (int pat = 0; pat < 4; ++pat) for (int box = 0; box < 3; ++box) go(cat("2x2x1 cells, kinds ", mask, " points ", pat, " box ", box), [=] {
        int k[4] = {mask % 3, mask / 3 % 3, mask / 9 % 3, mask / 27};
        return MakeUnique<PlainGrid>(Vector3i{2, 2, 1}, lo[box], hi[box], lou[(box + pat) % 3], hiu[(box + pat) % 3], [=](IndexType id) { return k[id - 1]; }, [=](IndexType id) -> IndexType { return pat == 0 ? 1 : pat == 1 ? id % 3 : pat == 2 ? 0 : 4 * (id % 2) + 1; });
    });
    auto big = [&](Vector3i n, IndexType pts, int kinds) { go(cat(str(n), " cells with ", pts, " points, kinds ", kinds), [=] { return MakeUnique<PlainGrid>(n, lo[1], hi[1], lou[2], hiu[2], [=](IndexType id) { return kinds == 0 ? 1 : kinds == 1 ? (int)(id % 3) : id % 2 ? 2 : 1; }, [=](IndexType) { return pts; }); }); };
    big({43, 127, 1}, 8, 0); big({5462, 1, 1}, 8, 0); big({2731, 2, 1}, 24, 0); big({30, 31, 32}, 1, 1); big({7, 8320, 1}, 3, 1); big({29128, 1, 1}, 1, 0); big({29127, 1, 1}, 6, 0); big({3, 149, 147}, 1, 0);
    if (th) { big({64, 64, 64}, 1, 0); big({65, 64, 64}, 2, 2); big({40, 40, 40}, 27, 1); big({512, 16, 16}, 1, 0); }
}
// conditions put together from segments with any numbers of triangles, empty ones included
static void Conditions() {
    auto& r = R(); const bool th = r.thorough();
    using Cond = Grid::ConditionType;
    using Seg = Cond::ConditionSegmentType;
    auto go = [&](const std::string& name, std::vector<size_t> sizes, bool ramps) {
        for (Enc e : ENC) {
            if (!r.take()) continue;
            r.run([=] { return cat(name, " ", nm(e)); }, [=, &r] {
                auto set = DictionaryFactory<key::MainValuesTypeTag>::Create("ConditionSettings"), info = DictionaryFactory<key::MainValuesTypeTag>::Create("ConditionInfo");
                Cond c(*set, *info); std::vector<Facet> want;
                for (size_t k = 0; k < sizes.size(); ++k) {
                    auto m = ramps ? Ramp(sizes[k]) : SomeMesh(sizes[k], 3 + 7919 * k + sizes[k], k % 2);
                    auto f = Facets_of(m); want.insert(want.end(), f.begin(), f.end());
                    c.AddSegment(Seg(3 * k + 1, ClippedTriangleMesh(std::move(m))));
                }
                VP_CHECK(c.NumberOfSegments() == sizes.size(), "number of segments");
                const std::string f = (*scratch)("condition.stl");
                Junk(f); IO::WriteConditionToSTL(c, f, e); CheckSTL(f, want, e, false);
                ++r.states; r.transitions += (long long)want.size();
                if (want.size() > 1 && sizes.size() > 1) r.nontrivial(fnv(r.cur_desc()));
                r.sample(r.cur_desc());
            });
        }
    };
    const size_t top = th ? 5 : 4;   // every condition of up to `top` segments with 0 to 3 triangles
    for (size_t n = 0; n <= top; ++n) { size_t all = 1; for (size_t i = 0; i < n; ++i) all *= 4; for (size_t code = 0; code < all; ++code) { std::vector<size_t> v; for (size_t i = 0, c = code; i < n; ++i, c /= 4) v.push_back(c % 4); go(cat("segments ", n, " code ", code), v, false); } }
    for (auto& v : std::vector<std::vector<size_t>>{{65535}, {65535, 1}, {65536}, {40000, 0, 40000}, {1, 65535, 1}, {20970, 1}, {20971, 1}, {20969, 1, 1, 1}, {32768, 32768}, {100000, 100000}, std::vector<size_t>(300, 255), std::vector<size_t>(70000, 1)}) go(cat("large condition of ", v.size(), " segments beginning with ", v[0]), v, true);
}
static Cfg ModelCfg(int grid, int which) {
    Cfg c; c.write = true; c.dir = scratch->dir; c.mintri = 4; c.residual = 1e-2; c.minvol = 1e-3;
    static const PointType lo[] = {{0, 0, 0}, {-0.5, -0.5, -0.5}, {-0.1, -0.2, -0.3}, {-1, -1, -1}}, hi[] = {{2, 2, 2}, {2.5, 2.5, 2.5}, {2.2, 2.1, 2.4}, {3, 3, 3}};
    static const Vector3i n[] = {{2, 2, 2}, {3, 3, 3}, {3, 4, 2}, {4, 4, 4}};
    c.lo = lo[grid]; c.hi = hi[grid]; c.n = n[grid];
    static const PointType lou[] = {{0, 0, 0}, {-1, -1, -1}, {2, 3, 4}}, hiu[] = {{1, 1, 1}, {1, 1, 1}, {7, 3.5, 9}};
    c.lou = lou[which % 3]; c.hiu = hiu[which % 3];
    c.grid = which % 2 ? GridType::hexahedral_fe_grid : GridType::b_spline_grid;
    c.p = which % 5 == 0 ? Vector3i{2, 2, 2} : Vector3i{1, 1, 1};
    c.method = which % 5 == 0 && !(which % 2) ? IntegrationMethod::ggq_optimal : IntegrationMethod::gauss;
    return c;
}
static void Models() {
    auto& r = R(); const bool th = r.thorough();
    auto go = [&](const Made& md, int grid, int which, int conds) {
        if (!r.take()) return;
        r.run([=] { return cat(md.name, " grid ", grid, " configuration ", which, " conditions ", conds); }, [=, &r] {
            iof::Scratch::clear(scratch->dir);
            Cfg c = ModelCfg(grid, which);
            auto s = md.make(); std::vector<TriangleMesh> cs; std::vector<Unique<Dict>> sets;
            if (conds & 1) cs.push_back(std::move(md.make().mesh));
            if (conds & 2) { MeshBuilder b; b.tri({0.1L, 0.2L, 0.3L}, {1.9L, 0.4L, 0.2L}, {0.3L, 1.7L, 1.6L}); cs.push_back(std::move(b.m)); }
            if (conds & 4) { MeshBuilder b; b.tri({10, 0, 0}, {11, 0, 0}, {10, 1, 0}); cs.push_back(std::move(b.m)); }   // outside of the grid: no segments
            auto m = MakeModel(c, s.mesh, cs, sets);
            std::vector<Box> b; std::vector<Pw> p;
            Expected(m.GetElementViews<>(), b, p);
            for (int twice = 0; twice < 2; ++twice) {
                m.WriteModelToFile();
                CheckElementsVTK((*scratch)("elements.vtk"), b, Enc::binary);
                CheckPointsVTK((*scratch)("integration_points.vtk"), p, Enc::binary);
                std::set<std::string> files{"elements.vtk", "integration_points.vtk", "model_info.json"};
                for (auto& cond : m.GetConditions()) {
                    const std::string f = cat("condition_id_", val<IndexType>(cond.GetSettings(), ConditionSettings::condition_id), ".stl");
                    VP_CHECK(files.insert(f).second, "two conditions of one name");
                    CheckSTL((*scratch)(f), CondFacets(cond), Enc::binary, false);
                    IO::WriteConditionToSTL(cond, (*scratch)("ascii.tmp"), Enc::ascii); CheckSTL((*scratch)("ascii.tmp"), CondFacets(cond), Enc::ascii, false); ::unlink((*scratch)("ascii.tmp").c_str());
                    ++r.states;
                }
                for (auto& f : files) VP_CHECK(iof::exists((*scratch)(f)), "no file ", f);
                for (auto& f : files) if (!twice) Junk((*scratch)(f));
                r.states += 2; r.transitions += (long long)(b.size() + p.size());
            }
            if (b.size() && p.size() && conds) r.nontrivial(fnv(r.cur_desc()));
            r.sample(r.cur_desc());
        });
    };
    for (uint64_t m = 1; m < 256; ++m) {
        if (!voxelManifold(2, 2, 2, m)) continue;
        for (int grid = 0; grid < 4; ++grid) for (int conds = 0; conds < 8; ++conds) if (th || ((int)m + grid * 3 + conds) % 8 == 0) go(voxelMade({0, 1, 2}, {0.25, 1, 2}, {0, 1, 1.75}, m), grid, (int)m + conds, conds);
    }
    latticeTets([&](size_t no, const Made& md) { if (no % (th ? 7 : 97) == 0) go(md, (int)(no / 7 % 4), (int)no, (int)(no / 3 % 8)); });
}

// ------------------------------------------------------------------------------------------------ C18
struct Writer { std::string name; std::function<void(const std::string&)> write; };
static bool Kaputt(const Writer& w, const std::string& f, std::string& what) { // true: an error was reported
    try { iof::Guard g; w.write(f); return false; } catch (const std::exception& e) { what = e.what(); return true; }
}
static std::vector<Writer> Writers(int size) {
    std::vector<Writer> L;
    static const size_t N[] = {0, 1, 2, 60, 25000};
    auto m = std::make_shared<TriangleMesh>(size < 4 ? SomeMesh(N[size], 5 + size, false) : Ramp(N[4]));
    for (Enc e : ENC) {
        L.push_back({cat("mesh STL ", nm(e)), [=](const std::string& f) { IO::WriteMeshToSTL(*m, f, e); }});
        L.push_back({cat("mesh VTK ", nm(e)), [=](const std::string& f) { IO::WriteMeshToVTK(*m, f, e); }});
    }
    static const Vector3i G[] = {{1, 1, 1}, {1, 1, 1}, {2, 1, 1}, {4, 4, 3}, {6000, 1, 1}};
    std::shared_ptr<PlainGrid> g(new PlainGrid(G[size], {0, 0, 0}, {1, 1, 1}, {-1, -1, -1}, {1, 1, 1}, [=](IndexType id) { return size == 0 ? 0 : id % 2 ? 1 : 2; }, [=](IndexType) { return IndexType(size == 4 ? 8 : size); }));
    for (Enc e : ENC) {
        L.push_back({cat("elements VTK ", nm(e)), [=](const std::string& f) { IO::WriteElementsToVTK(*g->grid, f, e); }});
        L.push_back({cat("points VTK ", nm(e)), [=](const std::string& f) { IO::WritePointsToVTK(*g->grid, f, e); }});
    }
    struct Hold { std::vector<Unique<Dict>> sets; Unique<EmbeddedModel> m; };
    auto h = std::make_shared<Hold>();
    Cfg c = ModelCfg(0, 1); c.write = false;
    std::vector<TriangleMesh> cs;
    { auto s = voxelMade({0, 1, 2}, {0, 1, 2}, {0, 1, 2}, size < 2 ? 1 : 255).make(); MeshBuilder b; b.tri({10, 0, 0}, {11, 0, 0}, {10, 1, 0}); if (size == 0) cs.push_back(std::move(b.m)); else cs.push_back(std::move(s.mesh)); }
    if (size == 3) for (int k = 0; k < 2; ++k) { TriangleMesh copy(cs[0]); MeshUtilities::Append(cs[0], copy); }
    if (size == 4) { MeshBuilder b; for (int i = 0; i < 110; ++i) for (int j = 0; j < 110; ++j) { auto P = [](int x, int y) { return P3{0.01L + x * 0.018L, 0.01L + y * 0.018L, 0.5L + 0.002L * x}; }; b.quad(P(i, j), P(i + 1, j), P(i + 1, j + 1), P(i, j + 1)); } cs[0] = std::move(b.m); }
    auto vol = voxelMade({0, 1, 2}, {0, 1, 2}, {0, 1, 2}, 255).make();
    h->m = MakeUnique<EmbeddedModel>(MakeModel(c, vol.mesh, cs, h->sets));
    for (Enc e : ENC) L.push_back({cat("condition STL ", nm(e)), [=](const std::string& f) { IO::WriteConditionToSTL(*h->m->GetConditions().begin(), f, e); }});
    if (size < 4) {
        std::shared_ptr<Dict> d(DictionaryFactory<key::MainValuesTypeTag>::Create(size % 2 ? "Settings" : "ModelInfo").release());
        if (size == 3) for (int k = 0; k < 60; ++k) { auto cd = DictionaryFactory<key::MainValuesTypeTag>::Create("ConditionSettings"); cd->SetValue(ConditionSettings::condition_id, IndexType(k)); cd->SetValue(ConditionSettings::input_filename, std::string(100, 'f')); d->GetList(MainSettings::conditions_settings_list).push_back(std::move(cd)); }
        L.push_back({"dictionary JSON", [=](const std::string& f) { IO::WriteDictionaryToJSON(*d, f); }});
    }
    return L;
}
static const int SIZES[] = {0, 1, 2, 3, 4};
static const char* KIND[] = {"none", "error once", "errors from", "short write", "short write, then errors", "interrupted", "capacity"};
struct Base { std::string content; long writes, opens; };
static Base FaultFree(const Writer& w, const std::string& f) {
    iof::arm(); ::unlink(f.c_str()); std::string what;
    VP_CHECK(!Kaputt(w, f, what), "fails without a fault: ", what);
    Base b{iof::slurp(f), iof::S.writes, iof::S.opens};
    VP_CHECK(b.opens >= 1, "the harness does not see the file being opened");
    VP_CHECK(b.content.empty() || (b.writes >= 1 && iof::S.bytes == b.content.size()), "the harness does not see the file being written");
    return b;
}
static void Judge(const Writer& w, const std::string& f, const Base& b, const std::string& fault) {
    auto& r = R(); std::string what;
    Junk(f);
    bool err = Kaputt(w, f, what);
    ++r.states; ++r.transitions;
    if (iof::S.hit) r.nontrivial(fnv(r.cur_desc() + fault));
    r.count(!iof::S.hit ? "faults not reached" : err ? "faults reported as errors" : "faults overcome");
    if (err) { VP_CHECK(iof::S.hit, fault, ": an error is reported although nothing failed: ", what); return; }
    auto c = iof::slurp(f);
    VP_CHECK(c == b.content, fault, ": success is reported for a file of ", c.size(), " bytes, the complete file has ", b.content.size(), " bytes", c.size() == b.content.size() ? ", and other contents" : "");
}
static void Faults() {
    auto& r = R(); const bool th = r.thorough();
    static std::map<int, std::vector<Writer>> cache;
    auto writers = [&](int size) -> std::vector<Writer>& { auto& c = cache[size]; if (c.empty()) c = Writers(size); return c; };
    for (int size : SIZES) for (size_t wi = 0; wi < (size < 4 ? 11u : 10u); ++wi) {
        for (int kind = 1; kind <= 6; ++kind) {
            if (!r.take()) continue;
            r.run([=] { return cat("writer ", wi, " size ", size, " fault ", KIND[kind]); }, [=, &r] {
                auto& w = writers(size)[wi]; const std::string f = (*scratch)("w.out");
                auto b = FaultFree(w, f);
                if (kind == 6) {
                    std::set<unsigned long long> caps; const auto n = b.content.size();
                    if (n <= (th ? 20000u : 6000u)) for (size_t i = 0; i <= n; ++i) caps.insert(i);
                    else for (unsigned long long base : {0ull, 80ull, 84ull, 4096ull, 8191ull, 8192ull, 65536ull, 1ull << 20, 2ull << 20, (unsigned long long)n}) for (long long d : {-9, -1, 0, 1, 9}) if ((long long)base + d >= 0 && base + (unsigned long long)d <= n) caps.insert(base + (unsigned long long)d);
                    if (n > 6000) for (int k = 1; k < (th ? 400 : 12); ++k) caps.insert(n * (unsigned)k / (th ? 400 : 12));
                    for (auto c : caps) { iof::arm(); iof::S.kind = iof::capacity; iof::S.cap = c; iof::S.err = ENOSPC; Judge(w, f, b, cat("disk with room for ", c, " bytes")); }
                    return;
                }
                for (int err : {ENOSPC, EIO, EDQUOT, EFBIG}) {
                    if ((kind == 3 || kind == 5) && err != ENOSPC) continue;
                    if (!th && b.content.size() > 500000 && err != ENOSPC && !(err == EIO && kind == 1)) continue;
                    const bool few = b.content.size() > 500000;   // every write of the large files: first, last and some (thorough: more) between
                    for (long k = 0; k < b.writes + 1; ++k) { if (few && k > 6 && k < b.writes - 6 && k % std::max(1L, b.writes / (th ? 60 : 5))) continue; iof::arm(); iof::S.kind = (iof::Kind)kind; iof::S.at = k; iof::S.err = err; Judge(w, f, b, cat(w.name, ": ", KIND[kind], " at write ", k, " error ", err)); }
                }
                // a second, later failure after the first fault was overcome
                if ((kind == 3 || kind == 5) && b.writes <= 12) for (long k = 0; k < b.writes; ++k) for (long q = k + 1; q <= b.writes + 1; ++q) { iof::arm(); iof::S.kind = (iof::Kind)kind; iof::S.at = k; iof::S.at2 = q; iof::S.err2 = EIO; Judge(w, f, b, cat(w.name, ": ", KIND[kind], " at write ", k, " and an error at write ", q)); }
                r.sample(cat(w.name, " ", r.cur_desc(), ": ", b.writes, " writes, ", b.content.size(), " bytes"));
            });
        }
        if (!r.take()) continue;
        r.run([=] { return cat("writer ", wi, " size ", size, " cannot be opened"); }, [=, &r] {
            auto& w = writers(size)[wi]; const std::string f = (*scratch)("w.out");
            auto b = FaultFree(w, f);
            for (int err : {ENOSPC, EACCES, EMFILE, EROFS, EINTR, EIO}) for (long k = 0; k < b.opens; ++k) { iof::arm(); iof::S.openAt = k; iof::S.openErr = err; Judge(w, f, b, cat(w.name, ": open ", k, " fails with ", err)); }
            std::string what; iof::arm();
            ::mkdir((*scratch)("folder").c_str(), 0755);
            for (auto p : {(*scratch)("folder"), (*scratch)("none/w.out"), (*scratch)("w.out/x"), std::string("/dev/full"), std::string("")}) {
                if (p == "/dev/full" && b.content.empty()) continue;
                if (p.find("w.out/x") != std::string::npos) Junk(f);
                ++r.states;
                VP_CHECK(Kaputt(w, p, what), w.name, ": success is reported for the file '", p.rfind("/dev/shm", 0) == 0 || p.rfind("/tmp", 0) == 0 ? p.substr(scratch->dir.size()) : p, "'");
            }
            ::rmdir((*scratch)("folder").c_str());
            r.nontrivial(fnv(r.cur_desc()));
        });
    }
}
// the output of a whole model: several files
static void ModelFaults() {
    auto& r = R(); const bool th = r.thorough();
    for (int which = 0; which < (th ? 8 : 3); ++which) for (int kind = 1; kind <= 7; ++kind) {
        if (!r.take()) continue;
        r.run([=] { return cat("model ", which, " ", kind < 7 ? KIND[kind] : "open fails"); }, [=, &r] {
            iof::Scratch::clear(scratch->dir);
            Cfg c = ModelCfg(which % 4, which);
            auto md = voxelMade({0, 1, 2}, {0.25, 1, 2}, {0, 1, 1.75}, which % 2 ? 255 : 139); auto s = md.make();
            std::vector<TriangleMesh> cs; std::vector<Unique<Dict>> sets;
            for (int k = 0; k <= which % 3; ++k) { MeshBuilder b; b.tri({0.1L * k, 0.2L, 0.3L}, {1.9L, 0.4L, 0.2L}, {0.3L, 1.7L, 1.6L}); cs.push_back(std::move(b.m)); }
            auto m = MakeModel(c, s.mesh, cs, sets);
            auto write = [&](std::string& what) { try { iof::Guard g; m.WriteModelToFile(); return false; } catch (const std::exception& e) { what = e.what(); return true; } };
            // times differ between two runs: everything but the digits of the model info has to agree
            auto state = [&] { std::map<std::string, std::string> f; for (auto& e : std::filesystem::directory_iterator(scratch->dir)) { auto t = iof::slurp(e.path().string()); if (e.path().extension() == ".json") { std::string u; for (char ch : t) if (!std::isdigit((unsigned char)ch) && ch != '.' && ch != 'e' && ch != '-' && ch != '+') u += ch; t = u; } f[e.path().filename().string()] = t; } return f; };
            iof::arm(); std::string what;
            VP_CHECK(!write(what), "fails without a fault: ", what);
            const auto ok = state(); const long writes = iof::S.writes, opens = iof::S.opens; const auto bytes = iof::S.bytes;
            VP_CHECK(opens >= 4 && writes >= 4, "the harness does not see the files being written");
            auto judge = [&](const std::string& fault) {
                const bool err = write(what); ++r.states; ++r.transitions;
                if (iof::S.hit) r.nontrivial(fnv(r.cur_desc() + fault));
                r.count(!iof::S.hit ? "faults not reached" : err ? "faults reported as errors" : "faults overcome");
                if (err) { VP_CHECK(iof::S.hit, fault, ": an error is reported although nothing failed: ", what); return; }
                auto now = state();
                for (auto& [n, t] : ok) VP_CHECK(now.count(n) && now[n] == t, fault, ": success is reported although the file ", n, " is incomplete");
            };
            auto fresh = [&] { for (auto& [n, t] : ok) Junk((*scratch)(n)); iof::arm(); };
            if (kind == 7) for (long k = 0; k < opens; ++k) for (int err : {ENOSPC, EACCES, EMFILE}) { fresh(); iof::S.openAt = k; iof::S.openErr = err; judge(cat("open ", k, " fails with ", err)); }
            else if (kind == 6) for (unsigned long long k = 0; k < bytes; k += (th ? 1 : 7)) { fresh(); iof::S.kind = iof::capacity; iof::S.cap = k; iof::S.err = ENOSPC; judge(cat("disk with room for ", k, " bytes")); }
            else for (int err : {ENOSPC, EIO}) for (long k = 0; k <= writes; ++k) { fresh(); iof::S.kind = (iof::Kind)kind; iof::S.at = k; iof::S.err = err; judge(cat(KIND[kind], " at write ", k, " error ", err)); }
            r.sample(cat(r.cur_desc(), ": ", writes, " writes, ", opens, " files, ", bytes, " bytes"));
        });
    }
}
int main(int argc, char** argv) {
    auto& r = R(); r.init(argc, argv); r.cpu_limit_s = 600;
    ::signal(SIGXFSZ, SIG_IGN); ::signal(SIGPIPE, SIG_IGN);
    iof::Scratch s; scratch = &s;
    auto has = [&](const char* a) { for (auto& x : r.args) if (x == a) return true; return false; };
    if (has("buffer")) Buffer();
    if (has("meshes")) Meshes();
    if (has("grids")) Grids();
    if (has("conditions")) Conditions();
    if (has("models")) Models();
    if (has("faults")) Faults();
    if (has("modelfaults")) ModelFaults();
    return r.finish();
}
