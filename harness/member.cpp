// C15 (global query): point membership for every answer of the random source in an adversarial set of directions.
#include "vp.hpp"
#include "families.hpp"
#include "queso/embedding/brep_operator.h"
using namespace vp;
using namespace queso;

// answers: a script of directions (3 fractions each), then the last element is repeated `rep` times, then generic ones
static std::vector<std::array<double, 3>> g_script;
static size_t g_pos, g_hold;    // draws so far; how many rays the last scripted direction is held
static double Source() {
    static const double generic[8][3] = {{0.1234567, 0.7310585, 0.4482103}, {0.9012345, 0.2718281, 0.5772156}, {0.3678794, 0.6180339, 0.0714285},
                                         {0.4142135, 0.0836421, 0.8862269}, {0.6931471, 0.5432109, 0.1592653}, {0.2360679, 0.9640275, 0.3010299},
                                         {0.7853981, 0.1415926, 0.6457513}, {0.0524989, 0.8414709, 0.9193953}};
    size_t ray = g_pos / 3, c = g_pos % 3; ++g_pos;
    if (ray < g_script.size()) return g_script[ray][c];
    if (!g_script.empty() && ray < g_script.size() + g_hold) return g_script.back()[c];
    return generic[ray % 8][c];
}

static void Check(const Solid& s, const std::vector<P3>& pts, ld tol, bool th) {
    auto& r = R();
    BRepOperator op(s.mesh);
    std::set<std::array<double, 3>> seen;
    std::vector<P3> targets;
    for (auto& t : s.mesh.TriangleIndices()) {
        P3 a = p3(s.mesh.Vertex(t[0])), b = p3(s.mesh.Vertex(t[1])), c = p3(s.mesh.Vertex(t[2]));
        for (P3 q : {a, b, c, 0.5L * (a + b), 0.5L * (b + c), 0.5L * (c + a), (1 / 3.0L) * (a + b + c), 0.25L * a + 0.75L * b, a + (1.0L / 3) * (b - a)})
            if (seen.insert({(double)q.x, (double)q.y, (double)q.z}).second) targets.push_back(q);
    }
    static const double F[5] = {0, 0.25, 0.5, 0.75, 1 - 0x1p-53};
    bool in = false, out = false; long long aimed = 0;
    int used = 0;
    for (auto& p : pts) {
        if (s.surfaceDistance(p) < tol) continue;
        const bool want = s.inside(p);
        (want ? in : out) = true;
        auto ask = [&](const char* what) {
            g_pos = 0;
            bool got = op.IsInside(pt(p));
            ++r.transitions;
            if (got != want) {
                std::string m = cat("point (", (double)p.x, ",", (double)p.y, ",", (double)p.z, ") is ", want ? "inside" : "outside", " but reported ", got ? "inside" : "outside", "; ", what, " directions");
                for (auto& d : g_script) m += " " + str(d);
                r.fail(m);
            }
        };
        ++r.states;
        std::vector<std::array<double, 3>> dirs;
        for (auto& q : targets) {
            P3 d = q - p; ld mx = std::max({d.x, d.y, d.z}), mn = std::min({d.x, d.y, d.z});
            if (mn <= 0 || mx > 3 * mn) continue;
            // scale into [0.5,1.5)^3, at two lengths
            ld lo = 0.5L / mn, hi = 1.5L / mx;
            ld k = lo + 0.999L * (hi - lo);
            dirs.push_back({(double)(k * d.x - 0.5L), (double)(k * d.y - 0.5L), (double)(k * d.z - 0.5L)});
            ++aimed;
        }
        size_t na = dirs.size();
        for (double x : F) for (double y : F) for (double z : F) dirs.push_back({x, y, z});
        for (size_t i = 0; i < dirs.size(); ++i) {
            for (auto& c : dirs[i]) c = std::min(std::max(c, 0.0), 1 - 0x1p-53);
            g_script = {dirs[i]}; g_hold = 50;
            ask(i < na ? "aimed" : "lattice");
        }
        // all short mixed sequences of critical and generic answers
        if (used++ < (th ? 20 : 3)) {
            std::vector<std::array<double, 3>> alpha{{0.5, 0.5, 0.5}, {0.37, 0.81, 0.11}, {0, 0, 1 - 0x1p-53}};
            if (na) alpha.push_back(dirs[0]);
            if (na > 1) alpha.push_back(dirs[na / 2]);
            size_t L = th ? 5 : 4, tot = 1;
            for (size_t i = 0; i < L; ++i) tot *= alpha.size();
            for (size_t q = 0; q < tot; ++q) {
                g_script.clear(); g_hold = 0;
                size_t x = q;
                for (size_t i = 0; i < L; ++i) { g_script.push_back(alpha[x % alpha.size()]); x /= alpha.size(); }
                ask("sequence of");
            }
        }
    }
    r.count("aimed directions", aimed);
    if (in && out && aimed) { r.nontrivial(fnv(r.cur_desc())); r.sample(r.cur_desc()); }
}

int main(int argc, char** argv) {
    auto& r = R(); r.init(argc, argv);
    vp_rnd::source = &Source;
    const bool th = r.thorough();
    auto lattice = [](std::vector<ld> c) { std::vector<P3> p; for (ld x : c) for (ld y : c) for (ld z : c) p.push_back({x, y, z}); return p; };
    auto P1 = lattice({0.25L, 0.5L, 1.0L, 1.5L, 1.81L});
    auto P2_ = lattice({-0.25L, 0.37L, 0.75L, 1.25L});
    auto add = [](std::vector<P3> a, const std::vector<P3>& b) { a.insert(a.end(), b.begin(), b.end()); return a; };
    auto PA = th ? add(add(P1, P2_), lattice({0.125L, 0.625L, 1.0L, 1.75L, 2.1L})) : P1;
    auto PB = th ? PA : P2_;
    auto go = [&](const Made& m, ld sc, P3 off, const std::vector<P3>& pts, const std::string& tag) {
        if (!r.take()) return;
        r.run([=] { return cat(m.name, " scale ", (double)sc, " offset ", (double)off.x, tag); }, [&] {
            Solid s = m.make();
            if (sc != 1 || off.x != 0) s = transformed(s, sc, off);
            std::vector<P3> q;
            for (auto& p : pts) q.push_back(p3(pt(sc * p + off)));
            Check(s, q, 1e-6L * sc, th);
        });
    };
    for (uint64_t m = 1; m < 256; ++m) {
        go(voxelMade({0, 1, 2}, {0, 1, 2}, {0, 1, 2}, m), 1, {}, PA, " A");
        if (th || m % 3 == 0) go(voxelMade({0, 1, 2}, {0, 1, 2}, {0, 1, 2}, m), 1e-3L, {-0.0037L, 0.01L, 0.002L}, PB, " B");
        if (th || m % 3 == 1) go(voxelMade({0, 1, 2}, {0, 1, 2}, {0, 1, 2}, m), 250, {-925, 40, 13}, PB, " B");
        if (th || m % 3 == 2) go(voxelMade({0.1, 0.9, 2.05}, {0.1, 0.9, 2.05}, {0.1, 0.9, 2.05}, m), 1, {}, PB, " B");
    }
    latticeTets([&](size_t no, const Made& m) { if (th || no % 8 == 0) go(m, 1, {}, no % 16 ? PA : PB, ""); });
    for (size_t k = 4; k <= (th ? 6u : 5u); ++k) latticePrisms(k, [&](size_t no, const Made& m) { if (th || k == 4 || no % 4 == 0) go(m, 1, {}, no % 2 ? PA : PB, ""); });
    for (uint64_t h = 0; h < (th ? 512u : 64u); h += (th ? 1 : 3)) {
        uint64_t m = cavityMask(h);
        go(voxelMade({0, 1, 2, 3}, {0, 1, 2, 3}, {0, 1, 2, 3}, m), 1, {}, add(lattice({0.5L, 1.5L, 2.5L}), lattice({0.25L, 1.25L, 2.125L})), "");
    }
    // small facets: triangle edges of 1e-5 and below make the parallel test of the ray depend on the facet size
    for (ld sc : {1e-5L, 3e-6L}) for (uint64_t m = 1; m < 256; m += th ? 1 : 16) go(voxelMade({0, 1, 2}, {0, 1, 2}, {0, 1, 2}, m), sc, {}, PB, " small");
    for (ld sc : {1e-5L, 3e-6L}) latticeTets([&](size_t no, const Made& m) { if (no % (th ? 16 : 256) == 0) go(m, sc, {}, PB, " small"); });
    return r.finish();
}
