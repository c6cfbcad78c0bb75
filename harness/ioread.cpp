// C16: reading STL files: all layouts of well-formed files, every truncation point, every single-byte and single-line damage, read faults.
#include "vp.hpp"
#include "iofault.hpp"
#include "queso/io/io_utilities.h"
#include "queso/containers/triangle_mesh.hpp"
#include <optional>
using namespace vp;
using namespace queso;
using Tri = std::array<std::array<float, 3>, 3>;
using Tris = std::vector<Tri>;
static iof::Scratch* scratch;
static std::string file() { return (*scratch)("in.stl"); }

static bool near(double a, double b) { return std::abs(a - b) <= 1e-12; }
// Why the mesh does not hold exactly the triangles; empty if it does.
static std::string Differs(const TriangleMesh& m, const Tris& t) {
    if (m.NumOfTriangles() != t.size()) return cat(m.NumOfTriangles(), " triangles instead of ", t.size());
    if (m.Normals().size() != t.size() || m.TriangleIndices().size() != t.size()) return "sizes of the mesh disagree";
    for (IndexType i = 0; i < t.size(); ++i) {
        const auto id = m.TriangleIndices()[i]; double p[3][3];
        for (size_t k = 0; k < 3; ++k) {
            if (id[k] >= m.NumOfVertices()) return cat("triangle ", i, " uses vertex ", id[k], " of ", m.NumOfVertices());
            const auto v = m.Vertices()[id[k]];
            for (size_t d = 0; d < 3; ++d) { p[k][d] = t[i][k][d]; if (!near(v[d], p[k][d])) return cat("vertex ", k, " of triangle ", i, ": ", v[d], " instead of ", p[k][d]); }
        }
        long double a[3], b[3], n[3];
        for (int d = 0; d < 3; ++d) { a[d] = (long double)p[1][d] - p[0][d]; b[d] = (long double)p[2][d] - p[0][d]; }
        for (int d = 0; d < 3; ++d) n[d] = a[(d + 1) % 3] * b[(d + 2) % 3] - a[(d + 2) % 3] * b[(d + 1) % 3];
        const long double l = std::sqrt(n[0] * n[0] + n[1] * n[1] + n[2] * n[2]), s = std::sqrt((a[0] * a[0] + a[1] * a[1] + a[2] * a[2]) * (b[0] * b[0] + b[1] * b[1] + b[2] * b[2]));
        if (l > 1e-4L * s && l > 1e-12L)   // not degenerate
            for (size_t d = 0; d < 3; ++d) if (std::abs(m.Normals()[i][d] - n[d] / l) > 1e-9L) return cat("normal of triangle ", i, ": component ", d, " is ", m.Normals()[i][d], " instead of ", (double)(n[d] / l));
    }
    return "";
}
struct Out { bool thrown = false; std::string what; TriangleMesh mesh; };
static Out Read() {
    Out o;
    o.mesh.AddVertex({7, 7, 7});   // whatever the mesh held before must be gone
    try { IO::ReadMeshFromSTL(o.mesh, file()); } catch (const std::exception& e) { o.thrown = true; o.what = e.what(); }
    return o;
}
// Independent reading of an Ascii file as a sequence of words; lines of solid and endsolid and whatever stands outside of solids are free text.
static std::optional<Tris> Reference(const std::string& s) {
    Tris r; size_t pos = 0; bool in = false;
    struct Word { std::string w; bool first; };
    std::vector<std::vector<std::string>> lines;
    while (pos < s.size()) {
        size_t e = s.find('\n', pos); if (e == std::string::npos) e = s.size();
        std::vector<std::string> L; std::string w;
        for (size_t i = pos; i <= e; ++i) { char c = i < e ? s[i] : ' '; if (std::isspace((unsigned char)c)) { if (!w.empty()) L.push_back(w); w.clear(); } else w += c; }
        if (!L.empty()) lines.push_back(L);
        pos = e + 1;
    }
    if (lines.empty()) return std::nullopt;
    std::vector<std::string> tok;   // words of the facets being read
    for (size_t q = 0; q < lines.size(); ++q) {
        auto& L = lines[q];
        if (tok.empty()) {
            if (L[0].starts_with("solid")) { in = true; continue; }
            if (L[0] == "endsolid") { in = false; continue; }
            if (L[0] != "facet") { if (in) return std::nullopt; continue; }
        }
        if (L[0] != "vertex" && L[0] != "facet") {   // what else stands on the line of a keyword is ignored
            std::string j; for (auto& w : L) j += w + " ";
            for (auto& k : {std::vector<std::string>{"outer", "loop"}, {"endloop"}, {"endfacet"}}) if (j.find(k.size() == 2 ? "outer loop" : k[0]) != std::string::npos) L = k;
        }
        tok.insert(tok.end(), L.begin(), L.end());
        if (tok.back() != "endfacet") continue;
        // facet normal n n n outer loop (vertex x x x)*3 endloop endfacet
        size_t f = 0;
        auto want = [&](const char* w) { return f < tok.size() && tok[f++] == w; };
        Tri t{};
        while (f < tok.size() && tok[f] != "outer") ++f;   // the given normal is not used
        if (!want("outer") || !want("loop")) return std::nullopt;
        for (auto& v : t) { if (!want("vertex")) return std::nullopt; for (auto& x : v) { if (f >= tok.size()) return std::nullopt; char* end; x = std::strtof(tok[f].c_str(), &end); if (*end || !std::isfinite(x)) return std::nullopt; ++f; } }
        if (!want("endloop") || !want("endfacet") || f != tok.size()) return std::nullopt;
        r.push_back(t); tok.clear();
    }
    if (!tok.empty() || in) return std::nullopt;
    return r;
}
static const float POOL[][3] = {{0, 0, 0}, {1, 0, 0}, {0, 1, 0}, {0.5f, 0.25f, 1.5f}, {-3.75f, 1e-3f, 2e4f}, {1.0f / 3, -2.0f / 7, 0.1f}};
static Tri T(int a, int b, int c) { Tri t; int i[3] = {a, b, c}; for (size_t k = 0; k < 3; ++k) for (size_t d = 0; d < 3; ++d) t[k][d] = POOL[i[k]][d]; return t; }
static std::vector<Tris> Meshes() {
    std::vector<Tris> L{{}};
    std::vector<Tri> all; for (int a = 0; a < 6; ++a) for (int b = 0; b < 6; ++b) for (int c = 0; c < 6; ++c) if (a != b && b != c && a != c) all.push_back(T(a, b, c));
    for (auto& t : all) L.push_back({t});
    for (size_t i = 0; i < all.size(); i += 7) for (size_t j = 0; j < all.size(); j += 11) L.push_back({all[i], all[j]});
    for (size_t i = 0; i < all.size(); i += 13) L.push_back({all[i], all[(i * 5 + 3) % all.size()], all[i]});
    L.push_back({T(0, 1, 1), T(0, 1, 2)});   // a degenerate triangle among others
    return L;
}
struct Layout { std::string name, nl = "\n", ind, trail, solid = "solid part", endsolid = "endsolid part"; bool blank = false, lastnl = true, negzero = false; int fmt = 0, split = 0; std::string head, tail, normal = "0 0 1"; };
static std::string num(float v, int fmt) { char b[64]; std::snprintf(b, sizeof b, fmt == 0 ? "%.9g" : fmt == 1 ? "%.9e" : fmt == 2 ? "%+.10E" : "%.12f", (double)v); return b; }
static std::string Ascii(const Tris& t, const Layout& l) {
    std::string s = l.head;
    auto line = [&](int depth, const std::string& w) { for (int i = 0; i < depth; ++i) s += l.ind; s += w + l.trail + l.nl; };
    size_t parts = l.split ? 2 : 1, done = 0;
    for (size_t p = 0; p < parts; ++p) {
        size_t end = p + 1 == parts ? t.size() : std::min<size_t>((size_t)l.split - 1, t.size());
        line(0, l.solid);
        for (; done < end; ++done) {
            line(1, "facet normal " + l.normal); line(2, "outer loop");
            for (auto& v : t[done]) line(3, "vertex " + num(v[0], l.fmt) + (l.fmt == 1 ? "   " : l.fmt == 2 ? "\t" : " ") + num(v[1], l.fmt) + " " + num(v[2], l.fmt));
            line(2, "endloop"); line(1, "endfacet");
            if (l.blank) s += l.nl;
        }
        line(0, l.endsolid);
        if (l.blank) s += l.nl;
    }
    if (!l.lastnl) { while (!s.empty() && (s.back() == '\n' || s.back() == '\r')) s.pop_back(); }
    return s + l.tail;
}
static std::vector<Layout> Layouts() {
    std::vector<Layout> L;
    const std::vector<std::string> names{"solid part", "solid", "solid ", "solid facet normal 1 0 0", "solid endsolid", "solid outer loop", "solid vertex 1 2 3", "solid a\tb  c", "solid " + std::string(700, 'x'), "solid name with solid inside", "solid " + std::string(74, 'z')};
    for (size_t n = 0; n < names.size(); ++n) for (int nl = 0; nl < 2; ++nl) for (int ind = 0; ind < 3; ++ind) for (int tr = 0; tr < 2; ++tr) for (int bl = 0; bl < 2; ++bl) for (int last = 0; last < 2; ++last) for (int fmt = 0; fmt < 3; ++fmt) for (int sp = 0; sp < 3; ++sp) {
        Layout l; l.name = cat("name ", n, " newline ", nl, " indent ", ind, " trail ", tr, " blank ", bl, " last ", last, " format ", fmt, " solids ", sp);
        l.solid = names[n]; l.endsolid = n % 3 == 0 ? "endsolid part" : n % 3 == 1 ? "endsolid" : "endsolid facet normal 0 0 0";
        l.nl = nl ? "\r\n" : "\n"; l.ind = ind == 0 ? "" : ind == 1 ? "  " : "\t"; l.trail = tr ? "  " : ""; l.blank = bl; l.lastnl = !last; l.fmt = fmt; l.split = sp;
        l.normal = n % 2 ? "1.0 0 0" : n % 5 == 0 ? "nan nan nan" : "-0 1e-3 5";
        L.push_back(l);
    }
    return L;
}
static std::string Binary(const Tris& t, const std::string& header, uint16_t attr, int normals = 0) {
    std::string s = header; s.resize(80, normals == 1 ? ' ' : '\0');
    auto put = [&](const auto& v) { s.append(reinterpret_cast<const char*>(&v), sizeof v); };
    put((uint32_t)t.size());
    for (auto& q : t) { float n[3] = {0, 0, normals == 2 ? NAN : 1}; put(n); for (auto& v : q) for (float x : v) put(x); put(attr); }
    return s;
}
static void Good(const std::string& c, const Tris& t, const char* what) {
    iof::spit(file(), c);
    auto o = Read();
    ++R().states; ++R().transitions;
    VP_CHECK(!o.thrown, "a well-formed ", what, " file is rejected: ", o.what);
    auto d = Differs(o.mesh, t); VP_CHECK(d.empty(), what, " file: ", d);
}
// A damaged file: rejected, or the original triangles, or what a well-formed file with this content holds.
static int Damaged(const std::string& c, const Tris& t, bool ascii, const std::function<std::string()>& how) {
    iof::spit(file(), c);
    auto o = Read();
    ++R().states; ++R().transitions;
    if (o.thrown) return 0;
    if (Differs(o.mesh, t).empty()) return 1;
    if (c.substr(0, 512).find('\0') != std::string::npos || !c.starts_with("solid")) {   // what this is as a binary file
        uint32_t n = 0; if (c.size() >= 84) std::memcpy(&n, &c[80], 4);
        if (c.size() >= 84 && c.size() - 84 >= 50ULL * n && c.size() - 84 - 50ULL * n < 50) {
            Tris b(n); for (uint32_t i = 0; i < n; ++i) std::memcpy(&b[i], &c[84 + 50ULL * i + 12], 36);
            if (Differs(o.mesh, b).empty()) return 2;
        }
    }
    if (ascii) { auto ref = Reference(c); if (ref && Differs(o.mesh, *ref).empty()) return 2; }
    VP_CHECK(false, how(), ": read as a different mesh (", Differs(o.mesh, t), "): ", c.substr(0, 400));
    return 3;
}
static void WellFormed() {
    auto& r = R();
    const auto M = Meshes(); const auto L = Layouts();
    // every layout with a few meshes, every mesh with a few layouts
    for (size_t i = 0; i < L.size(); i += 8) {
        if (!r.take()) continue;
        r.run([&] { return cat("Ascii layouts from ", L[i].name); }, [&] {
            for (size_t l = i; l < std::min(L.size(), i + 8); ++l) for (size_t m : {(size_t)0, (size_t)1, (size_t)37, M.size() - 1, M.size() - 3, (size_t)200}) Good(Ascii(M[m], L[l]), M[m], "Ascii");
            r.nontrivial(fnv(L[i].name));
        });
    }
    for (size_t m = 0; m < M.size(); m += 4) {
        if (!r.take()) continue;
        r.run([=] { return cat("meshes from ", m); }, [&] {
            for (size_t k = m; k < std::min(M.size(), m + 4); ++k) {
                for (size_t l = k % 7; l < L.size(); l += r.thorough() ? 41 : 397) Good(Ascii(M[k], L[l]), M[k], "Ascii");
                for (auto h : {"", "solid", "binary"}) for (int n = 0; n < 3; ++n) Good(Binary(M[k], h, (uint16_t)(n * 777), n), M[k], "binary");
            }
            r.nontrivial(fnv(cat("m", m)));
        });
    }
    // headers of binary files
    std::vector<std::string> H{"solid", "solid part\n", "solid\nfacet normal 0 0 1\nouter loop\nvertex 0 0 0", "solid a\n  facet normal 0 0 0", "facet normal", "\nsolid", "SOLID", " solid", "endsolid", "solid endsolid\n", std::string("sol\0id", 6), std::string("\0solid", 6),
                               std::string(80, '\xff'), std::string(80, '\n'), std::string(80, ' '), std::string(80, 'a'), "solid" + std::string(75, ' '), "solid" + std::string(75, '\n'), "solid" + std::string(75, 'x'), "solid\nfacet\nouter loop\nvertex 1 2 3\nvertex 1 2 3\nvertex 1 2 3\nendloop\nendfacet\n"};
    for (int b = 0; b < 256; ++b) { H.push_back(std::string(1, (char)b)); H.push_back("solid" + std::string(1, (char)b)); H.push_back("solid x" + std::string(40, (char)b) + "facet normal"); }
    for (size_t h = 0; h < H.size(); h += 16) {
        if (!r.take()) continue;
        r.run([&] { return cat("binary headers from ", h, ": ", jesc(H[h])); }, [&] {
            for (size_t q = h; q < std::min(H.size(), h + 16); ++q) for (size_t m : {(size_t)0, (size_t)1, (size_t)50, M.size() - 1, M.size() - 2}) for (uint16_t a : {0, 1, 0x2020, 0xffff}) for (int n = 0; n < 3; ++n) Good(Binary(M[m], H[q], a, n), M[m], "binary");
            r.nontrivial(fnv(cat("h", h)));
        });
    }
    // larger files: vertices shared by many triangles, several read buffers, more vertices than 16 bits can number
    for (int n : {15, 16, 33, 60, 260}) for (int how = 0; how < 4; ++how) {
        if (!r.take()) continue;
        r.run([=] { return cat("sheet of ", n * n * 2, " triangles, ", how < 2 ? "Ascii" : "binary"); }, [&] {
            Tris t;
            auto v = [&](int i, int j) { return std::array<float, 3>{(float)i / 3, (float)j * 0.7f, (float)(i * j % 5) * 1e-3f}; };
            for (int j = 0; j < n; ++j) for (int i = 0; i < n; ++i) { t.push_back({v(i, j), v(i + 1, j), v(i + 1, j + 1)}); t.push_back({v(i, j), v(i + 1, j + 1), v(i, j + 1)}); }
            Layout l; l.nl = how ? "\r\n" : "\n"; l.split = how ? 100 : 0; l.ind = " ";
            std::string c = how < 2 ? Ascii(t, l) : Binary(t, how == 2 ? "" : "solid x", 0);
            Good(c, t, how < 2 ? "Ascii" : "binary");
            iof::spit(file(), c); auto o = Read();
            VP_CHECK(o.mesh.NumOfVertices() == (size_t)((n + 1) * (n + 1)), o.mesh.NumOfVertices(), " vertices instead of ", (n + 1) * (n + 1));
            r.nontrivial(fnv(cat("sheet", n, how)));
        });
    }
}
static std::vector<std::pair<std::string, Tris>> Originals(bool small) {
    const auto M = Meshes(); std::vector<std::pair<std::string, Tris>> L;
    Layout a; Layout b; b.nl = "\r\n"; b.ind = "  "; b.blank = true; b.lastnl = false; b.fmt = 1; Layout c; c.split = 2; c.solid = "solid facet normal 0 0 1"; c.endsolid = "endsolid"; Layout d; d.solid = "solid"; d.endsolid = "endsolid"; d.ind = "\t"; d.trail = " "; d.split = 1;
    for (auto& l : {a, b, c, d}) { for (size_t m : {(size_t)1, M.size() - 1, M.size() - 3}) { L.push_back({Ascii(M[m], l), M[m]}); if (small) break; } }
    return L;
}
static void Truncated() {
    auto& r = R();
    auto A = Originals(false);
    for (size_t a = 0; a < A.size(); ++a) {
        if (!r.take()) continue;
        r.run([=] { return cat("every beginning of Ascii file ", a); }, [&] {
            auto& [c, t] = A[a];
            for (size_t n = 0; n < c.size(); ++n) r.count(cat("truncated Ascii files: ", std::array<const char*, 3>{"rejected", "original mesh", "well-formed part"}[(size_t)Damaged(c.substr(0, n), t, true, [=] { return cat("the first ", n, " bytes"); })]));
            r.nontrivial(fnv(cat("t", a)));
        });
    }
    const auto M = Meshes();
    const std::string heads[] = {"", "solid\nfacet normal 0 0 1\n", std::string(80, 'q')};
    for (size_t m : {(size_t)0, (size_t)1, (size_t)50, M.size() - 1, M.size() - 2}) for (size_t h = 0; h < 3; ++h) {
        if (!r.take()) continue;
        r.run([=] { return cat("every beginning of binary file ", m, " header ", h, ", bytes appended, counts"); }, [&] {
            auto c = Binary(M[m], heads[h], 0);
            for (size_t n = 0; n < c.size(); ++n) { int k = Damaged(c.substr(0, n), M[m], false, [=] { return cat("the first ", n, " bytes"); }); VP_CHECK(k == 0, "the first ", n, " of ", c.size(), " bytes are read as the whole mesh"); }
            for (size_t n = 1; n <= 160; ++n) for (char ch : {'\0', 'x'}) { int k = Damaged(c + std::string(n, ch), M[m], false, [=] { return cat(n, " bytes appended"); }); if (n >= 50) VP_CHECK(k == 0, n, " bytes appended: the additional triangles are not noticed"); }
            for (uint32_t n = 0; n < 2000; ++n) { if (n == M[m].size()) continue; auto d = c; std::memcpy(&d[80], &n, 4); int k = Damaged(d, M[m], false, [=] { return cat("count ", n); }); VP_CHECK(k == 0, "count ", n, " instead of ", M[m].size(), " is accepted"); }
            for (int s = 11; s < 32; ++s) for (int o : {-1, 0, 1}) { auto d = c; uint32_t n = (uint32_t)((1LL << s) + o); std::memcpy(&d[80], &n, 4); VP_CHECK(Damaged(d, M[m], false, [=] { return cat("count ", n); }) == 0, "count ", n, " is accepted"); }
            r.nontrivial(fnv(cat("b", m, h)));
        });
    }
}
static void Bytes() {
    auto& r = R();
    auto A = Originals(!r.thorough());
    std::string by; for (int b = 0; b < 256; ++b) if (r.thorough() || b < 0x30 || b >= 0x7d || std::strchr("059:;Eaefnilstvx", b)) if (r.thorough() || b < 0x82 || b > 0xfc) by += (char)b;
    for (size_t a = 0; a < A.size(); ++a) for (size_t p = 0; p < A[a].first.size(); ++p) {
        if (!r.take()) continue;
        r.run([=] { return cat("Ascii file ", a, ": every replacement, removal and insertion of byte ", p); }, [&] {
            auto& [c, t] = A[a];
            auto kind = [&](int k) { r.count(cat("damaged Ascii files: ", std::array<const char*, 3>{"rejected", "original mesh", "other well-formed file"}[(size_t)k])); };
            for (char ch : by) if (ch != c[p]) {
                auto d = c; d[p] = ch; kind(Damaged(d, t, true, [=] { return cat("byte ", p, " replaced by ", (int)(unsigned char)ch); }));
                d = c; d.insert(p, 1, ch); kind(Damaged(d, t, true, [=] { return cat("byte ", (int)(unsigned char)ch, " inserted at ", p); }));
            }
            auto d = c; d.erase(p, 1); kind(Damaged(d, t, true, [=] { return cat("byte ", p, " removed"); }));
            for (size_t n : {2, 3, 5, 8, 16, 40, 100, 300}) if (p + n <= c.size()) {
                d = c; d.erase(p, n); Damaged(d, t, true, [=] { return cat(n, " bytes removed at ", p); });
                d = c; for (size_t q = 0; q < n; ++q) d[p + q] = '\0'; Damaged(d, t, true, [=] { return cat(n, " bytes zeroed at ", p); });
                d = c; d.insert(p, c.substr(p, n)); Damaged(d, t, true, [=] { return cat(n, " bytes repeated at ", p); });
            }
            r.nontrivial(fnv(cat("y", a, p)));
        });
    }
    // lines removed, repeated, exchanged
    auto B = Originals(false);
    for (size_t a = 0; a < B.size(); ++a) {
        if (!r.take()) continue;
        r.run([=] { return cat("Ascii file ", a, ": lines removed, repeated, exchanged"); }, [&] {
            auto& [c, t] = B[a];
            std::vector<std::string> L; size_t pos = 0;
            while (pos < c.size()) { size_t e = c.find('\n', pos); e = e == std::string::npos ? c.size() : e + 1; L.push_back(c.substr(pos, e - pos)); pos = e; }
            auto join = [](const std::vector<std::string>& v) { std::string s; for (auto& x : v) s += x; return s; };
            for (size_t i = 0; i < L.size(); ++i) for (size_t k = 1; i + k <= L.size(); ++k) { auto d = L; d.erase(d.begin() + (long)i, d.begin() + (long)(i + k)); Damaged(join(d), t, true, [=] { return cat(k, " lines removed at ", i); }); }
            for (size_t i = 0; i < L.size(); ++i) { auto d = L; d.insert(d.begin() + (long)i, L[i]); Damaged(join(d), t, true, [=] { return cat("line ", i, " repeated"); }); }
            for (size_t i = 0; i < L.size(); ++i) for (size_t j = i + 1; j < L.size(); ++j) { auto d = L; std::swap(d[i], d[j]); Damaged(join(d), t, true, [=] { return cat("lines ", i, " and ", j, " exchanged"); });
                d = L; d.erase(d.begin() + (long)j); d.erase(d.begin() + (long)i); Damaged(join(d), t, true, [=] { return cat("lines ", i, " and ", j, " removed"); }); }
            r.nontrivial(fnv(cat("l", a)));
        });
    }
    // binary: every byte; damage of coordinates gives other coordinates, everything else must not matter or be rejected
    const auto M = Meshes();
    for (size_t m : {(size_t)0, (size_t)1, (size_t)50, M.size() - 2}) for (size_t h = 0; h < 2; ++h) {
        auto c = Binary(M[m], h ? "solid x" : "", 0);
        for (size_t p = 0; p < c.size(); p += 10) {
            if (!r.take()) continue;
            r.run([=] { return cat("binary file ", m, ",", h, ": every value of bytes from ", p); }, [&] {
                for (size_t q = p; q < std::min(c.size(), p + 10); ++q) for (int b = 0; b < 256; ++b) {
                    auto d = c; if (d[q] == (char)b) continue; d[q] = (char)b;
                    Tris t = M[m]; size_t o = q < 84 ? 0 : (q - 84) % 50; const size_t ti = q < 84 ? 0 : (q - 84) / 50;
                    const bool coord = q >= 84 && o >= 12 && o < 48; bool finite = true;
                    if (coord) { float f; std::memcpy(&f, &d[84 + ti * 50 + (o / 4) * 4], 4); t[ti][(o - 12) / 12][(o - 12) % 12 / 4] = f; finite = std::isfinite(f); }
                    iof::spit(file(), d); auto out = Read(); ++r.states; ++r.transitions;
                    if (q >= 80 && q < 84) VP_CHECK(out.thrown, "count changed in byte ", q, ": accepted");
                    else if (!finite) VP_CHECK(out.thrown, "coordinate that is not finite: accepted");
                    else { VP_CHECK(!out.thrown, "byte ", q, "=", b, ": a well-formed binary file is rejected: ", out.what); auto df = Differs(out.mesh, t); if (!coord || df.find("normal") == std::string::npos) VP_CHECK(df.empty(), "byte ", q, "=", b, ": ", df); }
                }
                r.nontrivial(fnv(cat("bb", m, h, p)));
            });
        }
    }
    // not a readable file
    if (r.take()) r.run([] { return "files that cannot be read"; }, [&] {
        TriangleMesh m; auto no = [&](const std::string& p) { bool th = false; try { IO::ReadMeshFromSTL(m, p); } catch (const std::exception&) { th = true; } VP_CHECK(th, p, " accepted"); };
        no((*scratch)("missing.stl")); no(scratch->dir); no((*scratch)("a/b.stl")); iof::spit(file(), ""); no(file()); no(""); no("/dev/null");
        r.nontrivial(fnv("missing"));
    });
}
// Reads that return few bytes give the same mesh; a read that fails is reported or gives the same mesh.
static void Faults() {
    auto& r = R();
    const auto M = Meshes();
    std::vector<std::pair<std::string, Tris>> F = Originals(false);
    for (size_t m : {(size_t)1, M.size() - 1, M.size() - 2}) { F.push_back({Binary(M[m], "", 0), M[m]}); F.push_back({Binary(M[m], "solid\nx", 0), M[m]}); }
    for (size_t f = 0; f < F.size(); ++f) for (long max : {1L, 2L, 7L, 64L, 8191L}) {
        if (!r.take()) continue;
        r.run([=] { return cat("file ", f, ", reads of ", max, " bytes, every read failing"); }, [&] {
            auto& [c, t] = F[f];
            iof::spit(file(), c);
            iof::arm(); iof::S.readMax = max;
            long n;
            { iof::Guard g; auto o = Read(); n = iof::S.reads; VP_CHECK(!o.thrown, "short reads: ", o.what); auto d = Differs(o.mesh, t); VP_CHECK(d.empty(), "short reads: ", d); }
            VP_CHECK(n > 0, "no read seen");
            for (long k = 0; k < n; ++k) for (int e : {EIO, EINTR}) {
                iof::arm(); iof::S.readMax = max; iof::S.readAt = k; iof::S.readErr = e;
                Out o; { iof::Guard g; o = Read(); }
                ++r.states; ++r.transitions;
                if (!o.thrown) { auto d = Differs(o.mesh, t); VP_CHECK(d.empty(), "read ", k, " of ", n, " fails (", e == EIO ? "EIO" : "EINTR", "): ", d); r.count("failed reads without consequence"); } else r.count("failed reads reported");
            }
            for (long k : {0L, 1L}) { iof::arm(); iof::S.openAt = k; iof::S.openErr = EMFILE; Out o; { iof::Guard g; o = Read(); } VP_CHECK(o.thrown || !iof::S.hit, "open ", k, " fails: accepted"); }
            r.nontrivial(fnv(cat("f", f, max)));
        });
    }
}
int main(int argc, char** argv) {
    auto& r = R(); r.init(argc, argv);
    iof::Scratch s; scratch = &s;
    auto has = [&](const char* a) { return std::find(r.args.begin(), r.args.end(), a) != r.args.end(); };
    if (has("wellformed")) WellFormed(); else if (has("truncated")) Truncated(); else if (has("damaged")) Bytes(); else Faults();
    return r.finish();
}
