// C19: all histories of dictionary operations against a map model. C21: the full cross product of settings against the rules of feasibility.
#include "vp.hpp"
#include "settings.hpp"
#include "queso/embedded_model.h"
#include <sys/wait.h>
using namespace vp;
using namespace queso;
using SA = DictionaryStringAccess<Dict>;
enum Type { tPoint, tVec, tBool, tDouble, tIndex, tString, tMethod, tGrid };
static const char* TNAME[] = {"PointType", "Vector3i", "bool", "double", "IndexType", "string", "IntegrationMethod", "GridType"};
using Val = std::variant<PointType, Vector3i, bool, double, IndexType, std::string, IntegrationMethod, GridType>;
static const int NV = 3;
static const Val& value(int type, int v) {
    static const std::vector<std::array<Val, 3>> V{
        {PointType{0, 0, 0}, PointType{1, 2, 3}, PointType{-0.1, 1e300, 0.3}}, {Vector3i{0, 0, 0}, Vector3i{1, 2, 3}, Vector3i{7, (IndexType{1} << 53) + 1, 4}}, {false, true, true},
        {0.0, 5.0, -1.0 / 3}, {IndexType{0}, IndexType{5}, (IndexType{1} << 60) + 1}, {std::string(), std::string("5"), std::string(300, 'x')},
        {IntegrationMethod::gauss, IntegrationMethod::ggq_reduced_2, IntegrationMethod::gauss_reduced_1}, {GridType::b_spline_grid, GridType::hexahedral_fe_grid, GridType::hexahedral_fe_grid}};
    return V[(size_t)type][(size_t)v];
}
struct Key {
    std::string name; int type; bool required;
    std::function<void(Dict&, int)> set;
    std::function<std::optional<Val>(const Dict&)> get;   // required keys: only after CheckRequired
    std::function<bool(const Dict&)> isSet;
    std::function<void(Dict&)> setWrong;
};
template <class T, bool Req, class K> Key MakeKey(const K& k, int type) {
    Key r; r.name = std::string(k.Name()); r.type = type; r.required = Req;
    r.set = [&k, type](Dict& d, int v) { d.SetValue(k, std::get<T>(value(type, v))); };
    r.get = [&k](const Dict& d) -> std::optional<Val> {
        if constexpr (Req) return Val(d.GetRequiredValue<T>(k));
        else { auto o = d.TryGetValue<T>(k); if (!o) return std::nullopt; return Val(o->get()); }
    };
    r.isSet = [&k](const Dict& d) { return d.IsSet(k); };
    return r;
}
struct DictSpec { std::string name; std::function<Unique<Dict>()> root; std::function<Dict&(Dict&)> at; std::vector<Key> keys; };
#define RK(S, K, T, t) MakeKey<T, true>(S::K, t)
#define OK(S, K, T, t) MakeKey<T, false>(S::K, t)
static Unique<Dict> Make(const char* n) { return DictionaryFactory<key::MainValuesTypeTag>::Create(n); }
static std::vector<DictSpec> Specs() {
    auto st = [] { return Make("Settings"); }; auto in = [] { return Make("ModelInfo"); };
    return {
        {"general settings", st, [](Dict& d) -> Dict& { return d[MainSettings::general_settings]; },
         {RK(GeneralSettings, input_filename, std::string, tString), RK(GeneralSettings, output_directory_name, std::string, tString), RK(GeneralSettings, echo_level, IndexType, tIndex), RK(GeneralSettings, write_output_to_file, bool, tBool)}},
        {"grid settings", st, [](Dict& d) -> Dict& { return d[MainSettings::background_grid_settings]; },
         {RK(BackgroundGridSettings, grid_type, GridType, tGrid), RK(BackgroundGridSettings, lower_bound_xyz, PointType, tPoint), RK(BackgroundGridSettings, upper_bound_xyz, PointType, tPoint), RK(BackgroundGridSettings, lower_bound_uvw, PointType, tPoint), RK(BackgroundGridSettings, upper_bound_uvw, PointType, tPoint), RK(BackgroundGridSettings, polynomial_order, Vector3i, tVec), RK(BackgroundGridSettings, number_of_elements, Vector3i, tVec)}},
        {"cut quadrature settings", st, [](Dict& d) -> Dict& { return d[MainSettings::trimmed_quadrature_rule_settings]; },
         {RK(TrimmedQuadratureRuleSettings, moment_fitting_residual, double, tDouble), RK(TrimmedQuadratureRuleSettings, min_element_volume_ratio, double, tDouble), RK(TrimmedQuadratureRuleSettings, min_num_boundary_triangles, IndexType, tIndex), RK(TrimmedQuadratureRuleSettings, neglect_elements_if_stl_is_flawed, bool, tBool), OK(TrimmedQuadratureRuleSettings, activate_fictitious_domain_with_alpha, double, tDouble)}},
        {"full quadrature settings", st, [](Dict& d) -> Dict& { return d[MainSettings::non_trimmed_quadrature_rule_settings]; },
         {RK(NonTrimmedQuadratureRuleSettings, integration_method, IntegrationMethod, tMethod)}},
        {"condition settings", [] { return Make("ConditionSettings"); }, [](Dict& d) -> Dict& { return d; },
         {RK(ConditionSettings, condition_id, IndexType, tIndex), OK(ConditionSettings, condition_type, std::string, tString), RK(ConditionSettings, input_filename, std::string, tString), OK(ConditionSettings, modulus, double, tDouble), OK(ConditionSettings, direction, PointType, tPoint), OK(ConditionSettings, value, PointType, tPoint), OK(ConditionSettings, penalty_factor, double, tDouble)}},
        {"geometry info", in, [](Dict& d) -> Dict& { return d[MainInfo::embedded_geometry_info]; }, {RK(EmbeddedGeometryInfo, is_closed, bool, tBool), RK(EmbeddedGeometryInfo, volume, double, tDouble)}},
        {"quadrature info", in, [](Dict& d) -> Dict& { return d[MainInfo::quadrature_info]; },
         {RK(QuadratureInfo, represented_volume, double, tDouble), RK(QuadratureInfo, percentage_of_geometry_volume, double, tDouble), RK(QuadratureInfo, tot_num_points, IndexType, tIndex), RK(QuadratureInfo, num_of_points_per_full_element, double, tDouble), RK(QuadratureInfo, num_of_points_per_trimmed_element, double, tDouble)}},
        {"grid info", in, [](Dict& d) -> Dict& { return d[MainInfo::background_grid_info]; },
         {RK(BackgroundGridInfo, num_active_elements, IndexType, tIndex), RK(BackgroundGridInfo, num_trimmed_elements, IndexType, tIndex), RK(BackgroundGridInfo, num_full_elements, IndexType, tIndex), RK(BackgroundGridInfo, num_inactive_elements, IndexType, tIndex)}},
        {"condition info", [] { return Make("ConditionInfo"); }, [](Dict& d) -> Dict& { return d; }, {RK(ConditionInfo, condition_id, IndexType, tIndex), RK(ConditionInfo, surf_area, double, tDouble), RK(ConditionInfo, perc_surf_area_in_active_domain, double, tDouble)}},
        {"volume times", in, [](Dict& d) -> Dict& { return d[MainInfo::elapsed_time_info][ElapsedTimeInfo::volume_time_info]; },
         {RK(VolumeTimeInfo, total, double, tDouble), RK(VolumeTimeInfo, classification_of_elements, double, tDouble), RK(VolumeTimeInfo, computation_of_intersections, double, tDouble), RK(VolumeTimeInfo, solution_of_moment_fitting_eqs, double, tDouble), RK(VolumeTimeInfo, construction_of_ggq_rules, double, tDouble)}},
        {"condition times", in, [](Dict& d) -> Dict& { return d[MainInfo::elapsed_time_info][ElapsedTimeInfo::conditions_time_info]; }, {RK(ConditionsTimeInfo, total, double, tDouble)}},
        {"write times", in, [](Dict& d) -> Dict& { return d[MainInfo::elapsed_time_info][ElapsedTimeInfo::write_files_time_info]; }, {RK(WriteFilesTimeInfo, total, double, tDouble)}},
        {"times", in, [](Dict& d) -> Dict& { return d[MainInfo::elapsed_time_info]; }, {RK(ElapsedTimeInfo, total, double, tDouble)}},
    };
}
template <class F> static bool throws(F f) { try { f(); return false; } catch (const std::exception&) { return true; } }
static bool same(const Val& a, const Val& b) {
    if (a.index() != b.index()) return false;
    if (a.index() == tDouble) { double x = std::get<double>(a), y = std::get<double>(b); return std::memcmp(&x, &y, 8) == 0; }
    if (a.index() == tPoint) { for (size_t d = 0; d < 3; ++d) if (std::get<PointType>(a)[d] != std::get<PointType>(b)[d]) return false; return true; }
    return a == b;
}
static std::optional<Val> byName(const Dict& d, const std::string& n, int type) {
    try {
        switch (type) {
        case tPoint: return Val(SA::GetValue<PointType>(d, n)); case tVec: return Val(SA::GetValue<Vector3i>(d, n)); case tBool: return Val(SA::GetValue<bool>(d, n)); case tDouble: return Val(SA::GetValue<double>(d, n));
        case tIndex: return Val(SA::GetValue<IndexType>(d, n)); case tString: return Val(SA::GetValue<std::string>(d, n)); case tMethod: return Val(SA::GetValue<IntegrationMethod>(d, n)); default: return Val(SA::GetValue<GridType>(d, n));
        }
    } catch (const std::exception&) { return std::nullopt; }
}
using State = std::vector<std::optional<Val>>;
struct World {
    const DictSpec& s; Unique<Dict> root; State m; bool checked = false;
    explicit World(const DictSpec& q) : s(q), root(q.root()), m(q.keys.size()) { for (size_t k = 0; k < m.size(); ++k) m[k] = byName(D(), s.keys[k].name, s.keys[k].type); }
    Dict& D() { return s.at(*root); }
    // what every reading operation has to give
    void look(bool full, const std::string& after) {
        Dict& d = D();
        for (size_t k = 0; k < m.size(); ++k) {
            auto& K = s.keys[k];
            VP_CHECK(K.isSet(d) == m[k].has_value() && SA::IsSet(d, K.name) == m[k].has_value(), after, ": '", K.name, "' is ", m[k] ? "not " : "", "set");
            if (m[k]) { auto g = byName(d, K.name, K.type); VP_CHECK(g && same(*g, *m[k]), after, ": '", K.name, "' by name is not the last value stored"); }
            if (!K.required || (checked && m[k])) { auto g = K.get(d); VP_CHECK(g.has_value() == m[k].has_value() && (!g || same(*g, *m[k])), after, ": '", K.name, "' by key is not the last value stored"); }
            if (!full) continue;
            VP_CHECK(SA::Has(d, K.name), "'", K.name, "' is unknown");
            for (int t = 0; t < 8; ++t) if (t != K.type || !m[k]) VP_CHECK(!byName(d, K.name, t), after, ": '", K.name, "' can be read as ", TNAME[t], m[k] ? "" : " although it is not set");
        }
        if (full) {
            const bool miss = [&] { for (size_t k = 0; k < m.size(); ++k) if (s.keys[k].required && !m[k]) return true; return false; }();
            if (!checked || miss) for (size_t k = 0; k < m.size(); ++k) if (s.keys[k].required && !m[k]) VP_CHECK(throws([&] { s.keys[k].get(d); }), after, ": the missing value '", s.keys[k].name, "' is read");
        }
    }
};
static const char* UNKNOWN[] = {"", "echo_leve", "echo_level ", "Echo_level", "total_", "modulus2", "general_settings", "condition"};
// operations: index -> (key, what)
struct Op { int kind; size_t key; int a; };   // kind 0 set by key, 1 set by name with a type and value, 2 unknown name, 3 CheckRequired, 4 move, 5 foreign key, 6 int, 7 unsigned by key
static std::vector<Op> Ops(const DictSpec& s) {
    std::vector<Op> L;
    for (size_t k = 0; k < s.keys.size(); ++k) {
        for (int v = 0; v < NV; ++v) L.push_back({0, k, v});
        for (int t = 0; t < 8; ++t) for (int v = 0; v < NV; ++v) if (t == s.keys[k].type || v == 1 || (t == tIndex && s.keys[k].type == tDouble) || (t == tVec && s.keys[k].type == tPoint)) L.push_back({1, k, t * NV + v});
        for (int i : {-1, 5, 2147483647}) if (i < 9 || s.keys[k].type == tDouble || s.keys[k].type == tIndex) L.push_back({6, k, i});
    }
    L.push_back({2, 0, 0}); L.push_back({3, 0, 0}); L.push_back({4, 0, 0}); L.push_back({5, 0, 0});
    return L;
}
static std::string opName(const DictSpec& s, const Op& o) {
    auto& n = s.keys[o.key].name;
    switch (o.kind) { case 0: return cat("set ", n, " by key to value ", o.a); case 1: return cat("set ", n, " by name to ", TNAME[o.a / NV], " ", o.a % NV); case 2: return "unknown names"; case 3: return "CheckRequired"; case 4: return "move"; case 5: return "foreign keys"; default: return cat("set ", n, " by name to int ", o.a); }
}
static void SetName(Dict& d, const std::string& n, int t, int v) { std::visit([&](auto& x) { SA::SetValue(d, n, x); }, value(t, v)); }
// applies the operation to dictionary and model, and checks what it answers
static void Apply(World& w, const Op& o) {
    auto& s = w.s; Dict& d = w.D(); auto& K = s.keys[o.key];
    auto refuse = [&](bool t, const std::string& what) { VP_CHECK(t, what, " is accepted"); };
    switch (o.kind) {
    case 0: K.set(d, o.a); w.m[o.key] = value(K.type, o.a); break;
    case 1: {
        const int t = o.a / NV, v = o.a % NV; std::optional<Val> nv;
        if (t == K.type) nv = value(t, v);
        else if (t == tIndex && K.type == tDouble) nv = Val((double)std::get<IndexType>(value(t, v)));
        else if (t == tVec && K.type == tPoint) { auto q = std::get<Vector3i>(value(t, v)); nv = Val(PointType{(double)q[0], (double)q[1], (double)q[2]}); }
        const bool thr = throws([&] { SetName(d, K.name, t, v); });
        VP_CHECK(thr == !nv, opName(s, o), thr ? " is refused" : " is accepted although the type is wrong");
        if (nv) w.m[o.key] = nv;
        break;
    }
    case 2:
        for (auto n : UNKNOWN) {
            bool known = false; for (auto& k : s.keys) if (k.name == n) known = true;
            if (known) continue;
            const bool sub = s.name == "times" && false;
            refuse(throws([&] { SA::SetValue(d, n, 1.0); }) && throws([&] { SA::SetValue(d, n, std::string("x")); }) && throws([&] { SA::SetValue(d, n, IndexType{1}); }), cat("setting the unknown name '", n, "'"));
            refuse(throws([&] { SA::GetValue<double>(d, n); }), cat("reading the unknown name '", n, "'"));
            refuse(throws([&] { SA::IsSet(d, n); }), cat("asking for the unknown name '", n, "'"));
            VP_CHECK(!SA::Has(d, n) || sub, "the unknown name '", n, "' is said to exist");
            refuse(throws([&] { SA::GetList(d, n); }), cat("the list '", n, "'"));
            refuse(throws([&] { SA::GetSubDictionary(d, n); }), cat("the sub-dictionary '", n, "'"));
        }
        for (auto& k : s.keys) { refuse(throws([&] { SA::GetList(d, k.name); }), "a value as a list"); refuse(throws([&] { SA::GetSubDictionary(d, k.name); }), "a value as a sub-dictionary"); refuse(throws([&] { SA::SetSubDictionary(d, k.name, Make("ConditionInfo")); }), "a sub-dictionary for a value"); }
        break;
    case 3: {
        bool miss = false; for (size_t k = 0; k < w.m.size(); ++k) if (s.keys[k].required && !w.m[k]) miss = true;
        const bool thr = throws([&] { d.CheckRequired(); });
        VP_CHECK(thr == miss, "CheckRequired ", thr ? "fails although nothing is missing" : "does not notice a missing value");
        if (!miss) w.checked = true;
        break;
    }
    case 4: { Dict e(std::move(*w.root)); *w.root = std::move(e); break; }
    case 5:
        // a key of another dictionary, of the same type and position where possible
        if (s.name != "condition times") { refuse(throws([&] { d.SetValue(ConditionsTimeInfo::total, 2.0); }), "a key of another dictionary (double)"); refuse(throws([&] { (void)d.IsSet(ConditionsTimeInfo::total); }), "a key of another dictionary"); }
        if (s.name != "condition settings") { refuse(throws([&] { d.SetValue(ConditionSettings::condition_id, IndexType{3}); }), "a key of another dictionary (index)"); refuse(throws([&] { d.SetValue(ConditionSettings::condition_type, std::string("s")); }), "a key of another dictionary (string)"); refuse(throws([&] { (void)d.TryGetValue<double>(ConditionSettings::modulus); }), "reading a key of another dictionary"); }
        refuse(throws([&] { (void)d[MainSettings::general_settings]; }) && throws([&] { (void)d.GetList(MainSettings::conditions_settings_list); }), "a sub-dictionary key of another dictionary");
        break;
    default: {
        const bool ok = K.type == tDouble || (K.type == tIndex && o.a >= 0);
        const bool thr = throws([&] { SA::SetValue(d, K.name, (int)o.a); });
        VP_CHECK(thr == !ok, opName(s, o), thr ? " is refused" : " is accepted");
        if (ok) w.m[o.key] = K.type == tDouble ? Val((double)o.a) : Val((IndexType)o.a);
    }
    }
}
static void Histories() {
    auto& r = R(); static const auto S = Specs(); const bool th = r.thorough();
    for (size_t si = 0; si < S.size(); ++si) {
        const auto& s = S[si]; const auto ops = Ops(s); const size_t n = ops.size();
        // every sequence of up to 3 operations (thorough: 4 for the small dictionaries)
        const int depth = th && n < 40 ? 4 : th || n < 70 ? 3 : 2;
        for (size_t a = 0; a < n; ++a) {
            if (!r.take()) continue;
            r.run([&s, &ops, a] { return cat(s.name, ": sequences beginning with ", opName(s, ops[a])); }, [&s, &ops, a, n, depth, &r] {
                long long tot = 1; for (int d = 1; d < depth; ++d) tot *= (long long)n;
                for (long long c = 0; c < tot; ++c) {
                    World w(s); long long q = c; std::string h;
                    for (int d = 0; d < depth; ++d) {
                        const Op& o = ops[d == 0 ? a : (size_t)(q % (long long)n)]; if (d) q /= (long long)n;
                        try { Apply(w, o); w.look(false, "after the operation"); } catch (const Stop&) { auto& v = r.violations.back(); std::string full; long long z = c; full = opName(s, ops[a]); for (int e = 1; e <= d; ++e) { full += ", " + opName(s, ops[(size_t)(z % (long long)n)]); z /= (long long)n; } v.msg += " [" + full + "]"; throw; }
                        ++r.transitions;
                    }
                    if (c % 97 == 0) w.look(true, "at the end");
                    ++r.states;
                }
                r.nontrivial(fnv(r.cur_desc())); r.sample(r.cur_desc());
            });
        }
        // every state (each key unset or with one of its values, checked or not) x every operation
        size_t states = 1; for (size_t k = 0; k < s.keys.size(); ++k) states *= NV + 1;
        const size_t chunk = 64, step = th || states <= 4096 ? 1 : 4;
        for (size_t b = 0; b < states; b += chunk) {
            if (!r.take()) continue;
            r.run([&s, b] { return cat(s.name, ": states from ", b); }, [&s, &ops, b, states, step, &r] {
                for (size_t c = b; c < std::min(states, b + chunk); ++c) {
                    if (step > 1 && (c * 2654435761u >> 7) % step) continue;
                    auto build = [&](bool chk) {
                        auto w = std::make_unique<World>(s); size_t q = c; bool feasible = true;
                        for (size_t k = 0; k < s.keys.size(); ++k, q /= NV + 1) {
                            int v = (int)(q % (NV + 1)) - 1;
                            if (v < 0) { if (w->m[k]) feasible = false; continue; }   // a default cannot be unset
                            if ((c + k) & 1) s.keys[k].set(w->D(), v); else SetName(w->D(), s.keys[k].name, s.keys[k].type, v);
                            w->m[k] = value(s.keys[k].type, v);
                        }
                        if (!feasible) w.reset();
                        else if (chk) { try { Apply(*w, {3, 0, 0}); } catch (const Stop&) { throw; } }
                        return w;
                    };
                    for (int chk = 0; chk < 2; ++chk) {
                        auto w = build(chk); if (!w) break;
                        w->look(true, "in the state"); ++r.states;
                        for (auto& o : ops) {
                            const State before = w->m; const bool ch = w->checked;
                            Apply(*w, o); w->look(false, opName(s, o)); ++r.transitions;
                            bool changed = ch != w->checked; for (size_t k = 0; k < before.size(); ++k) if (before[k].has_value() != w->m[k].has_value() || (before[k] && !same(*before[k], *w->m[k]))) changed = true;
                            if (changed) w = build(chk);
                        }
                        w->look(true, "at the end");
                    }
                }
                r.nontrivial(fnv(r.cur_desc()));
            });
        }
    }
}
// sub-dictionaries and lists
static void Tree() {
    auto& r = R(); const int depth = r.thorough() ? 7 : 5; const int NOP = 14;
    struct Item { IndexType tag; const Dict* at; };
    struct Sub { std::optional<IndexType> echo; const Dict* at; };   // what replaced general_settings; at = nullptr: none
    for (int first = 0; first < NOP; ++first) for (int second = 0; second < NOP; ++second) {
        if (!r.take()) continue;
        r.run([=] { return cat("tree, first operations ", first, ",", second); }, [=, &r] {
            long long tot = 1; for (int d = 2; d < depth; ++d) tot *= NOP;
            for (long long c = 0; c < tot; ++c) {
                auto root = Make("Settings"); std::vector<Item> list; Sub sub{IndexType{1}, &(*root)[MainSettings::general_settings]};
                const Dict* grid = &(*root)[MainSettings::background_grid_settings];
                bool setAll = false; IndexType tag = 10; long long q = c; std::string h;
                auto L = [&](bool name) -> Dict::ListType& { return name ? SA::GetList(*root, "conditions_settings_list") : root->GetList(MainSettings::conditions_settings_list); };
                auto fresh = [&](bool complete) { auto p = Make("ConditionSettings"); p->SetValue(ConditionSettings::condition_id, ++tag); if (complete) p->SetValue(ConditionSettings::input_filename, std::string("f")); return p; };
                std::vector<bool> complete;
                auto donor = [&] { auto o = Make("Settings"); Dict d(std::move((*o)[MainSettings::general_settings])); d.SetValue(GeneralSettings::echo_level, ++tag); return MakeUnique<Dict>(std::move(d)); };
                for (int d = 0; d < depth; ++d) {
                    const int op = d == 0 ? first : d == 1 ? second : (int)(q % NOP); if (d > 1) q /= NOP;
                    h += cat(op, " ");
                    switch (op) {
                    case 0: case 1: { auto p = fresh(true); list.push_back({tag, p.get()}); L(op).push_back(std::move(p)); complete.push_back(true); break; }
                    case 2: { auto p = fresh(false); list.insert(list.begin(), {tag, p.get()}); auto& l = L(false); l.insert(l.begin(), std::move(p)); complete.insert(complete.begin(), false); break; }
                    case 3: if (!list.empty()) { auto& l = L(true); l.erase(l.begin()); list.erase(list.begin()); complete.erase(complete.begin()); } break;
                    case 4: { Dict e(std::move(*root)); *root = std::move(e); break; }
                    case 5: { auto p = MakeUnique<Dict>(std::move(*root)); root = std::move(p); break; }
                    case 6: { auto p = donor(); sub = {tag, p.get()}; root->SetSubDictionary(MainSettings::general_settings, std::move(p)); break; }
                    case 7: { auto p = donor(); sub = {tag, p.get()}; SA::SetSubDictionary(*root, "general_settings", std::move(p)); break; }
                    case 8: sub = {std::nullopt, nullptr}; root->SetSubDictionary(MainSettings::general_settings, nullptr); break;
                    case 9: if (sub.at) { (*root)[MainSettings::general_settings].SetValue(GeneralSettings::echo_level, ++tag); sub.echo = tag; } break;
                    case 10: if (sub.at) { SA::SetValue(SA::GetSubDictionary(*root, "general_settings"), "echo_level", ++tag); sub.echo = tag; } break;
                    case 11: {   // everything required outside of general_settings and the list
                        auto& b = SA::GetSubDictionary(*root, "background_grid_settings"); b.SetValue(BackgroundGridSettings::grid_type, GridType::b_spline_grid);
                        for (auto n : {"lower_bound_xyz", "upper_bound_xyz", "lower_bound_uvw", "upper_bound_uvw"}) SA::SetValue(b, n, PointType{1, 2, 3});
                        for (auto n : {"polynomial_order", "number_of_elements"}) SA::SetValue(b, n, Vector3i{1, 1, 1});
                        if (sub.at) SA::SetValue(SA::GetSubDictionary(*root, "general_settings"), "input_filename", std::string("x"));
                        setAll = true; break; }
                    case 12: {
                        VP_CHECK(throws([&] { SA::GetList(*root, "general_settings"); }) && throws([&] { SA::GetSubDictionary(*root, "conditions_settings_list"); }) && throws([&] { SA::SetValue(*root, "general_settings", 1.0); }) && throws([&] { SA::GetValue<double>(*root, "conditions_settings_list"); }) && throws([&] { SA::GetSubDictionary(*root, "echo_level"); }) && throws([&] { SA::SetSubDictionary(*root, "nothing", Make("Settings")); }) && throws([&] { SA::GetList(*root, "conditions_infos_list"); }) && throws([&] { SA::IsSet(*root, "general_settings"); }), h, ": a wrong kind of entry is accepted");
                        VP_CHECK(throws([&] { (void)(*root)[MainInfo::quadrature_info]; }) && throws([&] { (void)root->GetList(MainInfo::conditions_infos_list); }) && throws([&] { root->SetSubDictionary(MainInfo::quadrature_info, Make("Settings")); }), h, ": a foreign key is accepted");
                        VP_CHECK(SA::Has(*root, "general_settings") && SA::Has(*root, "conditions_settings_list") && !SA::Has(*root, "echo_level") && !SA::Has(*root, "conditions_infos_list"), h, ": Has() is wrong");
                        break; }
                    case 13: if (!list.empty()) { L(true)[0]->SetValue(ConditionSettings::condition_id, ++tag); list[0].tag = tag; } break;
                    }
                    ++r.transitions;
                    // observation
                    if (sub.at) {
                        const Dict* k = &(*root)[MainSettings::general_settings]; const Dict* m = &SA::GetSubDictionary(*root, "general_settings");
                        VP_CHECK(k == sub.at && m == sub.at, h, ": general_settings is another dictionary");
                        VP_CHECK(SA::GetValue<IndexType>(*k, "echo_level") == *sub.echo, h, ": content of general_settings");
                    } else VP_CHECK(throws([&] { (void)(*root)[MainSettings::general_settings]; }) && throws([&] { SA::GetSubDictionary(*root, "general_settings"); }), h, ": a missing sub-dictionary is returned");
                    VP_CHECK(&(*root)[MainSettings::background_grid_settings] == grid, h, ": background_grid_settings is another dictionary");
                    for (bool name : {false, true}) {
                        auto& l = L(name); VP_CHECK(l.size() == list.size(), h, ": the list has ", l.size(), " entries instead of ", list.size());
                        for (size_t i = 0; i < l.size(); ++i) VP_CHECK(l[i].get() == list[i].at && SA::GetValue<IndexType>(*l[i], "condition_id") == list[i].tag, h, ": entry ", i, " of the list is another one");
                    }
                    // CheckRequired has to find whatever is missing anywhere
                    bool miss = !sub.at || !setAll || !SA::IsSet((*root)[MainSettings::general_settings], "input_filename"); for (bool b : complete) if (!b) miss = true;
                    VP_CHECK(throws([&] { root->CheckRequired(); }) == miss, h, ": CheckRequired ", miss ? "does not find a missing value" : "fails although nothing is missing");
                }
                ++r.states; r.nontrivial(fnv(h));
            }
            r.sample(r.cur_desc());
        });
    }
    // what the factory makes is complete, unshared, and unknown names are refused
    for (auto n : {"Settings", "ConditionSettings", "ModelInfo", "ConditionInfo"}) {
        if (!r.take()) continue;
        r.run([=] { return cat("factory ", n); }, [=, &r] {
            std::ostringstream a, b, c; auto x = Make(n); a << *x; auto y = Make(n);
            if (std::string(n) == "Settings") { (*y)[MainSettings::general_settings].SetValue(GeneralSettings::echo_level, IndexType{9}); y->GetList(MainSettings::conditions_settings_list).push_back(Make("ConditionSettings")); }
            if (std::string(n) == "ConditionSettings") y->SetValue(ConditionSettings::modulus, 3.0);
            if (std::string(n) == "ModelInfo") (*y)[MainInfo::elapsed_time_info].SetValue(ElapsedTimeInfo::total, 3.0);
            if (std::string(n) == "ConditionInfo") y->SetValue(ConditionInfo::surf_area, 3.0);
            b << *x; c << *Make(n); VP_CHECK(a.str() == b.str() && a.str() == c.str(), "two dictionaries share their values");
            for (auto u : {"", "settings", "Setting", "ModelInf"}) VP_CHECK(throws([&] { Make(u); }), "the dictionary '", u, "' is created");
            ++r.states;
        });
    }
}

// ------------------------------------------------------------------------------------------------ C21
static bool Accepts(Unique<Dict> s) { return !throws([&] { auto m = EmbeddedModel::Create(std::move(s)); (void)m; }); }
static void Feasible() {
    auto& r = R(); const bool th = r.thorough();
    static const IntegrationMethod M[] = {IntegrationMethod::gauss, IntegrationMethod::gauss_reduced_1, IntegrationMethod::gauss_reduced_2, IntegrationMethod::ggq_optimal, IntegrationMethod::ggq_reduced_1, IntegrationMethod::ggq_reduced_2};
    const int top = th ? 12 : 10;
    for (int g = 0; g < 2; ++g) for (int m = 0; m < 6; ++m) for (int p0 = 0; p0 <= top; ++p0) {
        if (!r.take()) continue;
        r.run([=] { return cat(g ? "hexahedral grid" : "b-spline grid", " method ", m, " first order ", p0); }, [=, &r] {
            for (int p1 = 0; p1 <= top; ++p1) for (int p2 = 0; p2 <= top; ++p2) for (int var = 0; var < 3; ++var) {
                Cfg c; c.grid = g ? GridType::hexahedral_fe_grid : GridType::b_spline_grid; c.method = M[m]; c.p = {(IndexType)p0, (IndexType)p1, (IndexType)p2};
                c.n = var == 0 ? Vector3i{1, 1, 1} : var == 1 ? Vector3i{2, 3, 4} : Vector3i{100, 1, 7}; c.neglect = var != 1; c.minvol = var == 2 ? 0 : 1e-3; c.mintri = var == 1 ? 1 : 100;
                if (var == 2) { c.lo = {-5, 1e3, 0}; c.hi = {-4.5, 2e3, 1e-3}; }
                const int lo = std::min({p0, p1, p2}), hi = std::max({p0, p1, p2});
                const bool want = lo >= 1 && hi <= 8 && (m < 3 || (g == 0 && lo >= 2 && hi <= 4)) && (m != 2 || lo >= 2);
                const bool got = Accepts(MakeSettings(c));
                ++r.states; ++r.transitions;
                VP_CHECK(got == want, "orders (", p0, ",", p1, ",", p2, ") variant ", var, got ? " are accepted" : " are rejected");
                r.count(want ? "accepted" : "rejected");
                if (p0 != p1 || p1 != p2) r.nontrivial(fnv(cat(g, m, p0, p1, p2, var)));
            }
            r.sample(r.cur_desc());
        });
    }
    // an order too large for the tables, in any direction
    for (IndexType big : {IndexType{1} << 16, IndexType{1} << 31, IndexType{1} << 32, (IndexType{1} << 32) + 2, IndexType{1} << 63, ~IndexType{0}}) for (int d = 0; d < 3; ++d) for (int m = 0; m < 6; ++m) {
        if (!r.take()) continue;
        r.run([=] { return cat("order ", big, " in direction ", d, " method ", m); }, [=, &r] { Cfg c; c.p = {2, 2, 2}; c.p[(size_t)d] = big; c.method = M[m]; VP_CHECK(!Accepts(MakeSettings(c)), "is accepted"); ++r.states; });
    }
    // numbers of elements: none in some direction, or more than can be counted
    static const IndexType NUM[] = {0, 1, 2, 7, 100, IndexType{1} << 32, IndexType{1} << 63, ~IndexType{0}};
    for (IndexType n0 : NUM) for (IndexType n1 : NUM) {
        if (!r.take()) continue;
        r.run([=] { return cat("numbers of elements (", n0, ",", n1, ",*)"); }, [=, &r] {
            for (IndexType n2 : NUM) for (int g = 0; g < 2; ++g) {
                const bool none = !n0 || !n1 || !n2;
                const long double tot = (long double)n0 * (long double)n1 * (long double)n2;
                if (!none && tot > 1e6L && tot < 18446744073709551616.0L) continue;   // can be counted, but needs more memory than there is
                Cfg c; c.p = {2, 2, 2}; c.n = {n0, n1, n2}; c.grid = g ? GridType::hexahedral_fe_grid : GridType::b_spline_grid;
                const bool want = !none && tot <= 1e6L, got = Accepts(MakeSettings(c));
                ++r.states; ++r.transitions; r.count(want ? "accepted" : "rejected");
                VP_CHECK(got == want, "numbers of elements (", n0, ",", n1, ",", n2, got ? ") are accepted" : ") are rejected");
            }
            r.nontrivial(fnv(r.cur_desc()));
        });
    }
    // bounds: every pair of values in every direction of either space
    static const double INF = std::numeric_limits<double>::infinity();
    static const double B[] = {-INF, -1e308, -1e10, -3, -0.5, -0.0, 0, 1e-300, 1e-16, 1e-8, 0.5, 0.5 + 1e-9, 3, 1e10, 1e308, INF, std::nan("")};
    for (int space = 0; space < 2; ++space) for (size_t d = 0; d < 3; ++d) for (double lo : B) for (int g = 0; g < 2; ++g) {
        if (!r.take()) continue;
        r.run([=] { return cat(space ? "parametric" : "physical", " bounds in direction ", d, " beginning at ", lo, g ? " hexahedral" : ""); }, [=, &r] {
            for (double hi : B) for (int k = 0; k < 2; ++k) {
                Cfg c; c.p = {2, 2, 2}; c.n = {3, 1, 2}; c.grid = g ? GridType::hexahedral_fe_grid : GridType::b_spline_grid;
                if (k) { c.lo = {-5, 1e3, 0}; c.hi = {-4.5, 2e3, 1e-3}; c.lou = {-1, -1, -1}; c.hiu = {1, 1, 1}; }
                (space ? c.lou : c.lo)[d] = lo; (space ? c.hiu : c.hi)[d] = hi;
                const double ext = hi - lo;
                const bool want = std::isfinite(ext) && ext > 1e-12, got = Accepts(MakeSettings(c));
                ++r.states; ++r.transitions; r.count(want ? "accepted" : "rejected");
                VP_CHECK(got == want, "the bounds ", lo, " and ", hi, got ? " are accepted" : " are rejected");
            }
            r.nontrivial(fnv(r.cur_desc()));
        });
    }
    // every subset of missing values
    static const std::vector<std::pair<const char*, std::vector<const char*>>> REQ{{"general_settings", {"input_filename", "output_directory_name", "echo_level", "write_output_to_file"}},
        {"background_grid_settings", {"grid_type", "lower_bound_xyz", "upper_bound_xyz", "lower_bound_uvw", "upper_bound_uvw", "polynomial_order", "number_of_elements"}},
        {"trimmed_quadrature_rule_settings", {"moment_fitting_residual", "min_element_volume_ratio", "min_num_boundary_triangles", "neglect_elements_if_stl_is_flawed"}}, {"non_trimmed_quadrature_rule_settings", {"integration_method"}}};
    for (int mask = 0; mask < 256; ++mask) for (int cond = 0; cond < 3; ++cond) {
        if (!r.take()) continue;
        r.run([=] { return cat("missing values ", mask, " conditions ", cond); }, [=, &r] {
            // only the values without a default can be missing: one of general_settings, seven of the grid
            auto s = Make("Settings"); int b = 0, given = 0;
            for (auto& [sub, names] : REQ) for (auto n : names) {
                auto& d = SA::GetSubDictionary(*s, sub); const std::string w = n;
                if (SA::IsSet(d, w)) continue;
                if (mask >> b++ & 1) continue;
                ++given;
                if (w == "input_filename") SA::SetValue(d, w, std::string("x")); else if (w == "grid_type") SA::SetValue(d, w, GridType::b_spline_grid);
                else if (w == "polynomial_order" || w == "number_of_elements") SA::SetValue(d, w, Vector3i{2, 2, 2}); else SA::SetValue(d, w, w[0] == 'l' ? PointType{0, 0, 0} : PointType{1, 1, 1});
            }
            VP_CHECK(b == 8, "there are ", b, " values without a default");
            for (int k = 0; k < cond; ++k) { auto c = Make("ConditionSettings"); c->SetValue(ConditionSettings::condition_id, IndexType(k)); c->SetValue(ConditionSettings::input_filename, std::string("c")); s->GetList(MainSettings::conditions_settings_list).push_back(std::move(c)); }
            const bool got = Accepts(std::move(s));
            VP_CHECK(got == (given == 8), "settings with ", 8 - given, " missing values are ", got ? "accepted" : "rejected");
            ++r.states; r.nontrivial(fnv(r.cur_desc()));
        });
    }
    // missing values of conditions: none, one or both required ones, at any position
    for (int k = 1; k <= 3; ++k) for (int code = 0; code < (k == 1 ? 4 : k == 2 ? 16 : 64); ++code) for (int opt = 0; opt < 2; ++opt) {
        if (!r.take()) continue;
        r.run([=] { return cat(k, " conditions, given values ", code, opt ? " and optional ones" : ""); }, [=, &r] {
            Cfg c; c.p = {2, 2, 2}; auto s = MakeSettings(c); bool all = true;
            for (int i = 0; i < k; ++i) {
                auto d = Make("ConditionSettings"); int g = code >> (2 * i) & 3; if (g != 3) all = false;
                if (g & 1) d->SetValue(ConditionSettings::condition_id, IndexType(i)); if (g & 2) d->SetValue(ConditionSettings::input_filename, std::string("c"));
                if (opt) { d->SetValue(ConditionSettings::condition_type, std::string("penalty")); d->SetValue(ConditionSettings::value, PointType{1, 2, 3}); d->SetValue(ConditionSettings::penalty_factor, 1e9); }
                s->GetList(MainSettings::conditions_settings_list).push_back(std::move(d));
            }
            const bool got = Accepts(std::move(s)); ++r.states; r.nontrivial(fnv(r.cur_desc()));
            VP_CHECK(got == all, "settings with ", all ? "complete" : "incomplete", " conditions are ", got ? "accepted" : "rejected");
        });
    }
    // a missing sub-dictionary
    for (int q = 0; q < 4; ++q) { if (!r.take()) continue; r.run([=] { return cat("missing part ", q); }, [=] { Cfg c; auto s = MakeSettings(c); SA::SetSubDictionary(*s, REQ[(size_t)q].first, nullptr); VP_CHECK(!Accepts(std::move(s)), "is accepted"); }); }
}
int main(int argc, char** argv) {
    auto& r = R(); r.init(argc, argv);
    std::ostringstream sink; auto* old = std::cout.rdbuf(sink.rdbuf()); auto* olde = std::cerr.rdbuf(); if (r.only < 0) std::cerr.rdbuf(sink.rdbuf());
    auto has = [&](const char* a) { for (auto& x : r.args) if (x == a) return true; return false; };
    if (has("histories")) Histories();
    if (has("tree")) Tree();
    if (has("feasible")) Feasible();
    std::cout.rdbuf(old); std::cerr.rdbuf(olde);
    return r.finish();
}
