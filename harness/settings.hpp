#pragma once
#include "queso/includes/dictionary_factory.hpp"
#include "queso/containers/grid_indexer.hpp"
namespace vp {
using namespace queso;
using Dict = Dictionary<key::MainValuesTypeTag>;
// value of a key, without the precondition of GetRequiredValue()
template <class T, class K> T val(const Dict& d, const K& k) { return DictionaryStringAccess<Dict>::GetValue<T>(d, std::string(k.Name())); }
struct Cfg {
    PointType lo{0, 0, 0}, hi{1, 1, 1}, lou{0, 0, 0}, hiu{1, 1, 1};
    Vector3i n{1, 1, 1}, p{1, 1, 1};
    GridType grid = GridType::b_spline_grid;
    IntegrationMethod method = IntegrationMethod::gauss;
    double residual = 1e-10, minvol = 1e-3;
    IndexType mintri = 100, echo = 0;
    bool neglect = true, write = false;
    std::string dir = "queso_output", input = "dummy.stl";
};
inline Unique<Dict> MakeSettings(const Cfg& c) {
    auto s = DictionaryFactory<key::MainValuesTypeTag>::Create("Settings");
    auto& g = (*s)[MainSettings::general_settings];
    g.SetValue(GeneralSettings::input_filename, c.input);
    g.SetValue(GeneralSettings::output_directory_name, c.dir);
    g.SetValue(GeneralSettings::echo_level, c.echo);
    g.SetValue(GeneralSettings::write_output_to_file, c.write);
    auto& b = (*s)[MainSettings::background_grid_settings];
    b.SetValue(BackgroundGridSettings::grid_type, c.grid);
    b.SetValue(BackgroundGridSettings::lower_bound_xyz, c.lo);
    b.SetValue(BackgroundGridSettings::upper_bound_xyz, c.hi);
    b.SetValue(BackgroundGridSettings::lower_bound_uvw, c.lou);
    b.SetValue(BackgroundGridSettings::upper_bound_uvw, c.hiu);
    b.SetValue(BackgroundGridSettings::polynomial_order, c.p);
    b.SetValue(BackgroundGridSettings::number_of_elements, c.n);
    auto& t = (*s)[MainSettings::trimmed_quadrature_rule_settings];
    t.SetValue(TrimmedQuadratureRuleSettings::moment_fitting_residual, c.residual);
    t.SetValue(TrimmedQuadratureRuleSettings::min_element_volume_ratio, c.minvol);
    t.SetValue(TrimmedQuadratureRuleSettings::min_num_boundary_triangles, c.mintri);
    t.SetValue(TrimmedQuadratureRuleSettings::neglect_elements_if_stl_is_flawed, c.neglect);
    (*s)[MainSettings::non_trimmed_quadrature_rule_settings].SetValue(NonTrimmedQuadratureRuleSettings::integration_method, c.method);
    for (auto* d : {&g, &b, &t, &(*s)[MainSettings::non_trimmed_quadrature_rule_settings]}) d->CheckRequired();
    return s;
}
} // namespace vp
