// VC-SOURCES: components/base/component.cpp components/ports/power_port.cpp environment/global/clock_generator.cpp components/real/power/battery.cpp components/real/power/solar_array_panel.cpp components/real/power/pcu_initial_study.cpp components/real/mission/telescope.cpp components/real/power/csv_scenario_interface.cpp math_physics/math/vector.cpp math_physics/math/quaternion.cpp
// VC-REPLACE: strcat WITH vc_strcat
#include "vc_settings.hpp"
extern "C" char* vc_strcat(char* d, const char* s) { char* p = d; while (*p) p++; while (*s) *p++ = *s++; *p = 0; return d; }
#include "components/real/power/battery.hpp"
#include "components/real/power/solar_array_panel.hpp"
#include "components/real/power/pcu_initial_study.hpp"
#include "components/real/mission/telescope.hpp"
using namespace s2e; using namespace s2e::components;
template <class T> static T* raw() { return (T*)::operator new(sizeof(T)); }
namespace s2e::environment { V3 LocalCelestialInformation::GetPositionFromSpacecraft_b_m(const char*) const { return vec3(1, 0, 0); } V3 HipparcosCatalogue::GetStarDirection_b(size_t, math::Quaternion) const { return vec3(1, 0, 0); } }
static double charge_of(double Q, double dod) { return dod / 100.0 * Q; }
PROP(battery) {
  no_settings(); Common c; const char* s = "BATTERY_2"; common(c, s, false); double Q = set_pos(s, "cell_capacity_Ah", 1, 4), dod = set_pos(s, "initial_dod", 1, 90), rate = set_pos(s, "constant_charge_current_rate_C", 0.1, 1), cv = set_pos(s, "constant_voltage_charge_voltage_V", 8, 20), R = set_pos(s, "battery_resistance_Ohm", 0.1, 1); long series = 3, parallel = 2, order = 3; if (vc_int("layout", 0, 1) == 1) { series = 1; parallel = 5; order = 0; } set_int(s, "number_of_series", series); set_int(s, "number_of_parallel", parallel); set_int(s, "approximation_order", order); double k[4] = {0, 0, 0, 0}; k[0] = set_real(s, "cell_discharge_curve_coefficients(0)", 3, 4); if (order == 3) { k[1] = set_real(s, "cell_discharge_curve_coefficients(1)", -1, 1); k[2] = set_real(s, "cell_discharge_curve_coefficients(2)", -1, 1); k[3] = set_real(s, "cell_discharge_curve_coefficients(3)", -1, 1); }
  auto* x = raw<Battery>(); for (size_t i = 0; i < sizeof(Battery) / 8; i++) ((double*)x)[i] = 77.0; double step = any_pos("step", 0.01, 1); new (x) Battery(InitBAT(&c.clk, 2, "f", step)); check_common(c, *x);
  vc_check("cells", x->number_of_series_ == series && x->number_of_parallel_ == parallel && vc_near(x->cell_capacity_Ah_, Q) && vc_near(x->GetResistance_Ohm(), R)); vc_check("charge limits", vc_near(x->GetCcChargeCurrent_C(), rate * Q * (double)parallel) && vc_near(x->GetCvChargeVoltage_V(), cv)); vc_check("depth of discharge at the start", vc_near(x->depth_of_discharge_percent_, dod)); vc_check("step of the battery", vc_near(x->compo_step_time_s_, step));
  const auto& y = x->cell_discharge_curve_coefficients_; bool same = (long)y.size() == order + 1; if (same) for (long i = 0; i <= order; i++) if (!vc_near(y[i], k[i])) same = false; vc_check("discharge curve", same);
  double q = charge_of(Q, dod); vc_check("no current before the first update", vc_near(x->charge_current_A_, 0)); vc_eq("voltage at the start", x->GetVoltage_V(), (double)series * (k[0] + k[1] * q + k[2] * q * q + k[3] * q * q * q));
}
PROP(battery_of_hand) {
  environment::ClockGenerator clk; double Q = any_pos("capacity", 1, 4), dod = any_pos("dod", 1, 90), k0 = any_pos("k0", 3, 4), k1 = any_real("k1", -1, 1); auto* x = raw<Battery>(); for (size_t i = 0; i < sizeof(Battery) / 8; i++) ((double*)x)[i] = 77.0;
  new (x) Battery(&clk, 3, 2, Q, {k0, k1}, dod, 0.2, 12.3, 0.4); vc_check("no current before the first update", vc_near(x->charge_current_A_, 0)); vc_eq("voltage at the start", x->GetVoltage_V(), 3 * (k0 + k1 * charge_of(Q, dod))); vc_check("updated every second", x->prescaler_ == 10 && vc_near(x->compo_step_time_s_, 0.1));
}
PROP(panel) {
  no_settings(); Common c; const char* s = "SOLAR_ARRAY_PANEL_3"; common(c, s, false); double A = set_pos(s, "cell_area_m2", 1e-3, 1e-2), eta = set_pos(s, "cell_efficiency", 0.1, 0.3), tr = set_pos(s, "transmission_efficiency", 0.5, 1), step = any_pos("step", 0.01, 1); V3 n = set_vec(s, "normal_vector_b"); vc_assume(n[0] > 0.1); set_int(s, "number_of_series", 7); set_int(s, "number_of_parallel", 4); auto* d = raw<environment::SolarRadiationPressureEnvironment>(); auto* e = raw<environment::LocalCelestialInformation>(); bool scenario = vc_int("scenario", 0, 1) == 1;
  auto check = [&](const SolarArrayPanel& x) { check_common(c, x); vc_check("number and surroundings", x.component_id_ == 3 && x.srp_environment_ == d && (scenario || x.local_celestial_information_ == e)); vc_check("cells of the panel", x.number_of_series_ == 7 && x.number_of_parallel_ == 4 && vc_near(x.cell_area_m2_, A)); vc_check("efficiencies", vc_near(x.cell_efficiency_, eta) && vc_near(x.transmission_efficiency_, tr)); double l = norm3(n); for (int i = 0; i < 3; i++) vc_check("normal of the panel", vc_near(x.normal_vector_[i], n[i] / l) || vc_near(x.normal_vector_[i], n[i] * (1.0 / l))); vc_check("step of the panel", vc_near(x.compo_step_time_s_, step)); vc_check("no power before the first update", vc_near(x.GetPowerGeneration_W(), 0) && vc_near(x.voltage_V_, 0)); };
  if (scenario) { SolarArrayPanel x(InitSAP(&c.clk, 3, "f", d, step)); check(x); } else { SolarArrayPanel x(InitSAP(&c.clk, 3, "f", d, e, step)); check(x); }
}
PROP(pcu) {
  no_settings(); Common c; common(c, "PCU_INITIAL_STUDY_2", false); double step = any_pos("step", 0.01, 1), Q = any_pos("capacity", 1, 4), rate = any_pos("rate", 0.1, 1), cv = any_pos("voltage", 8, 20); environment::ClockGenerator clk; Battery b(2, &clk, 3, 2, Q, {4.0}, 20.0, rate, cv, 0.4, step); std::vector<SolarArrayPanel*> panels; panels.push_back(raw<SolarArrayPanel>()); panels.push_back(raw<SolarArrayPanel>());
  PcuInitialStudy x(InitPCU_InitialStudy(&c.clk, 2, "f", panels, &b, step)); check_common(c, x); vc_check("panels and battery", x.saps_.size() == 2 && x.saps_[0] == panels[0] && x.saps_[1] == panels[1] && x.battery_ == &b); vc_check("step of the power control unit", vc_near(x.compo_step_time_s_, step)); vc_check("limits of the battery", vc_near(x.cc_charge_current_C_, rate * Q * 2) && vc_near(x.cv_charge_voltage_V_, cv));
}
PROP(telescope) {
  no_settings(); Common c; const char* s = "TELESCOPE_12"; c.prescaler = 1; c.port = false; Q4 q = set_quat(s, "quaternion_b2c"); double sun = set_real(s, "sun_exclusion_angle_deg", 0, 90), earth = set_real(s, "earth_exclusion_angle_deg", 0, 90), moon = set_real(s, "moon_exclusion_angle_deg", 0, 90), px = set_pos(s, "x_fov_deg_per_pixel", 0.001, 0.02), py = set_pos(s, "y_fov_deg_per_pixel", 0.001, 0.02); set_int(s, "x_number_of_pixel", 2048); set_int(s, "y_number_of_pixel", 1024); set_int(s, "number_of_stars_for_log", 3); vc_assume(px <= 0.04 && py <= 0.08);
  auto* a = raw<dynamics::attitude::Attitude>(); auto* h = raw<environment::HipparcosCatalogue>(); auto* e = raw<environment::LocalCelestialInformation>(); Telescope x(InitTelescope(&c.clk, 12, "f", a, h, e)); check_common(c, x); vc_check("mounting", near(x.quaternion_b2c_, q)); vc_check("surroundings", x.attitude_ == a && x.hipparcos_ == h && x.local_celestial_information_ == e);
  vc_check("exclusion angles in radians", vc_near(x.sun_forbidden_angle_rad_, radian(sun)) && vc_near(x.earth_forbidden_angle_rad_, radian(earth)) && vc_near(x.moon_forbidden_angle_rad_, radian(moon))); vc_check("pixels", x.x_number_of_pix_ == 2048 && x.y_number_of_pix_ == 1024 && vc_near(x.x_fov_per_pix_, radian(px)) && vc_near(x.y_fov_per_pix_, radian(py))); vc_check("field of view of all pixels", vc_near(x.x_field_of_view_rad, 2048 * radian(px)) && vc_near(x.y_field_of_view_rad, 1024 * radian(py))); vc_check("stars to log", x.number_of_logged_stars_ == 3 && x.star_list_in_sight.size() == 3);
}
