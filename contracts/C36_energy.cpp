// VC-SOURCES: components/base/component.cpp components/ports/power_port.cpp environment/global/clock_generator.cpp components/real/power/battery.cpp components/real/power/solar_array_panel.cpp components/real/power/pcu_initial_study.cpp components/real/power/csv_scenario_interface.cpp setting_file_reader/initialize_file_access.cpp
// VC-REPLACE: s2e::components::CsvScenarioInterface::IsCsvScenarioEnabled WITH vc_no
#include "vc_s2e.hpp"
#include "components/real/power/pcu_initial_study.hpp"
#include "components/real/power/csv_scenario_interface.hpp"
using namespace s2e::components;
extern "C" bool vc_no() { return false; }
// the sun's position as delivered by the environment (its code needs SPICE)
static V3 g_sun; static bool g_name = true;
namespace s2e::environment {
V3 LocalCelestialInformation::GetPositionFromSpacecraft_b_m(const char* n) const { g_name = g_name && n[0] == 'S' && n[1] == 'U' && n[2] == 'N' && n[3] == 0; return g_sun; }
}
#define BATTERY() s2e::environment::ClockGenerator clk; double cap = any_pos("capacity", 0.5, 10), dod = any_real("dod", 0, 100), ccr = any_pos("charge_rate", 0.1, 2), cv = any_pos("cv_voltage", 5, 40), R = any_pos("resistance", 0.01, 1), dt = any_pos("step", 0.01, 2); \
  int ns = (int)vc_int("series", 1, 20), np = (int)vc_int("parallel", 1, 20); long pre = vc_int("prescaler", 1, 100); \
  double c0 = any_real("c0", 3, 5), c1 = any_real("c1", -1, 1), c2 = any_real("c2", -1, 1), c3 = any_real("c3", -0.1, 0.1); \
  Battery bat((int)pre, &clk, ns, np, cap, std::vector<double>{c0, c1, c2, c3}, dod, ccr, cv, R, dt)
PROP(battery) {
  BATTERY(); double I = any_real("current", -20, 20);
  vc_eq("maximum charge current is the charge rate times the capacity of the pack", bat.GetCcChargeCurrent_C(), ccr * cap * np);
  vc_check("charging limits are those configured", bat.GetCvChargeVoltage_V() == cv && bat.GetResistance_Ohm() == R);
  bat.SetChargeCurrent(I); bat.MainRoutine(0);
  double d1 = dod - I * (dt * pre) / 3600 / (cap * np) * 100;
  vc_eqs("depth of discharge falls by the charge that flowed in relative to the capacity of the pack", bat.depth_of_discharge_percent_, d1, 1000);
  double q = d1 / 100 * cap;
  vc_eqs("voltage is the cell discharge curve at the discharged capacity times the cells in series", bat.GetVoltage_V(), (c0 + c1 * q + c2 * q * q + c3 * q * q * q) * ns, 1e6);
}
static s2e::environment::SolarRadiationPressureEnvironment* srp(double P, double s) {
  auto* e = (s2e::environment::SolarRadiationPressureEnvironment*)::operator new(sizeof(s2e::environment::SolarRadiationPressureEnvironment));
  e->solar_radiation_pressure_N_m2_ = P; e->shadow_coefficient_ = s; e->solar_constant_W_m2_ = 1366; return e;
}
PROP(solar_panel) {
  s2e::environment::ClockGenerator clk; double A = any_pos("area", 0.001, 1), eff = any_pos("efficiency", 0.1, 0.4), tr = any_pos("transmission", 0.5, 1), P = any_pos("pressure", 4e-6, 5e-6), sh = vc_real_in("shadow", 0, 1);
  int ns = (int)vc_int("series", 1, 20), np = (int)vc_int("parallel", 1, 20);
  V3 n = any_unit3("normal"); double k = any_pos("scale", 0.1, 10); V3 s = any_unit3("sun"); double dist = any_pos("distance", 1e10, 2e11);
  g_sun = scale3(dist, s);
  SolarArrayPanel sap(1, &clk, 0, ns, np, A, scale3(k, n), eff, tr, srp(P, sh), (s2e::environment::LocalCelestialInformation*)&clk, 0.1);
  sap.MainRoutine((int)vc_int("time", 0, 1000000));
  double c = dot3(n, s), full = eff * tr * (P * 299792458.0 * sh) * A * np * ns;
  vc_check("the panel faces the sun", g_name);
  vc_eqs("power is efficiency times flux times area times cosine, and zero when facing away", sap.GetPowerGeneration_W(), c > 0 ? full * c : 0, 1e4);
  vc_check("no power in full eclipse", sh != 0 || sap.GetPowerGeneration_W() == 0);
  vc_check("generation is never negative", sap.GetPowerGeneration_W() >= 0);
}
PROP(charge_control) {
  BATTERY(); long nsap = vc_int("panels", 0, 3);
  auto* env = srp(4e-6, 1);
  std::vector<SolarArrayPanel*> v; double gen = 0;
  for (long i = 0; i < nsap; i++) { SolarArrayPanel* s = new SolarArrayPanel(1, &clk, (int)i, 1, 1, 1, vec3(1, 0, 0), 0.2, 0.9, env, 0.1); double g = any_real("generation", 0, 60); vc_assume(g >= 0); s->power_generation_W_ = g; gen += g; v.push_back(s); }
  double V = any_pos("battery_voltage", 5, 45); bat.battery_voltage_V_ = V;
  double load = 5;   // the unit's constant consumption without a scenario file
  vc_assume(V * V + 4 * R * (gen - load) >= 0);   // the battery can supply the load at all
  PcuInitialStudy pcu(1, &clk, v, &bat, 0.1);
  pcu.MainRoutine(7);
  double I = bat.charge_current_A_, U = pcu.bus_voltage_V_, cc = ccr * cap * np, lim = (cv - V) / R;
  vc_eqs("consumption is the constant bus load", pcu.power_consumption_W_, load, 10);
  vc_eqs("bus voltage is battery voltage plus current times resistance", U, V + I * R, 100);
  vc_check("charge current stays within the constant-current limit", I <= cc + 1e-9 * !vc_is_symbolic());
  vc_check("bus voltage stays within the constant-voltage limit", U <= cv + 1e-9 * !vc_is_symbolic());
  // natural current solves the power balance I (V + I R) = generation - load
  double bal = I * (V + I * R) - (gen - load), tol = vc_is_symbolic() ? 0 : 1e-6;
  vc_check("power balances unless a charging limit is active", (bal <= tol && bal >= -tol) || I == cc || vc_abs(I - lim) <= tol);
  vc_check("a charging limit only ever reduces the charge", bal <= tol || V + 2 * I * R < 0);
}
