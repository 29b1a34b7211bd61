// VC-SOURCES: dynamics/thermal/temperature.cpp dynamics/thermal/heater.cpp dynamics/thermal/heater_controller.cpp dynamics/thermal/node.cpp dynamics/thermal/heatload.cpp math_physics/math/vector.cpp
// VC-REPLACE: s2e::dynamics::thermal::Temperature::CalcRungeOneStep WITH vc_one
// VC-LOOP: s2e::dynamics::thermal::Temperature::Propagate WITH vc_inv_propagate
#include "vc_s2e.hpp"
#include "setting_file_reader/initialize_file_access.hpp"
#include "dynamics/thermal/temperature.hpp"
using namespace s2e; using namespace s2e::dynamics::thermal;
template <class T> static T* raw() { return (T*)::operator new(sizeof(T)); }
INIReader::INIReader(const std::string&) {}
namespace s2e::setting_file_reader { IniAccess::IniAccess(const std::string f) : ini_reader_(f) {} double IniAccess::ReadDouble(const char*, const char*) { return 0; } bool IniAccess::ReadEnable(const char*, const char*) { return false; } std::string IniAccess::ReadString(const char*, const char*) { return ""; } void IniAccess::ReadCsvString(std::vector<std::vector<std::string>>&, const size_t) {} void IniAccess::ReadCsvDoubleWithHeader(std::vector<std::vector<double>>&, const size_t, const size_t, const size_t) {} }
namespace s2e::environment { V3 LocalCelestialInformation::GetPositionFromSpacecraft_b_m(const char*) const { return vec3(7e6, 0, 0); } }
static Temperature* g_t; static double g_h, g_end, g_start;
static int gv_contiguous = 1, gv_full = 1, gv_any = 0; static double gv_t = 0, gv_dt = 0;
extern "C" void vc_one(Temperature*, double t, double dt, const void*, unsigned long n) { gv_contiguous = gv_contiguous & (t == gv_t) & (n == 1); gv_full = gv_full & ((gv_any == 0) | (gv_dt == g_h)); gv_any = 1; gv_dt = dt; gv_t = gv_t + dt; }
extern "C" void vc_inv_propagate(const double*, int) { vc_inv(gv_contiguous == 1); vc_inv(gv_full == 1); vc_inv((gv_any == 0) | (gv_any == 1)); vc_inv((gv_any == 0) | (gv_dt == g_h)); vc_inv(g_t->propagation_time_s_ == gv_t); vc_inv(gv_t < g_end); vc_inv((gv_any == 1) | (gv_t == g_start)); }
PROP(propagate) {
  double T = any_real("temperature", 250, 300), lo = any_real("lower", -10, 10), up = lo + any_pos("width", 1, 10), step = any_pos("step", 0.05, 0.5), t0 = any_real("start", 0, 10), dt = any_pos("interval", 0.1, 2), t1 = t0 + dt; vc_assume(T >= 0); vc_assume(dt > 1e-5); std::vector<Node> nodes; nodes.push_back(Node(0, "", NodeType::kDiffusive, 1, T, any_pos("capacity", 10, 50), 0, 0, 0, vec3(1, 0, 0)));
  std::vector<double> tt(2), w(2), z(1); tt[1] = 50; w[0] = any_real("heat", 0, 10); w[1] = any_real("heat", 0, 10); std::vector<Heatload> loads; loads.push_back(Heatload(0, tt, w)); std::vector<std::vector<double>> M; M.push_back(z); std::vector<Heater> heaters; heaters.push_back(Heater((size_t)1, any_pos("power", 1, 10))); std::vector<HeaterController> controllers; controllers.push_back(HeaterController(lo, up));
  auto* srp = raw<environment::SolarRadiationPressureEnvironment>(); srp->solar_radiation_pressure_N_m2_ = srp->shadow_coefficient_ = 0; auto* ir = raw<environment::EarthInfrared>(); ir->earth_infrared_W_m2_ = 0; bool on = vc_int("heater on", 0, 1) == 1, enabled = vc_int("calculation", 0, 1) == 1;
  g_t = new Temperature(M, M, nodes, loads, heaters, controllers, 1, step, srp, nullptr, ir, enabled, SolarCalcSetting::kDisable, false); if (on) g_t->heaters_[0].SetHeaterStatus(HeaterStatus::kOn); g_t->propagation_time_s_ = t0; g_h = step; g_end = t1; g_start = gv_t = t0; gv_any = 0; auto* l = raw<environment::LocalCelestialInformation>();
  if (!vc_is_symbolic()) {
    vc_assume(std::fabs(std::fmod(dt, step)) > 1e-3); Temperature* u = new Temperature(*g_t); u->is_calc_enabled_ = true; g_t->Propagate(l, t1); double t = t0; while (t1 - t - step > 1e-6) { u->CalcRungeOneStep(t, step, l, 1); t += step; } u->CalcRungeOneStep(t, t1 - t, l, 1); double x = u->GetNodes()[0].GetTemperature_K();
    if (!enabled) { vc_eq("nothing changes while the calculation is off", g_t->GetNodes()[0].GetTemperature_K(), T); return; } vc_eq("steps are contiguous to the requested time", g_t->GetNodes()[0].GetTemperature_K(), x); T = x;
  } else {
    vc_loop_field(&g_t->propagation_time_s_, 8); g_t->Propagate(l, t1); if (!enabled) { vc_check("nothing changes while the calculation is off", gv_any == 0 && (g_t->heaters_[0].GetHeaterStatus() == HeaterStatus::kOn) == on); return; }
    vc_check("steps are contiguous to the requested time", gv_contiguous == 1 && gv_any == 1 && gv_t == t1 && g_t->propagation_time_s_ == t1); vc_check("every step but the last has the step width", gv_full == 1 && gv_dt > 0 && gv_dt <= step + 1e-6);
  }
  double c = T - 273.15; if (on) { if (c > up) on = false; } else { if (c < lo) on = true; } vc_check("heater controlled with the temperature reached", (g_t->heaters_[0].GetHeaterStatus() == HeaterStatus::kOn) == on);
}
