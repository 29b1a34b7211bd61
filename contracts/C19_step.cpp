// VC-SOURCES: dynamics/thermal/temperature.cpp dynamics/thermal/heater.cpp dynamics/thermal/heater_controller.cpp dynamics/thermal/node.cpp dynamics/thermal/heatload.cpp math_physics/math/vector.cpp
// VC-REPLACE: s2e::dynamics::thermal::Temperature::CalcTemperatureDifferentials WITH vc_rate
#include "vc_s2e.hpp"
#include "setting_file_reader/initialize_file_access.hpp"
#include "dynamics/thermal/temperature.hpp"
using namespace s2e; using namespace s2e::dynamics::thermal;
template <class T> static T* raw() { return (T*)::operator new(sizeof(T)); }
INIReader::INIReader(const std::string&) {}
namespace s2e::setting_file_reader { IniAccess::IniAccess(const std::string f) : ini_reader_(f) {} double IniAccess::ReadDouble(const char*, const char*) { return 0; } bool IniAccess::ReadEnable(const char*, const char*) { return false; } std::string IniAccess::ReadString(const char*, const char*) { return ""; } void IniAccess::ReadCsvString(std::vector<std::vector<std::string>>&, const size_t) {} void IniAccess::ReadCsvDoubleWithHeader(std::vector<std::vector<double>>&, const size_t, const size_t, const size_t) {} }
namespace s2e::environment { V3 LocalCelestialInformation::GetPositionFromSpacecraft_b_m(const char*) const { return vec3(7e6, 0, 0); } }
// rates of change of two temperatures: any functions of temperatures and time (decided as heat balance)
static Temperature* g_t;
static void rates(double* r, double a, double b, double t) {
  if (vc_is_symbolic()) { double x[3] = {a, b, t}; r[0] = vc_uf("rate 0", 3, x); r[1] = vc_uf("rate 1", 3, x); return; }
  std::vector<double> v = g_t->CalcTemperatureDifferentials({a, b}, t, raw<environment::LocalCelestialInformation>(), 2); r[0] = v[0]; r[1] = v[1];
}
extern "C" void vc_rate(std::vector<double>* r, Temperature*, const std::vector<double>* T, double t, const void*, unsigned long n) { double x[2]; rates(x, (*T)[0], (*T)[1], t); new (r) std::vector<double>(n); (*r)[0] = x[0]; (*r)[1] = x[1]; }
PROP(step) {
  double T[2], c = any_real("conductance", 0, 1), s = any_real("coupling", 0, 0.1), t = any_pos("time", 0, 100), h = any_pos("step", 0.01, 5); std::vector<Node> nodes; std::vector<Heatload> loads;
  for (int i = 0; i < 2; i++) { T[i] = any_real("temperature", 100, 400); vc_assume(T[i] >= 0); nodes.push_back(Node((size_t)i, "", NodeType::kDiffusive, 0, T[i], any_pos("capacity", 10, 50), 0, 0, 0, vec3(1, 0, 0))); std::vector<double> tt(2), w(2); tt[0] = 0; tt[1] = 50; w[0] = any_real("heat", 0, 10); w[1] = any_real("heat", 0, 10); loads.push_back(Heatload(i, tt, w)); }
  std::vector<double> a(2), b(2), p(2), q(2); a[1] = b[0] = c; p[1] = q[0] = s; std::vector<std::vector<double>> G, R; G.push_back(a); G.push_back(b); R.push_back(p); R.push_back(q); auto* srp = raw<environment::SolarRadiationPressureEnvironment>(); srp->solar_radiation_pressure_N_m2_ = srp->shadow_coefficient_ = 0; auto* ir = raw<environment::EarthInfrared>(); ir->earth_infrared_W_m2_ = 0;
  g_t = new Temperature(G, R, nodes, loads, {}, {}, 2, 1, srp, nullptr, ir, true, SolarCalcSetting::kDisable, false);
  double k1[2], k2[2], k3[2], k4[2]; rates(k1, T[0], T[1], t); rates(k2, T[0] + h / 2 * k1[0], T[1] + h / 2 * k1[1], t + h / 2); rates(k3, T[0] + h / 2 * k2[0], T[1] + h / 2 * k2[1], t + h / 2); rates(k4, T[0] + h * k3[0], T[1] + h * k3[1], t + h);
  g_t->CalcRungeOneStep(t, h, raw<environment::LocalCelestialInformation>(), 2); std::vector<Node> n = g_t->GetNodes(); for (int i = 0; i < 2; i++) vc_eq("fourth-order Runge-Kutta step of all temperatures", n[i].GetTemperature_K(), T[i] + h / 6 * (k1[i] + 2 * k2[i] + 2 * k3[i] + k4[i]));
}
