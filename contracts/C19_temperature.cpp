// VC-SOURCES: dynamics/thermal/temperature.cpp dynamics/thermal/heater.cpp dynamics/thermal/heater_controller.cpp math_physics/math/vector.cpp
// VC-REPLACE: ~s2e::math::Vector<3ul, double>::CalcNorm\(.* WITH vc_norm
#include "vc_s2e.hpp"
#include "setting_file_reader/initialize_file_access.hpp"
#include "dynamics/thermal/temperature.hpp"
#include "environment/global/physical_constants.hpp"
using namespace s2e; using namespace s2e::dynamics::thermal;
template <class T> static T* raw() { return (T*)::operator new(sizeof(T)); }
INIReader::INIReader(const std::string&) {}
namespace s2e::setting_file_reader { IniAccess::IniAccess(const std::string f) : ini_reader_(f) {} double IniAccess::ReadDouble(const char*, const char*) { return 0; } bool IniAccess::ReadEnable(const char*, const char*) { return false; } std::string IniAccess::ReadString(const char*, const char*) { return ""; } void IniAccess::ReadCsvString(std::vector<std::vector<std::string>>&, const size_t) {} void IniAccess::ReadCsvDoubleWithHeader(std::vector<std::vector<double>>&, const size_t, const size_t, const size_t) {} }
// what the Sun and the Earth give to a face and what is dissipated inside are decided elsewhere; here any value for each node
static V3 g_sun, g_earth; static double g_sun_norm, g_flux, g_albedo, g_infrared, g_time; static bool g_wrong; static double g_in[3][4];
namespace s2e::environment { V3 LocalCelestialInformation::GetPositionFromSpacecraft_b_m(const char* n) const { if (n[0] == 'S' && n[1] == 'U' && n[2] == 'N' && n[3] == 0) return g_sun; if (!(n[0] == 'E' && n[1] == 'A' && n[2] == 'R' && n[3] == 'T' && n[4] == 'H' && n[5] == 0)) g_wrong = true; return g_earth; } }
static bool near(double a, double b) { if (vc_is_symbolic()) return vc_near(a, b); return std::fabs(a - b) <= 1e-9 * (1 + std::fabs(b)); }
static bool near(const V3& v, const V3& w) { return near(v[0], w[0]) && near(v[1], w[1]) && near(v[2], w[2]); } static bool sunward(const V3& v) { V3 a, b; for (int i = 0; i < 3; i++) { a[i] = g_sun[i] * (1 / g_sun_norm); b[i] = g_sun[i] / g_sun_norm; } return near(v, a) || near(v, b); }
extern "C" double vc_norm(const V3* v) { if (near(*v, g_sun)) return g_sun_norm; double a[3] = {(*v)[0], (*v)[1], (*v)[2]}; double n = vc_uf("norm", 3, a); vc_assume(n > 0); return n; }
namespace s2e::dynamics::thermal {
Node::Node(const size_t id, const std::string, const NodeType type, const size_t heater, const double T, const double C, const double, const double, const double, math::Vector<3>) : node_id_(id), heater_id_(heater), temperature_K_(T), capacity_J_K_(C), node_type_(type) {}
Node::~Node() {} void Node::PrintParam() {} Node InitNode(const std::vector<std::string>&) { return Node(0, "", NodeType::kDiffusive, 0, 0, 0, 0, 0, 0, math::Vector<3>(0.0)); } Heatload InitHeatload(const std::vector<std::string>&, const std::vector<std::string>&) { return Heatload(0, {}, {}); }
double Node::CalcSolarRadiation_W(math::Vector<3> s, double f) { if (!sunward(s) || !near(f, g_flux)) g_wrong = true; return solar_radiation_W_ = g_in[node_id_][0]; }
double Node::CalcAlbedoRadiation_W(math::Vector<3> e, math::Vector<3> s, double f) { if (!sunward(s) || !near(e, g_earth) || !near(f, g_albedo)) g_wrong = true; return albedo_radiation_W_ = g_in[node_id_][1]; }
double Node::CalcEarthInfraredRadiation_W(math::Vector<3> e, double f) { if (!near(e, g_earth) || !near(f, g_infrared)) g_wrong = true; return earth_infrared_W_ = g_in[node_id_][2]; }
Heatload::Heatload(int id, std::vector<double>, std::vector<double>) { node_id_ = (unsigned)id; elapsed_time_s_ = -1; solar_heatload_W_ = albedo_heatload_W_ = earth_infrared_heatload_W_ = internal_heatload_W_ = heater_heatload_W_ = total_heatload_W_ = 0; } Heatload::~Heatload() {}
void Heatload::SetElapsedTime_s(double t) { elapsed_time_s_ = t; } void Heatload::CalcInternalHeatload() { if (!near(elapsed_time_s_, g_time)) g_wrong = true; internal_heatload_W_ = g_in[node_id_][3]; }
}
struct Any { double T[3], C[3], G[3][3], R[3][3], P[2]; bool fixed[3], solar; Temperature* t; };
static void make(Any& a, double step) {
  std::vector<std::vector<double>> G, R; std::vector<Node> nodes; std::vector<Heatload> loads; std::vector<Heater> heaters; std::vector<HeaterController> controllers; long boundary = vc_int("boundary node", 0, 3);
  for (int i = 0; i < 3; i++) {
    a.T[i] = any_real("temperature", 100, 400); vc_assume(a.T[i] >= 0); a.C[i] = any_pos("capacity", 10, 100); a.fixed[i] = boundary == i; std::vector<double> g, r; for (int j = 0; j < 3; j++) { g.push_back(a.G[i][j] = any_real("conductance", 0, 1)); r.push_back(a.R[i][j] = any_real("coupling", 0, 0.1)); } G.push_back(g); R.push_back(r); for (int k = 0; k < 4; k++) g_in[i][k] = any_real("input", 0, 10);
    size_t heater = 0; if (i == 0) heater = 2; if (i == 2) heater = 1; NodeType type = NodeType::kDiffusive; if (a.fixed[i]) type = NodeType::kBoundary; nodes.push_back(Node((size_t)i, "", type, heater, a.T[i], a.C[i], 0, 0, 0, math::Vector<3>(0.0))); loads.push_back(Heatload(i, {}, {}));
  }
  for (int i = 0; i < 2; i++) { a.P[i] = any_pos("power", 0.1, 10); Heater h((size_t)(i + 1), a.P[i]); heaters.push_back(h); double lo = any_real("threshold", -50, 50); controllers.push_back(HeaterController(lo, lo + any_pos("width", 1, 20))); }
  g_sun = any_vec("Sun"); g_earth = any_vec("Earth"); g_sun_norm = vc_is_symbolic() ? any_pos("distance of the Sun", 1, 2) : norm3(g_sun); vc_assume(g_sun_norm > 1e-6); g_wrong = false; a.solar = vc_int("light considered", 0, 1) == 1;
  auto* srp = raw<environment::SolarRadiationPressureEnvironment>(); srp->solar_radiation_pressure_N_m2_ = any_real("pressure", 0, 1e-5); srp->shadow_coefficient_ = vc_real_in("shadow", 0, 1); g_flux = srp->GetPowerDensity_W_m2(); auto* al = raw<environment::EarthAlbedo>(); g_albedo = al->earth_albedo_W_m2_ = any_real("albedo", 0, 300); auto* ir = raw<environment::EarthInfrared>(); g_infrared = ir->earth_infrared_W_m2_ = any_real("infrared", 0, 300);
  SolarCalcSetting s = SolarCalcSetting::kDisable; if (a.solar) s = SolarCalcSetting::kEnable; a.t = new Temperature(G, R, nodes, loads, heaters, controllers, 3, step, srp, al, ir, true, s, false);
}
PROP(balance) {
  // heat stored by a node is what it gets from the other nodes, from outside, from inside and from its heater, at the temperatures asked for
  Any a; make(a, 1); bool on[2]; for (int i = 0; i < 2; i++) { on[i] = vc_int("heater on", 0, 1) == 1; if (on[i]) a.t->heaters_[i].SetHeaterStatus(HeaterStatus::kOn); } auto* l = raw<environment::LocalCelestialInformation>(); g_time = any_real("time", 0, 1000); std::vector<double> T; for (int i = 0; i < 3; i++) { double x = any_real("stage", 100, 400); vc_assume(x >= 0); T.push_back(x); }
  std::vector<double> d = a.t->CalcTemperatureDifferentials(T, g_time, l, 3); double s = environment::stefan_boltzmann_constant_W_m2K4; vc_check("light of the Sun and the Earth at this time", d.size() == 3 && !g_wrong);
  for (int i = 0; i < 3; i++) {
    if (a.fixed[i]) { vc_eq("boundary keeps its temperature", d[i], 0); continue; } double Q = g_in[i][2] + g_in[i][3]; if (a.solar) Q += g_in[i][0] + g_in[i][1]; if (i == 0 && on[1]) Q += a.P[1]; if (i == 2 && on[0]) Q += a.P[0];
    vc_eq("sum of all heat loads of the node", a.t->heatloads_[i].GetTotalHeatload_W(), Q); for (int j = 0; j < 3; j++) { double p = T[j] * T[j] * T[j] * T[j] - T[i] * T[i] * T[i] * T[i]; Q += a.G[i][j] * (T[j] - T[i]) + s * a.R[i][j] * p; } vc_eq("heat balance of the node", d[i] * a.C[i], Q);
  }
}
