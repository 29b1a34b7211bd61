// VC-SOURCES: components/real/communication/ground_station_calculator.cpp components/real/communication/antenna.cpp math_physics/math/vector.cpp math_physics/math/quaternion.cpp
// VC-REPLACE: log10 WITH vc_log10
// VC-REPLACE: pow WITH vc_pow
// VC-REPLACE: acos WITH vc_acos
// VC-REPLACE: atan2 WITH vc_atan2
// VC-REPLACE: ~s2e::math::Vector<3ul, double>::CalcNorm\(.* WITH vc_norm
// VC-REPLACE: ~s2e::math::operator\*\(s2e::math::Quaternion const&, s2e::math::Quaternion const&\) WITH vc_mul
// VC-REPLACE: s2e::math::Quaternion::FrameConversion WITH vc_frame
#include "vc_s2e.hpp"
#include "setting_file_reader/initialize_file_access.hpp"
#include "components/real/communication/ground_station_calculator.hpp"
using namespace s2e; using namespace s2e::components; using s2e::math::Vector;
template <class T> static T* raw() { return (T*)::operator new(sizeof(T)); }
static bool g_other, g_lost; static double g_number[9]; static const char* const g_key[9] = {"loss_polarization_dB", "loss_atmosphere_dB", "loss_rainfall_dB", "loss_others_dB", "ebn0_dB", "hardware_deterioration_dB", "coding_gain_dB", "margin_requirement_dB", "downlink_bitrate_bps"};
INIReader::INIReader(const std::string&) {}
namespace s2e::setting_file_reader {
IniAccess::IniAccess(const std::string f) : ini_reader_(f) {} int IniAccess::ReadInt(const char*, const char*) { return 1; } bool IniAccess::ReadBoolean(const char*, const char*) { return true; } void IniAccess::ReadQuaternion(const char*, const char*, math::Quaternion&) {} std::string IniAccess::ReadString(const char*, const char*) { return ""; }
double IniAccess::ReadDouble(const char* s, const char* k) { if (std::string(s) == "GROUND_STATION_CALCULATOR") for (int i = 0; i < 9; i++) if (std::string(k) == g_key[i]) return g_number[i]; g_other = true; return 0; }
}
// two antennas: 0 on the spacecraft, looking at the station; 1 at the station, looking at the spacecraft.
// Line of sight in reference axes, its length, in carrier (body or local) axes, in antenna axes, and as angles
static V3 g_sight[2], g_carrier[2], g_antenna[2]; static double g_range[2], g_theta[2], g_phi[2], g_gain[2]; static Q4 g_carry[2], g_mount[2], g_total[2];
static bool near(const V3& v, const V3& w) { return vc_near(v[0], w[0]) && vc_near(v[1], w[1]) && vc_near(v[2], w[2]); }
static bool is(const Q4& a, const Q4& b) { double x[4] = {a[0], a[1], a[2], a[3]}, y[4] = {b[0], b[1], b[2], b[3]}; return vc_same(x, y, 4); }
static void set(V3* r, const V3& v) { for (int i = 0; i < 3; i++) (*r)[i] = v[i]; }
extern "C" double vc_norm(const V3* v) { for (int k = 0; k < 2; k++) if (near(*v, g_sight[k]) || near(*v, scale3(-1, g_sight[k]))) return g_range[k]; double a[3] = {(*v)[0], (*v)[1], (*v)[2]}; double n = vc_uf("norm", 3, a); vc_assume(n > 0); return n; }
extern "C" void vc_mul(Q4* r, const Q4* a, const Q4* b) { Q4 x = spec_mul(*a, *b); for (int k = 0; k < 2; k++) if (is(*a, g_carry[k]) && is(*b, g_mount[k])) x = g_total[k]; for (int i = 0; i < 4; i++) (*r)[i] = x[i]; }
extern "C" void vc_frame(V3* r, const Q4* q, const V3* v) {
  for (int k = 0; k < 2; k++) { V3 u, w; for (int i = 0; i < 3; i++) { u[i] = g_sight[k][i] * (1 / g_range[k]); w[i] = g_sight[k][i] / g_range[k]; } bool on = near(*v, u) || near(*v, w); if (is(*q, g_total[k]) && on) { set(r, g_antenna[k]); return; } if (is(*q, g_carry[k]) && on) { set(r, g_carrier[k]); return; } if (is(*q, g_mount[k]) && near(*v, g_carrier[k])) { set(r, g_antenna[k]); return; } }
  g_lost = true; set(r, spec_i2b(*q, *v));
}
extern "C" double vc_acos(double x) { for (int k = 0; k < 2; k++) if (vc_same(&x, &g_antenna[k][2], 1)) return g_theta[k]; g_lost = true; return 0; }
extern "C" double vc_atan2(double y, double x) { for (int k = 0; k < 2; k++) if (vc_same(&y, &g_antenna[k][1], 1) && vc_same(&x, &g_antenna[k][0], 1)) return g_phi[k]; g_lost = true; return 0; }
static double g_path, g_path_log, g_bitrate, g_bitrate_log, g_spare, g_fastest, g_power, g_temperature;
extern "C" double vc_log10(double x) { if (vc_same(&x, &g_power, 1) || vc_same(&x, &g_temperature, 1)) return vc_uf("log10", 1, &x); double k = environment::boltzmann_constant_J_K; if (vc_same(&x, &k, 1)) return -22.859916717321767; if (vc_same(&x, &g_bitrate, 1)) return g_bitrate_log; vc_eq("free space loss of the distance", x, g_path); return g_path_log; }
extern "C" double vc_pow(double b, double e) { vc_eq("bitrate of the spare margin", b, 10); vc_eq("bitrate of the spare margin", e, g_spare / 10); return g_fastest; }
// gain of the table in a direction (its cells are decided elsewhere); the tables are known by their largest angle
s2e::components::AntennaRadiationPattern::AntennaRadiationPattern() : length_theta_(1), length_phi_(1), theta_max_rad_(1), phi_max_rad_(1) {} s2e::components::AntennaRadiationPattern::~AntennaRadiationPattern() {}
s2e::components::AntennaRadiationPattern::AntennaRadiationPattern(const std::string, const size_t, const size_t, const double t, const double p) : length_theta_(1), length_phi_(1), theta_max_rad_(t), phi_max_rad_(p) {}
double s2e::components::AntennaRadiationPattern::GetGain_dBi(const double t, const double p) const {
  if (!vc_is_symbolic()) return theta_max_rad_ + 2 * t + std::sin(t) * (3 * std::sin(p) + std::cos(p)); for (int k = 0; k < 2; k++) if (vc_same(&t, &g_theta[k], 1) && vc_same(&p, &g_phi[k], 1) && theta_max_rad_ == 2.0 + k) return g_gain[k]; g_lost = true; return 0;
}
struct AnyOrbit : dynamics::orbit::Orbit { using Orbit::Orbit; void Propagate(const double, const double) override {} };
struct AnyAttitude : dynamics::attitude::Attitude { using Attitude::Attitude; void Propagate(const double) override {} };
PROP(link) {
  bool sym = vc_is_symbolic(); for (int i = 0; i < 9; i++) { g_number[i] = any_real("setting", i < 4 ? -5 : 0, i < 4 ? 0 : 5); if (i >= 4) vc_assume(g_number[i] >= 0); }
  auto* s = raw<spacecraft::Spacecraft>(); auto* d = raw<dynamics::Dynamics>(); auto* o = raw<AnyOrbit>(); auto* t = raw<AnyAttitude>(); auto* g = raw<ground_station::GroundStation>(); *(void**)&d->orbit_ = o; *(void**)&d->attitude_ = t; *(void**)&s->dynamics_ = d; *(unsigned*)&s->spacecraft_id_ = 1; new (&g->is_visible_) std::map<int, bool>(); g->is_visible_[0] = true;
  V3 ri, gi, re, ge; gi = any_vec("station"); ge = any_vec("station, fixed"); for (int k = 0; k < 2; k++) { g_carry[k] = any_unit_quat("attitude"); g_mount[k] = any_unit_quat("mounting"); }
  if (sym) { ri = any_vec("spacecraft"); re = any_vec("spacecraft, fixed"); } else { double r = any_pos("range", 1e5, 1e7); ri = add3(gi, scale3(r, any_unit3("direction"))); re = add3(ge, scale3(r, any_unit3("direction, fixed"))); }
  o->spacecraft_position_i_m_ = ri; o->spacecraft_position_ecef_m_ = re; g->position_i_m_ = gi; g->position_ecef_m_ = ge; t->quaternion_i2b_ = g_carry[0]; g->geodetic_position_.quaternion_xcxf_to_ltc_ = g_carry[1]; g_sight[0] = sub3(gi, ri); g_sight[1] = sub3(re, ge);
  g_power = any_pos("power", 0.1, 10); g_temperature = any_pos("temperature", 50, 500); g_bitrate = any_pos("bitrate", 100, 1e6); double f = any_pos("frequency", 100, 10000), lt = any_real("losses", -3, 0), lr = any_real("losses at the station", -3, 0);
  bool tables = vc_int("tables", 0, 1) == 1, tx = vc_int("transmits", 0, 1) == 1, rx = vc_int("receives", 0, 1) == 1; AntennaParameters p[2]; for (int k = 0; k < 2; k++) { p[k].gain_dBi_ = any_real("gain", 0, 20); p[k].loss_feeder_dB_ = k ? lr : lt; p[k].loss_pointing_dB_ = 0; p[k].antenna_gain_model = AntennaGainModel::kIsotropic; p[k].radiation_pattern = AntennaRadiationPattern("", 1, 1, 2.0 + k, 1); if (tables) p[k].antenna_gain_model = AntennaGainModel::kRadiationPatternCsv; }
  for (int k = 0; k < 2; k++) {
    if (sym) { g_range[k] = any_pos("range", 1, 2); g_carrier[k] = any_vec("sight on the carrier"); g_antenna[k] = any_vec("sight of the antenna"); g_total[k] = any_quat("total"); g_theta[k] = vc_real("theta"); g_phi[k] = vc_real("phi"); g_gain[k] = vc_real("gain of the table"); }
    else { g_range[k] = norm3(g_sight[k]); V3 a = spec_i2b(g_mount[k], spec_i2b(g_carry[k], scale3(1 / g_range[k], g_sight[k]))); g_theta[k] = std::acos(a[2]); g_phi[k] = std::atan2(a[1], a[0]); g_gain[k] = 2.0 + k + 2 * g_theta[k] + std::sin(g_theta[k]) * (3 * std::sin(g_phi[k]) + std::cos(g_phi[k])); }
  }
  double pl, tl, kl, b; g_path = 4 * M_PI * (g_range[0] / 1000) / (300 / f / 1000); if (sym) { g_path_log = vc_real("path loss"); g_bitrate_log = vc_real("bitrate in decades"); g_fastest = vc_real("fastest"); pl = vc_uf("log10", 1, &g_power); tl = vc_uf("log10", 1, &g_temperature); } else { g_path_log = std::log10(g_path); g_bitrate_log = std::log10(g_bitrate); pl = std::log10(g_power); tl = std::log10(g_temperature); } kl = -22.859916717321767;
  Antenna a(0, g_mount[0], tx, false, f, g_bitrate, g_power, p[0], g_temperature, p[1]), e(1, g_mount[1], false, rx, f, g_bitrate, g_power, p[0], g_temperature, p[1]); g_other = g_lost = false; GroundStationCalculator c = InitGsCalculator("link"); const double* n = g_number; vc_check("settings of the link", !g_other);
  vc_check("no link before the first update", c.GetMaxBitrate_Mbps() == 0 && c.GetReceiveMargin_dB() < -1000);
  double cn0 = 10 * pl + lt + (tables ? 0 : 0) + lr - 10 * tl - 20 * g_path_log + n[0] + n[1] + n[2] + n[3] - 10 * kl; for (int k = 0; k < 2; k++) { if (tables) cn0 += g_gain[k]; else cn0 += p[k].gain_dBi_; }
  double need = n[4] + n[5] + n[6]; g_spare = cn0 - need - n[7]; if (!sym) g_fastest = std::pow(10, g_spare / 10);
  for (int k = 0; k < 2; k++) {
    bool seen = vc_int("visible", 0, 1) == 1; g->is_visible_[1] = seen; c.Update(*s, a, *g, e);
    if (!seen) vc_check("no link while not visible", c.GetMaxBitrate_Mbps() == 0 && c.GetReceiveMargin_dB() < -1000);
    else if (!tx || !rx) vc_check("no data between antennas that do not fit", c.GetMaxBitrate_Mbps() == 0);
    else {
      vc_check("other end looked for in the axes of each antenna", !g_lost); vc_eq("margin of the received signal", c.GetReceiveMargin_dB(), cn0 - need - 10 * g_bitrate_log); if (sym) { if (g_spare > 0) vc_eq("fastest bitrate", c.GetMaxBitrate_Mbps(), g_fastest / 1e6); else vc_eq("fastest bitrate", c.GetMaxBitrate_Mbps(), 0); }
      else if (g_spare > 1e-6) { vc_eq("fastest bitrate", c.GetMaxBitrate_Mbps() / (g_fastest / 1e6), 1); } else if (g_spare < -1e-6) vc_eq("fastest bitrate", c.GetMaxBitrate_Mbps(), 0);
    }
  }
}
