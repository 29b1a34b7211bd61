// VC-SOURCES: components/base/component.cpp components/ports/power_port.cpp environment/global/clock_generator.cpp components/real/aocs/gnss_receiver.cpp math_physics/math/vector.cpp math_physics/math/quaternion.cpp
// VC-REPLACE: s2e::math::Quaternion::FrameConversion WITH vc_turn
// VC-REPLACE: s2e::math::Quaternion::InverseFrameConversion WITH vc_back
// VC-REPLACE: ~s2e::math::Vector<3ul, double>::CalcNorm\(.* WITH vc_norm
// VC-REPLACE: asin WITH vc_asin
// VC-REPLACE: acos WITH vc_acos
#include "vc_noise.hpp"
#include "setting_file_reader/initialize_file_access.hpp"
#include "components/real/aocs/gnss_receiver.hpp"
using namespace s2e; using namespace s2e::components;
template <class T> static T* raw() { return (T*)::operator new(sizeof(T)); }
static V3 g_fixed, g_sat[5]; static int g_geodetic;
namespace s2e::geodesy { GeodeticPosition::GeodeticPosition() {} void GeodeticPosition::UpdateFromEcef(const math::Vector<3> p) { g_geodetic++; g_fixed = p; } }
namespace s2e::environment { V3 GnssSatellites::GetPosition_ecef_m(const size_t i, const time_system::EpochTime) const { return g_sat[i]; } }
double AcTan(double y, double x) { double a[2] = {y, x}; if (vc_is_symbolic()) return vc_uf("actan", 2, a); double r = std::atan2(y, x); return r < 0 ? r + 2 * M_PI : r; }
// directions turned between the frames (C02 decides the turning), lengths and angles are known
static Q4 g_b2c, g_i2b; static V3 g_ant_b, g_ant_i, g_off_b, g_off_i, g_here, g_los[5], g_los_b[5], g_los_c[5]; static double g_r, g_rho[5], g_cos[5], g_angle[5], g_edge; static int g_sats, g_last;
static bool is(const V3& v, const V3& w) { double a[3] = {v[0], v[1], v[2]}, b[3] = {w[0], w[1], w[2]}; return vc_same(a, b, 3); }
static bool isq(const Q4& v, const Q4& w) { double a[4] = {v[0], v[1], v[2], v[3]}, b[4] = {w[0], w[1], w[2], w[3]}; return vc_same(a, b, 4); }
extern "C" void vc_back(V3* r, const Q4* q, const V3* v) {
  if (isq(*q, g_b2c) && is(*v, vec3(0, 0, 1))) { *r = g_ant_b; return; }
  if (isq(*q, g_i2b) && is(*v, g_ant_b)) { *r = g_ant_i; return; }
  if (isq(*q, g_i2b) && is(*v, g_off_b)) { *r = g_off_i; return; }
  vc_check("seen satellites are those listed, in their order", false);
}
extern "C" void vc_turn(V3* r, const Q4* q, const V3* v) {
  for (int i = 0; i < g_sats; i++) { if (isq(*q, g_i2b) && is(*v, g_los[i])) { *r = g_los_b[i]; return; } if (isq(*q, g_b2c) && is(*v, g_los_b[i])) { *r = g_los_c[i]; return; } }
  vc_check("seen satellites are those listed, in their order", false);
}
extern "C" double vc_norm(const V3* v) { if (is(*v, g_here)) return g_r; for (int i = 0; i < g_sats; i++) if (is(*v, g_los[i])) { g_last = i; return g_rho[i]; } return std::sqrt(dot3(*v, *v)); }
extern "C" double vc_asin(double x) { vc_eq("limb of the Earth as seen from the antenna", x, 6378136.6 / g_r); return g_edge; }
extern "C" double vc_acos(double x) { vc_eq("angle of the satellite from the centre of the Earth", x, g_cos[g_last]); return g_angle[g_last]; }
static dynamics::Dynamics* g_dynamics; static environment::SimulationTime* g_time; static environment::GnssSatellites* g_gnss;
struct AnyOrbit : dynamics::orbit::Orbit { using Orbit::Orbit; void Propagate(const double, const double) override {} };
static void world(V3 pos, int n) {
  g_dynamics = raw<dynamics::Dynamics>(); g_dynamics->attitude_ = raw<dynamics::attitude::Attitude>(); g_dynamics->orbit_ = (dynamics::orbit::Orbit*)raw<AnyOrbit>();
  g_dynamics->attitude_->quaternion_i2b_ = g_i2b = any_unit_quat("attitude"); g_b2c = any_unit_quat("mounting"); g_dynamics->orbit_->spacecraft_position_i_m_ = pos;
  g_dynamics->orbit_->spacecraft_position_ecef_m_ = any_vec_in("position", -10, 10); g_dynamics->orbit_->spacecraft_velocity_ecef_m_s_ = any_vec_in("velocity", -10, 10); g_off_b = any_vec_in("antenna", -10, 10);
  g_time = raw<environment::SimulationTime>(); g_time->current_jd_ = 2444244.5; g_time->current_utc_ = {2000, 1, 2, 3, 4, 5.0};
  auto* er = raw<environment::EarthRotation>(); er->dcm_j2000_to_ecef_ = math::MakeIdentityMatrix<3>(); g_gnss = new environment::GnssSatellites(*er, true, false); g_gnss->number_of_calculated_gnss_satellites_ = (size_t)n;
  g_sats = n; if (vc_is_symbolic()) { g_ant_b = any_vec("antenna b"); g_ant_i = any_vec("antenna i"); g_off_i = any_vec("offset i"); }
  else { g_ant_i = spec_b2i(g_i2b, spec_b2i(g_b2c, vec3(0, 0, 1))); g_off_i = spec_b2i(g_i2b, g_off_b); }
}
PROP(solution) {
  environment::ClockGenerator clk; V3 pos = any_vec_in("position i", -7e6, 7e6), sp, sv; for (int i = 0; i < 3; i++) { sp[i] = any_pos("position noise", 0.01 + 2 * i, 1 + 2 * i); sv[i] = any_pos("velocity noise", 10 + 2 * i, 11 + 2 * i); }
  world(pos, 0); GnssReceiver g(1, &clk, 0, AntennaModel::kSimple, g_off_b, g_b2c, 60, sp, sv, g_dynamics, g_gnss, g_time);
  V3 last = any_vec_in("last position", -10, 10), lastv = any_vec_in("last velocity", -10, 10); g.position_ecef_m_ = last; g.velocity_ecef_m_s_ = lastv; g_n = g_geodetic = 0;
  double up = dot3(pos, g_ant_i); if (!vc_is_symbolic() && std::fabs(up) < 1) return; g.MainRoutine((int)vc_int("time", 0, 1000000)); bool v = up > 0;
  vc_check("simple antenna sees the satellites when it points away from the Earth", g.is_gnss_visible_ == v);
  if (v) {
    vc_check("noise of its own for every axis", g_n == 6 && own_sources(0, 6));
    V3 p = g_dynamics->orbit_->spacecraft_position_ecef_m_, u = g_dynamics->orbit_->spacecraft_velocity_ecef_m_s_;
    for (int i = 0; i < 3; i++) { vc_eq("position with its noise", g.GetMeasuredPosition_ecef_m()[i], p[i] + sp[i] * unit_of(sp[i])); vc_eq("velocity with its noise", g.GetMeasuredVelocity_ecef_m_s()[i], u[i] + sv[i] * unit_of(sv[i])); }
    EQ3("geodetic position is that of the measured one", g_fixed, g.GetMeasuredPosition_ecef_m()); vc_check("geodetic position is that of the measured one", g_geodetic >= 1);
  } else { EQ3("no new solution without satellites", g.GetMeasuredPosition_ecef_m(), last); EQ3("no new solution without satellites", g.GetMeasuredVelocity_ecef_m_s(), lastv); vc_check("no new solution without satellites", g_geodetic == 0); }
  vc_check("time is that of the simulation", g.utc_.year == 2000 && g.utc_.month == 1 && g.utc_.day == 2 && g.utc_.hour == 3 && g.utc_.minute == 4 && g.utc_.second == 5.0);
}
PROP(time) {
  environment::ClockGenerator clk; world(vec3(0, 0, 0), 0); GnssReceiver g(1, &clk, 0, AntennaModel::kSimple, g_off_b, g_b2c, 60, vec3(0, 0, 0), vec3(0, 0, 0), g_dynamics, g_gnss, g_time);
  double d = vc_real_in("days", 0, 100000); g_time->current_jd_ = 2444244.5 + d; g.MainRoutine(0);
  double w = (double)g.gps_time_week_, s = g.gps_time_s_, tol = vc_is_symbolic() ? 0 : 1e-3;
  vc_eqs("week and time of week are the time since 6 January 1980", w * 604800 + s, d * 86400, 1e10); vc_check("time of week is within a week", s >= -tol && s < 604800 + tol);
}
// satellites 0..n-1 as seen by the cone antenna; all in the hemisphere of the receiver when above is set
static void cone(int n, bool above) {
  bool sym = vc_is_symbolic(), seen[5]; environment::ClockGenerator clk; V3 pos = sym ? any_vec("position i") : scale3(vc_real_in("radius", 6.8e6, 8e6), any_unit3("direction")); world(pos, n); double hw = any_real("half width", 10, 90);
  V3 here = add3(pos, g_off_i); g_here = here; double c = std::cos(hw * math::deg_to_rad); int count = 0;
  if (sym) { g_r = any_pos("radius", 1, 2); g_edge = vc_real_in("limb", 0, M_PI / 2); } else { g_r = norm3(here); g_edge = std::asin(6378136.6 / g_r); }
  for (int i = 0; i < n; i++) {
    V3 s = sym ? any_vec("satellite") : scale3(2.6e7, any_unit3("satellite")); if (!sym && above && dot3(s, here) < 0) s = scale3(-1, s); g_sat[i] = s; V3 los = sub3(s, here); g_los[i] = los;
    if (sym) {
      g_rho[i] = any_pos("range", 1, 2); g_los_b[i] = any_vec("sight b"); g_los_c[i] = any_vec("sight c"); g_angle[i] = vc_real_in("angle", 0, M_PI); g_cos[i] = -dot3(here, los) / g_r / g_rho[i];
    } else { g_rho[i] = norm3(los); g_los_c[i] = spec_i2b(g_b2c, spec_i2b(g_i2b, los)); g_angle[i] = std::acos(std::max(-1.0, std::min(1.0, -dot3(here, los) / g_r / g_rho[i]))); }
    double side = dot3(here, s), in = 0; for (int j = 0; j < 3; j++) in += g_ant_i[j] * (los[j] / g_rho[i]);
    if (above) vc_assume(side > 0);
    if (!sym && (std::fabs(in - c) < 1e-9 || std::fabs(g_angle[i] - g_edge) < 1e-9)) return;
    bool hidden = !(side > 0) && g_angle[i] <= g_edge; seen[i] = in > c && !hidden;
  }
  GnssReceiver g(1, &clk, 0, AntennaModel::kCone, g_off_b, g_b2c, hw, vec3(0, 0, 0), vec3(0, 0, 0), g_dynamics, g_gnss, g_time); g.gnss_information_list_.resize(3);
  g_quiet = true; g_n = 0; g.MainRoutine(0);
  for (int i = 0; i < n; i++) if (seen[i]) {
    vc_check("every satellite in the cone and not behind the Earth is seen", (int)g.gnss_information_list_.size() > count); if ((int)g.gnss_information_list_.size() <= count) return;
    GnssInfo I = g.GetGnssInfo((size_t)count); count++; V3 d = g_los_c[i]; vc_check("seen satellites are those listed, in their order", I.gnss_id == (size_t)i);
    vc_eqs("distance, longitude and latitude from the antenna", I.distance_m, g_rho[i], 1e8); vc_eq("distance, longitude and latitude from the antenna", I.longitude_rad, AcTan(d[1], d[0])); vc_eq("distance, longitude and latitude from the antenna", I.latitude_rad, AcTan(d[2], std::sqrt(d[0] * d[0] + d[1] * d[1])));
  }
  vc_check("no other satellite is seen", (int)g.gnss_information_list_.size() == count && (int)g.visible_satellite_number_ == count);
  vc_check("a solution takes four satellites", g.is_gnss_visible_ == (count >= 4));
}
PROP(cone) { vc_assumption("at most two satellites of any place, five in the hemisphere of the receiver (bounded)"); long n = vc_int("satellites", 0, 3); if (n == 0) cone(0, false); else if (n == 1) cone(1, false); else if (n == 2) cone(2, false); else cone(5, true); }
