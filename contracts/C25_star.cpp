// VC-SOURCES: components/base/component.cpp components/ports/power_port.cpp environment/global/clock_generator.cpp components/real/aocs/star_sensor.cpp math_physics/math/vector.cpp math_physics/math/quaternion.cpp
// VC-REPLACE: ~s2e::math::Vector<3ul, double>::CalcNorm\(.* WITH vc_norm
// VC-REPLACE: s2e::math::Quaternion::FrameConversion WITH vc_b2c
// VC-REPLACE: s2e::math::Quaternion::InverseFrameConversion WITH vc_c2b
// VC-REPLACE: asin WITH vc_asin
// VC-REPLACE: acos WITH vc_acos
#include "vc_noise.hpp"
#include "vc_env.hpp"
#include "setting_file_reader/initialize_file_access.hpp"
#include "components/real/aocs/star_sensor.hpp"
using namespace s2e; using namespace s2e::components;
template <class T> static T* raw() { return (T*)::operator new(sizeof(T)); }
static V3 g_body[3]; static bool g_name = true;
namespace s2e::environment { V3 LocalCelestialInformation::GetPositionFromSpacecraft_b_m(const char* n) const { int i = vc_env::id_of(n); if (i < 0) g_name = false; return g_body[i < 0 ? 0 : i]; } }
// the sight in the body frame: the x axis of the sensor turned back by the mounting (C02 decides the turning); lengths are known
static Q4 g_mount; static V3 g_sight, g_rate; static double g_dist[3], g_speed;
static void turned(V3* r, const Q4& q, const V3& v) {
  vc_check("sight is the x axis of the sensor", q[0] == g_mount[0] && q[1] == g_mount[1] && q[2] == g_mount[2] && q[3] == g_mount[3] && v[0] == 1 && v[1] == 0 && v[2] == 0); *r = g_sight;
}
extern "C" void vc_b2c(V3* r, const Q4* q, const V3* v) { turned(r, Q4(-(*q)[0], -(*q)[1], -(*q)[2], (*q)[3]), *v); }
extern "C" void vc_c2b(V3* r, const Q4* q, const V3* v) { turned(r, *q, *v); }
static bool is(const V3& v, const V3& w) { double a[3] = {v[0], v[1], v[2]}, b[3] = {w[0], w[1], w[2]}; return vc_same(a, b, 3); }
extern "C" double vc_norm(const V3* v) {
  for (int i = 0; i < 3; i++) if (is(*v, g_body[i])) return g_dist[i];
  if (is(*v, g_sight)) return 1; if (is(*v, g_rate)) return g_speed;
  return std::sqrt(dot3(*v, *v));
}
// angles of the geometry known by their cosine (separation from the sight) or sine (apparent radius of the Earth)
static double g_cos[3], g_angle[3], g_sin, g_radius;
extern "C" double vc_acos(double x) {  
  for (int i = 0; i < 3; i++) if (vc_same(&x, &g_cos[i], 1)) return g_angle[i];
  for (int i = 0; i < 3; i++) if (x == g_cos[i]) return g_angle[i];
  vc_check("error flag shows a body too close to the sight or too fast a rotation", false); return 0;
}
extern "C" double vc_asin(double x) { vc_eq("apparent radius of the Earth", x, g_sin); return g_radius; }
PROP(judgement) {
  bool sym = vc_is_symbolic(); environment::ClockGenerator clk; Q4 b2c = any_unit_quat("mounting"); V3 sight; double d[3], sep[3], rad, speed, R = 6378136.6, lim[3];
  if (sym) sight = any_vec("sight"); else sight = spec_b2i(b2c, vec3(1, 0, 0)); g_mount = b2c; g_sight = sight;
  auto* dyn = raw<dynamics::Dynamics>(); dyn->attitude_ = raw<dynamics::attitude::Attitude>(); dyn->attitude_->quaternion_i2b_ = Q4(0, 0, 0, 1); g_rate = any_vec_in("rate", -1, 1); dyn->attitude_->angular_velocity_b_rad_s_ = g_rate; double wl = any_pos("rate limit", 0.1, 1.5);
  auto* env = raw<environment::LocalEnvironment>(); env->celestial_information_ = raw<environment::LocalCelestialInformation>();
  if (sym) { g_speed = speed = vc_real_in("speed", 0, 2); } else speed = norm3(g_rate);
  for (int i = 0; i < 3; i++) {
    lim[i] = any_real("forbidden angle", 0.1, 1.5); d[i] = any_pos("distance", 6.4e6, i == 1 ? 3e7 : 4e8); if (i == 1) vc_assume(d[i] > R);
    if (!sym) { V3 u = any_unit3("direction"); g_body[i] = scale3(d[i], u); sep[i] = std::acos(std::max(-1.0, std::min(1.0, dot3(u, sight)))); continue; }
    g_body[i] = any_vec("position"); g_dist[i] = d[i]; g_cos[i] = 0; for (int j = 0; j < 3; j++) g_cos[i] += g_body[i][j] / d[i] * sight[j]; g_angle[i] = sep[i] = vc_real_in("separation", 0, M_PI); for (int j = 0; j < i; j++) vc_assume(g_cos[i] != g_cos[j] || g_angle[i] == g_angle[j]);
  }
  if (sym) { g_sin = R / d[1]; rad = g_radius = vc_real_in("apparent radius", 0, M_PI / 2); } else rad = std::asin(R / d[1]);
  StarSensor s(1, &clk, 0, b2c, 0, 0, 1, 0, 1, lim[0], lim[1], lim[2], wl, dyn, env);
  vc_check("flag raised before the first reading", s.GetErrorFlag());
  g_quiet = true; s.MainRoutine((int)vc_int("time", 0, 1000000)); bool e = s.GetErrorFlag(); vc_check("Sun, Earth and Moon are the bodies looked for", g_name);
  bool far = true, near = false; double m = sym ? 0 : 1e-6, x[4] = {lim[0] - sep[0], lim[1] - (sep[1] - rad), lim[2] - sep[2], speed - wl};
  for (int i = 0; i < 4; i++) { if (x[i] > m) near = true; if (x[i] > -m) far = far && sym && x[i] <= 0; }
  if (near) vc_check("error flag shows a body too close to the sight or too fast a rotation", e);
  if (far) vc_check("no error flag without a reason", !e);
}
