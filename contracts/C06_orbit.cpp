// VC-SOURCES: dynamics/orbit/orbit.cpp math_physics/math/vector.cpp math_physics/math/quaternion.cpp math_physics/geodesy/geodetic_position.cpp math_physics/orbit/sgp4/sgp4ext.cpp math_physics/planet_rotation/moon_rotation_utilities.cpp
// VC-REPLACE: s2e::math::Quaternion::ConvertFromDcm WITH vc_from_dcm
// VC-REPLACE: s2e::geodesy::GeodeticPosition::UpdateFromEcef WITH vc_update
#include "vc_s2e.hpp"
#include "vc_env.hpp"
#include "dynamics/orbit/orbit.hpp"
#include "environment/global/physical_constants.hpp"
#include "math_physics/planet_rotation/moon_rotation_utilities.hpp"
using namespace s2e; using namespace s2e::environment; using namespace s2e::dynamics::orbit;
static M33 g_dcm; static int g_converted = 0; static Q4 g_q;
extern "C" void vc_from_dcm(Q4* r, const M33* m) { g_dcm = *m; g_converted++; g_q = any_unit_quat("converted"); *r = g_q; }
static V3 g_p; static int g_updates = 0;
extern "C" void vc_update(geodesy::GeodeticPosition* g, const V3* p) { g_p = *p; g_updates++; g->altitude_m_ = any_pos("altitude", 1, 2); }
int CelestialInformation::CalcBodyIdFromName(const char* n) const { return vc_env::id_of(n); }
namespace { struct AnyOrbit : Orbit { using Orbit::Orbit; void Propagate(const double, const double) override {} }; }
static M33 rotation(const Q4& q) { M33 r; for (int j = 0; j < 3; j++) { V3 c = spec_i2b(q, vec3(j == 0, j == 1, j == 2)); for (int i = 0; i < 3; i++) r[i][j] = c[i]; } return r; }
PROP(ecef) {
  CelestialInformation* c = vc_env::global(); Q4 q = any_unit_quat("earth"); M33 d = rotation(q); c->earth_rotation_->dcm_j2000_to_ecef_ = d;
  AnyOrbit o(c); V3 r = any_vec("r"), v = any_vec("v"); o.spacecraft_position_i_m_ = r; o.spacecraft_velocity_i_m_s_ = v; g_updates = 0;
  o.TransformEciToEcef();
  double w = environment::earth_mean_angular_velocity_rad_s;
  vc_check("the Earth turns once per sidereal day", w > 7.292e-5 && w < 7.2922e-5);
  EQ3("Earth-fixed position is the rotated position", o.GetPosition_ecef_m(), spec_i2b(q, r));
  EQ3("Earth-fixed velocity is relative to the rotating Earth", o.GetVelocity_ecef_m_s(), spec_i2b(q, vec3(v[0] + w * r[1], v[1] - w * r[0], v[2])));
  EQ3("the inertial state is unchanged", o.GetPosition_i_m(), r); EQ3("the inertial state is unchanged", o.GetVelocity_i_m_s(), v);
  if (vc_is_symbolic()) { o.TransformEcefToGeodetic(); vc_check("geodetic position follows the Earth-fixed one", g_updates == 1); EQ3("geodetic position follows the Earth-fixed one", g_p, o.GetPosition_ecef_m()); }
}
PROP(lvlh) {
  CelestialInformation* c = vc_env::global(); AnyOrbit o(c);
  Q4 f = any_unit_quat("frame"); double a = any_pos("a", 0.1, 10), b = any_pos("b", 0.1, 10), e = any_real("e", -5, 5);
  V3 x = spec_b2i(f, vec3(1, 0, 0)), y = spec_b2i(f, vec3(0, 1, 0)), z = spec_b2i(f, vec3(0, 0, 1));
  o.spacecraft_position_i_m_ = scale3(a, x); o.spacecraft_velocity_i_m_s_ = add3(scale3(e, x), scale3(b, y));
  g_converted = 0; Q4 q = o.CalcQuaternion_i2lvlh();
  if (vc_is_symbolic()) {
    vc_check("one frame matrix is converted", g_converted == 1);
    for (int j = 0; j < 3; j++) { vc_eq("local vertical axis is the position", g_dcm[0][j], x[j]); vc_eq("second axis is in the orbit plane along the motion", g_dcm[1][j], y[j]); vc_eq("third axis is the orbit normal", g_dcm[2][j], z[j]); }
    EQ4("the frame quaternion is the converted matrix", q, g_q);
  } else { EQ3("local vertical axis is the position", spec_i2b(q, x), vec3(1, 0, 0)); EQ3("third axis is the orbit normal", spec_i2b(q, z), vec3(0, 0, 1)); }
}
PROP(inputs) {
  CelestialInformation* c = vc_env::global(); AnyOrbit o(c); V3 a0 = any_vec("a0"), a1 = any_vec("a1"), f = any_vec("f"), v = any_vec("v"), r = any_vec("r"); double m = any_pos("m", 1, 100); Q4 q = any_unit_quat("q");
  o.spacecraft_position_i_m_ = r; o.spacecraft_velocity_i_m_s_ = v;
  o.SetAcceleration_i_m_s2(a0); EQ3("set acceleration", o.spacecraft_acceleration_i_m_s2_, a0);
  o.AddAcceleration_i_m_s2(a1); EQ3("added acceleration", o.spacecraft_acceleration_i_m_s2_, add3(a0, a1));
  o.AddForce_i_N(f, m); EQ3("force adds force over mass", sub3(o.spacecraft_acceleration_i_m_s2_, add3(a0, a1)), scale3(1 / m, f));
  o.SetAcceleration_i_m_s2(a0); o.AddForce_b_N(f, q, m); EQ3("body force is turned to the inertial frame", o.spacecraft_acceleration_i_m_s2_, add3(a0, scale3(1 / m, spec_b2i(q, f))));
  o.UpdateByAttitude(q); EQ3("body velocity is the rotated inertial velocity", o.GetVelocity_b_m_s(), spec_i2b(q, v)); EQ3("the inertial velocity is kept", o.GetVelocity_i_m_s(), v);
}
// Moon: the x axis of the mean-Earth frame points to the Earth, the z axis along the orbit normal
PROP(moon) {
  Q4 f = any_unit_quat("frame"); double a = any_pos("a", 0.1, 10), b = any_pos("b", 0.1, 10), e = any_real("e", -5, 5);
  V3 x = spec_b2i(f, vec3(1, 0, 0)), y = spec_b2i(f, vec3(0, 1, 0)), z = spec_b2i(f, vec3(0, 0, 1));
  V3 r = scale3(a, x), v = add3(scale3(e, x), scale3(b, y));
  M33 me = planet_rotation::CalcDcmEciToMeanEarth(r, v);
  for (int j = 0; j < 3; j++) { vc_eq("the Moon's prime meridian faces the Earth", me[0][j], -x[j]); vc_eq("the Moon's frame is right-handed", me[1][j], -y[j]); vc_eq("the Moon's axis is its orbit normal", me[2][j], z[j]); }
}
