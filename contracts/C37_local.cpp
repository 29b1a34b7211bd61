// VC-SOURCES: environment/local/local_celestial_information.cpp math_physics/math/vector.cpp math_physics/math/quaternion.cpp
#include "vc_s2e.hpp"
#include "vc_env.hpp"
using namespace s2e; using namespace s2e::math; using namespace s2e::environment;
int CelestialInformation::CalcBodyIdFromName(const char* n) const { return vc_env::id_of(n); }
extern "C" void bodc2n_c(int, int, char* n, int* f) { n[0] = 'X'; n[1] = 0; *f = 1; }
static V3 at(const double* a, int i) { return vec3(a[3 * i], a[3 * i + 1], a[3 * i + 2]); }
static const char* kName[] = {"SUN", "EARTH", "MOON"};
// spacecraft-centred and body-frame positions and velocities of every selected body
PROP(update) {
  vc_assumption("three selected bodies (bounded)");
  CelestialInformation* c = vc_env::global(); V3 r[3], v[3], sr = any_vec("r"), sv = any_vec("v"), w = any_vec("w"); Q4 q = any_unit_quat("q");
  for (int i = 0; i < 3; i++) { r[i] = any_vec("body r"); v[i] = any_vec("body v"); for (int j = 0; j < 3; j++) { c->celestial_body_position_from_center_i_m_[3 * i + j] = r[i][j]; c->celestial_body_velocity_from_center_i_m_s_[3 * i + j] = v[i][j]; } }
  LocalCelestialInformation l(c); l.UpdateAllObjectsInformation(sr, sv, q, w);
  for (int i = 0; i < 3; i++) {
    V3 d = sub3(r[i], sr), e = sub3(v[i], sv), db = spec_i2b(q, d), rb = spec_i2b(q, r[i]);
    EQ3("position relative to the spacecraft", l.GetPositionFromSpacecraft_i_m(kName[i]), d); EQ3("velocity relative to the spacecraft", at(l.celestial_body_velocity_from_spacecraft_i_m_s_, i), e);
    EQ3("body-frame position is the rotated inertial one", l.GetPositionFromSpacecraft_b_m(kName[i]), db); EQ3("body-frame position is the rotated inertial one", at(l.celestial_body_position_from_center_b_m_, i), rb);
    // transport theorem: rate of change seen in the rotating frame
    EQ3("body-frame velocity is the rate of the body-frame position", at(l.celestial_body_velocity_from_spacecraft_b_m_s_, i), sub3(spec_i2b(q, e), cross3(w, db)));
    EQ3("body-frame velocity is the rate of the body-frame position", at(l.celestial_body_velocity_from_center_b_m_s_, i), sub3(spec_i2b(q, v[i]), cross3(w, rb)));
  }
  EQ3("center body is found by its name", l.GetCenterBodyPositionFromSpacecraft_i_m(), sub3(r[1], sr)); EQ3("center body is found by its name", l.GetCenterBodyPositionFromSpacecraft_b_m(), spec_i2b(q, sub3(r[1], sr)));
}
// the rate of change itself: body-frame coordinates of a vector moving with velocity v while the frame turns with q' = q * (w, 0) / 2
PROP(velocity) {
  Q4 q = any_unit_quat("q"); V3 r = any_vec("r"), v = any_vec("v"), w = any_vec("w"); double ri[3], vi[3], vb[3], rb[3]; for (int i = 0; i < 3; i++) { ri[i] = r[i]; vi[i] = v[i]; }
  LocalCelestialInformation l(vc_env::global());
  l.ConvertVelocityInertialToBody(ri, vi, vb, q, w); l.ConvertInertialToBody(ri, rb, q);
  Q4 dq = spec_mul(q, Q4(0.5 * w[0], 0.5 * w[1], 0.5 * w[2], 0));
  // d/dt (q* r q) = dq* r q + q* v q + q* r dq
  Q4 qc(-q[0], -q[1], -q[2], q[3]), dqc(-dq[0], -dq[1], -dq[2], dq[3]), R4(r[0], r[1], r[2], 0), V4(v[0], v[1], v[2], 0);
  Q4 a = spec_mul(spec_mul(dqc, R4), q), b = spec_mul(spec_mul(qc, V4), q), e = spec_mul(spec_mul(qc, R4), dq);
  for (int i = 0; i < 3; i++) { vc_eq("body-frame velocity is the rate of the body-frame position", vb[i], a[i] + b[i] + e[i]); vc_eq("body-frame position is the rotated inertial one", rb[i], spec_i2b(q, r)[i]); }
}
// lookups of the global information
PROP(lookup) {
  CelestialInformation* c = vc_env::global(); V3 r[3], v[3], k[3]; double g[3], m[3];
  for (int i = 0; i < 3; i++) { r[i] = any_vec("r"); v[i] = any_vec("v"); k[i] = any_vec("radii"); g[i] = any_pos("gm", 1, 2); m[i] = any_pos("radius", 1, 2); c->celestial_body_gravity_constant_m3_s2_[i] = g[i]; c->celestial_body_mean_radius_m_[i] = m[i];
    for (int j = 0; j < 3; j++) { c->celestial_body_position_from_center_i_m_[3 * i + j] = r[i][j]; c->celestial_body_velocity_from_center_i_m_s_[3 * i + j] = v[i][j]; c->celestial_body_planetographic_radii_m_[3 * i + j] = k[i][j]; } }
  for (int i = 0; i < 3; i++) {
    EQ3("data of the named body", c->GetPositionFromCenter_i_m(kName[i]), r[i]); EQ3("data of the named body", c->GetVelocityFromCenter_i_m_s(kName[i]), v[i]); EQ3("data of the named body", c->GetRadiiFromName_m(kName[i]), k[i]);
    vc_check("data of the named body", c->GetGravityConstant_m3_s2(kName[i]) == g[i] && c->GetMeanRadiusFromName_m(kName[i]) == m[i]);
    for (int j = 0; j < 3; j++) { EQ3("relative to the named reference body", c->GetPositionFromSelectedBody_i_m(kName[i], kName[j]), sub3(r[i], r[j])); EQ3("relative to the named reference body", c->GetVelocityFromSelectedBody_i_m_s(kName[i], kName[j]), sub3(v[i], v[j])); }
  }
  vc_check("data of the center body", c->GetCenterBodyGravityConstant_m3_s2() == g[1]);
  long id = vc_int("unknown id", 3, 100000); V3 z = vec3(0, 0, 0);
  EQ3("a body that is not selected has no data", c->GetPositionFromCenter_i_m((unsigned)id), z); EQ3("a body that is not selected has no data", c->GetVelocityFromCenter_i_m_s((unsigned)id), z); EQ3("a body that is not selected has no data", c->GetRadii_m((unsigned)id), z);
}
