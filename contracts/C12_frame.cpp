// VC-SOURCES: dynamics/attitude/attitude.cpp dynamics/attitude/controlled_attitude.cpp math_physics/math/vector.cpp math_physics/math/quaternion.cpp math_physics/math/matrix_vector.cpp simulation/monte_carlo_simulation/simulation_object.cpp math_physics/geodesy/geodetic_position.cpp math_physics/math/s2e_math.cpp
// VC-REPLACE: ~.*s2e::math::InnerProduct<3.* WITH vc_inner
#include "vc_s2e.hpp"
#include "dynamics/attitude/controlled_attitude.hpp"
using namespace s2e::dynamics::attitude; using namespace s2e::math; using namespace s2e;
static ControlledAttitude* make(const M33& I, const Q4& q, const V3& m, const V3& s, AttitudeControlMode mm, AttitudeControlMode sm) { return new ControlledAttitude(mm, sm, q, m, s, I, geodesy::GeodeticPosition(0, 0, 0), nullptr, nullptr); }
static M33 dm(const char* n) { if (vc_is_symbolic()) return any_mat(n); M33 m; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) m[i][j] = i == j ? vc_real_in(n, 2, 5) : 0; return m; }
static V3 col(const M33& m, int j) { return vec3(m[0][j], m[1][j], m[2][j]); }
PROP(frame) {
  Q4 r = any_unit_quat("r"); V3 m = spec_b2i(r, vec3(1, 0, 0)), p = spec_b2i(r, vec3(0, 1, 0));
  double c = any_real("c", -1, 1), k = any_pos("k", 0.1, 1);
  M33 I = dm("I"); Q4 q0(0, 0, 0, 1);
  ControlledAttitude* a = make(I, q0, vec3(1, 0, 0), vec3(0, 1, 0), AttitudeControlMode::kInertialStabilize, AttitudeControlMode::kSunPointing);
  M33 d = a->CalcDcm(m, add3(scale3(c, m), scale3(k, p)));
  EQ3("first axis is the main direction", col(d, 0), m);
  EQ3("second axis completes the sub direction", col(d, 1), p);
  EQ3("third axis makes the frame right-handed", col(d, 2), spec_b2i(r, vec3(0, 0, 1)));
  delete a;
}
// angular velocity and torque reproduce the rotation between the previous and the current attitude
PROP(rate) {
  M33 I = dm("I"); Q4 q0 = any_unit_quat("previous"), q1 = any_unit_quat("current"); V3 w0; for (int i = 0; i < 3; i++) w0[i] = any_real("w0", -1, 1);
  ControlledAttitude* a = make(I, q0, vec3(1, 0, 0), vec3(0, 1, 0), AttitudeControlMode::kInertialStabilize, AttitudeControlMode::kSunPointing);
  V3 T; for (int i = 0; i < 3; i++) T[i] = any_real("T", -1, 1);
  double t0 = any_pos("t0", 0.1, 10), dt = any_pos("dt", 0.1, 3); bool first = vc_bool("first");
  if (!first) a->previous_calc_time_s_ = t0;
  a->previous_quaternion_i2b_ = q0; a->previous_omega_b_rad_s_ = w0; a->quaternion_i2b_ = q1; a->torque_b_Nm_ = T;
  a->CalcAngularVelocity(t0 + dt);
  V3 w = a->GetAngularVelocity_b_rad_s();
  Q4 d = spec_mul(Q4(-q0[0], -q0[1], -q0[2], q0[3]), q1); double s = d[3] < 0 ? -1 : 1;
  for (int i = 0; i < 3; i++) {
    if (first) { vc_check("no angular velocity before two attitudes are known", w[i] == 0); vc_eq("no control torque before two attitudes are known", a->torque_b_Nm_[i], T[i]); }
    else {
      vc_eq("angular velocity is the shortest rotation between the attitudes over the time", w[i] * dt, 2 * s * d[i]);
      double al = 0; for (int j = 0; j < 3; j++) al += I[i][j] * (w[j] - w0[j]);
      vc_eq("control torque is inertia times angular acceleration", (a->torque_b_Nm_[i] - T[i]) * dt, al);
    }
    vc_check("angular velocity is remembered", a->previous_omega_b_rad_s_[i] == w[i]);
  }
  for (int i = 0; i < 4; i++) vc_check("attitude is remembered and kept", a->previous_quaternion_i2b_[i] == q1[i] && a->quaternion_i2b_[i] == q1[i]);
  vc_check("time is remembered", a->previous_calc_time_s_ == t0 + dt);
  delete a;
}
// contract of the inner product (C02); within the settings its value is that of the unit directions
static V3 g_u, g_w; static double g_d; static bool g_use = false;
extern "C" double vc_inner(const V3* a, const V3* b) {
  double x = dot3(*a, *b); if (!g_use) return x;
  vc_eq("directions are compared after normalisation", x, dot3(g_u, g_w)); return g_d;
}
// keeps the compiler from folding the cosine
__attribute__((noinline, optnone)) static double opaque(double x) { return x; }
PROP(settings) {
  M33 I = dm("I"); V3 um = any_unit3("main"), us = any_unit3("sub"); double km = any_pos("main length", 0.1, 3), ks = any_pos("sub length", 0.1, 3); V3 m = scale3(km, um), s = scale3(ks, us);
  long mm = 0, sm = 0; while (mm < 7 && vc_bool("next main mode")) mm++; while (sm < 7 && vc_bool("next sub mode")) sm++;
  g_u = um; g_w = us; g_d = vc_is_symbolic() ? vc_real("cosine") : dot3(um, us); g_use = true;
  ControlledAttitude* a = make(I, Q4(0, 0, 0, 1), m, s, (AttitudeControlMode)mm, (AttitudeControlMode)sm);
  double d = g_d, L = cos(opaque(30.0 * s2e::math::deg_to_rad)); bool close = std::fabs(d) > L;
  bool ok = mm == 0 ? sm != 7 : mm != 7 && sm != 7 && mm != sm && !close;
  if (!vc_is_symbolic() && vc_abs(vc_abs(d) - L) < 1e-9) vc_assume(false);
  vc_check("pointing is refused for equal modes, no control, or directions closer than 30 degrees", a->is_calc_enabled_ == ok);
  if (ok && mm != 0) for (int i = 0; i < 3; i++) { vc_eq("main direction is normalised", a->main_target_direction_b_[i], um[i]); vc_eq("sub direction is normalised", a->sub_target_direction_b_[i], us[i]); }
  delete a;
}
PROP(set_directions) {
  M33 I = dm("I"); V3 um = any_unit3("main"), us = any_unit3("sub"); double km = any_pos("main length", 0.1, 3), ks = any_pos("sub length", 0.1, 3); V3 m = scale3(km, um), s = scale3(ks, us);
  ControlledAttitude* a = make(I, Q4(0, 0, 0, 1), vec3(1, 0, 0), vec3(0, 1, 0), AttitudeControlMode::kInertialStabilize, AttitudeControlMode::kSunPointing);
  a->SetMainTargetDirection_b(s); a->SetSubTargetDirection_b(m);
  for (int i = 0; i < 3; i++) { vc_eq("a new main direction is normalised", a->main_target_direction_b_[i], us[i]); vc_eq("a new sub direction is normalised", a->sub_target_direction_b_[i], um[i]); }
  delete a;
}
PROP(mode_names) {
  const char* n[] = {"INERTIAL_STABILIZE", "SUN_POINTING", "EARTH_CENTER_POINTING", "VELOCITY_DIRECTION_POINTING", "GROUND_SPEED_DIRECTION_POINTING", "ORBIT_NORMAL_POINTING", "EARTH_SURFACE_POINTING"};
  for (int i = 0; i < 7; i++) vc_check("mode name", ConvertStringToCtrlMode(n[i]) == (AttitudeControlMode)i);
  vc_check("unknown names control nothing", ConvertStringToCtrlMode("SUN_POINTING_") == AttitudeControlMode::kNoControl && ConvertStringToCtrlMode("") == AttitudeControlMode::kNoControl);
}
