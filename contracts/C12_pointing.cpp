// VC-SOURCES: dynamics/attitude/attitude.cpp dynamics/attitude/controlled_attitude.cpp math_physics/math/vector.cpp math_physics/math/quaternion.cpp math_physics/math/matrix_vector.cpp simulation/monte_carlo_simulation/simulation_object.cpp math_physics/geodesy/geodetic_position.cpp math_physics/math/s2e_math.cpp
// VC-REPLACE: s2e::math::Quaternion::ConvertFromDcm WITH vc_from_dcm
// VC-REPLACE: s2e::dynamics::attitude::ControlledAttitude::CalcTargetDirection_i WITH vc_direction
// VC-REPLACE: s2e::dynamics::attitude::ControlledAttitude::CalcDcm WITH vc_dcm
// VC-REPLACE: s2e::dynamics::attitude::ControlledAttitude::CalcAngularVelocity WITH vc_rate
#include "vc_s2e.hpp"
#include "dynamics/attitude/controlled_attitude.hpp"
using namespace s2e::dynamics::attitude; using namespace s2e::math; using namespace s2e;
static M33 g_dcm; static Q4 g_q; static int g_converted = 0, g_rates = 0; static double g_rate_t; static AttitudeControlMode g_main, g_sub; static int g_asked = 0;
static M33 g_i, g_b; static V3 g_smi, g_ssi, g_smb, g_ssb; static int g_dcms = 0;
static bool same(const V3& a, const V3& b) { return vc_same(&a[0], &b[0], 3); }
// contract of the conversion (C01): some unit quaternion for the given matrix
extern "C" void vc_from_dcm(Q4* r, const M33* m) { g_dcm = *m; g_converted++; g_q = any_unit_quat("converted"); *r = g_q; }
// contract of the direction (C12_direction): a vector belonging to the mode
extern "C" void vc_direction(V3* r, ControlledAttitude* a, AttitudeControlMode m) { g_asked++; vc_check("only the two selected modes are evaluated", (m == g_main) | (m == g_sub)); *r = m == g_main ? g_smi : g_ssi; }
// contract of the frame (proved below): a rotation whose first column is the main direction and whose second completes the sub direction
extern "C" void vc_dcm(M33* r, ControlledAttitude* a, const V3* m, const V3* s) {
  bool i = same(*m, g_smi) & same(*s, g_ssi), b = same(*m, g_smb) & same(*s, g_ssb);
  vc_check("frames are built from the main and sub directions", i || b); g_dcms++;
  *r = i ? g_i : g_b;
}
extern "C" void vc_rate(ControlledAttitude* a, double t) { g_rates++; g_rate_t = t; vc_check("angular velocity is derived after the attitude", g_converted == 1); }
// an arbitrary rotation matrix
static M33 any_rotation(const char* n) { Q4 q = any_unit_quat(n); M33 r; for (int j = 0; j < 3; j++) { V3 c = spec_b2i(q, vec3(j == 0, j == 1, j == 2)); for (int i = 0; i < 3; i++) r[i][j] = c[i]; } return r; }
static V3 col(const M33& m, int j) { return vec3(m[0][j], m[1][j], m[2][j]); }
PROP(pointing) {
  if (!vc_is_symbolic()) vc_assume(false);
  M33 I = any_mat("I"); double ki = any_pos("k_i", 0.1, 1), kb = any_pos("k_b", 0.1, 1), ci = any_real("c_i", -1, 1), cb = any_real("c_b", -1, 1);
  g_i = any_rotation("i"); g_b = any_rotation("b");
  g_smi = col(g_i, 0); g_smb = col(g_b, 0); g_ssi = add3(scale3(ci, g_smi), scale3(ki, col(g_i, 1))); g_ssb = add3(scale3(cb, g_smb), scale3(kb, col(g_b, 1)));
  Q4 q0 = any_unit_quat("q");
  ControlledAttitude a(AttitudeControlMode::kInertialStabilize, AttitudeControlMode::kSunPointing, q0, g_smb, g_ssb, I, geodesy::GeodeticPosition(0, 0, 0), nullptr, nullptr);
  double t = any_real("t", 0, 100); g_converted = 0;
  a.Propagate(t); 
  for (int i = 0; i < 4; i++) vc_check("inertial stabilisation keeps the attitude", a.GetQuaternion_i2b()[i] == q0[i]);
  long m = vc_int("main", 1, 6), s = vc_int("sub", 1, 6); vc_assume(m != s);
  g_main = (AttitudeControlMode)m; g_sub = (AttitudeControlMode)s; a.SetMainMode(g_main); a.SetSubMode(g_sub);
  a.Propagate(t); 
  vc_check("both directions and both frames are evaluated", g_asked == 2 && g_dcms == 2);
  vc_check("the attitude is converted from the pointing matrix", g_converted == 1 && g_rates == 1 && g_rate_t == t);
  for (int i = 0; i < 4; i++) vc_check("the attitude comes from the pointing matrix", a.GetQuaternion_i2b()[i] == g_q[i]);
  EQ3("the main direction is mapped onto the body's main direction", mv3(g_dcm, g_smi), g_smb);
  EQ3("the sub direction is turned into the half plane of the body's sub direction", scale3(kb, sub3(mv3(g_dcm, g_ssi), scale3(ci, g_smb))), scale3(ki, sub3(g_ssb, scale3(cb, g_smb))));
  EQ3("the matrix keeps orientation", mv3(g_dcm, col(g_i, 2)), col(g_b, 2));
  a.is_calc_enabled_ = false; a.Propagate(t + 1);
  vc_check("nothing changes when the attitude calculation is disabled", g_converted == 1 && g_rates == 1);
}
