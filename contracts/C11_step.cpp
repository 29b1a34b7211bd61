// VC-SOURCES: dynamics/attitude/attitude.cpp dynamics/attitude/attitude_rk4.cpp math_physics/math/vector.cpp math_physics/math/quaternion.cpp math_physics/math/matrix_vector.cpp simulation/monte_carlo_simulation/simulation_object.cpp simulation/monte_carlo_simulation/monte_carlo_simulation_executor.cpp simulation/monte_carlo_simulation/initialize_monte_carlo_parameters.cpp math_physics/randomization/global_randomization.cpp math_physics/randomization/normal_randomization.cpp math_physics/randomization/minimal_standard_linear_congruential_generator.cpp math_physics/randomization/minimal_standard_linear_congruential_generator_with_shuffle.cpp
// VC-REPLACE: ~.*s2e::math::CalcInverseMatrix<3.* WITH vc_inverse
// VC-REPLACE: s2e::dynamics::attitude::AttitudeRk4::AttitudeDynamicsAndKinematics WITH vc_rhs
#include "vc_s2e.hpp"
#include "dynamics/attitude/attitude_rk4.hpp"
using namespace s2e::dynamics::attitude; using namespace s2e::math; using namespace s2e;
extern "C" void vc_inverse(M33* r, const M33* m) { *r = any_mat("inverse"); }
static int gv_n = 0; static double gv_t[4]; static Vector<7> gv_x[4], gv_k[4];
// contract of the right-hand side: arbitrary derivative, recorded
extern "C" void vc_rhs(Vector<7>* r, AttitudeRk4* a, const Vector<7>* x, double t) {
  Vector<7> k; for (int i = 0; i < 7; i++) k[i] = any_real("k", -1, 1);
  if (gv_n < 4) { gv_t[gv_n] = t; gv_x[gv_n] = *x; gv_k[gv_n] = k; } gv_n++;
  *r = k;
}
static V3 av(const char* n) { V3 v; for (int i = 0; i < 3; i++) v[i] = any_real(n, -1, 1); return v; }
PROP(one_step) {
  M33 I = vc_is_symbolic() ? any_mat("I") : M33(0.0); if (!vc_is_symbolic()) for (int i = 0; i < 3; i++) I[i][i] = vc_real_in("I", 2, 5);
  V3 w = av("w"); Q4 q = any_unit_quat("q");
  AttitudeRk4 a(w, q, I, av("torque"), 1.0);
  for (int i = 0; i < 3; i++) a.torque_inertia_tensor_change_b_Nm_[i] = 0;
  double t = any_real("t", 0, 100), h = any_real("h", 0.01, 0.5);
  Vector<7> x; for (int i = 0; i < 3; i++) x[i] = w[i]; for (int i = 0; i < 4; i++) x[i + 3] = q[i];
  gv_n = 0;
  if (!vc_is_symbolic()) { const double c[4] = {0, 0.5, 0.5, 1}; Vector<7> s = x; for (int i = 0; i < 4; i++) { if (i) for (int j = 0; j < 7; j++) s[j] = x[j] + c[i] * h * gv_k[i - 1][j]; gv_x[i] = s; gv_t[i] = t + c[i] * h; gv_k[i] = a.AttitudeDynamicsAndKinematics(s, t); } gv_n = 4; }
  double n2 = 0, y[7];
  a.RungeKuttaOneStep(t, h);
  vc_check("four slopes per step", gv_n == 4);
  const double c[4] = {0, 0.5, 0.5, 1}, b[4] = {1, 2, 2, 1};
  for (int i = 0; i < 4; i++) {
    vc_eqs("stage time", gv_t[i], t + c[i] * h, 100);
    for (int j = 0; j < 7; j++) vc_eqs("stage state", gv_x[i][j], i ? x[j] + c[i] * h * gv_k[i - 1][j] : x[j], 100);
  }
  for (int j = 0; j < 7; j++) { double s = 0; for (int i = 0; i < 4; i++) s += b[i] * gv_k[i][j]; y[j] = x[j] + h / 6 * s; }
  for (int j = 3; j < 7; j++) n2 += y[j] * y[j];
  if (!(n2 > 0)) return;
  for (int j = 0; j < 3; j++) vc_eqs("angular velocity after the step", a.GetAngularVelocity_b_rad_s()[j], y[j], 100);
  double n = std::sqrt(n2);
  for (int j = 0; j < 4; j++) vc_eqs("quaternion after the step is the normalised combination", a.GetQuaternion_i2b()[j] * n, y[j + 3], 100);
  vc_eqs("attitude stays a unit quaternion", qnorm2(a.GetQuaternion_i2b()), 1, 10);
}
