// VC-SOURCES: dynamics/attitude/attitude.cpp dynamics/attitude/attitude_rk4.cpp math_physics/math/vector.cpp math_physics/math/quaternion.cpp math_physics/math/matrix_vector.cpp simulation/monte_carlo_simulation/simulation_object.cpp simulation/monte_carlo_simulation/monte_carlo_simulation_executor.cpp simulation/monte_carlo_simulation/initialize_monte_carlo_parameters.cpp math_physics/randomization/global_randomization.cpp math_physics/randomization/normal_randomization.cpp math_physics/randomization/minimal_standard_linear_congruential_generator.cpp math_physics/randomization/minimal_standard_linear_congruential_generator_with_shuffle.cpp
// VC-REPLACE: ~.*s2e::math::CalcInverseMatrix<3.* WITH vc_inverse
// VC-REPLACE: s2e::dynamics::attitude::AttitudeRk4::RungeKuttaOneStep WITH vc_step
// VC-REPLACE: s2e::dynamics::attitude::Attitude::CalcAngularMomentum WITH vc_momentum
// VC-LOOP: s2e::dynamics::attitude::AttitudeRk4::Propagate WITH vc_inv_propagate
#include "vc_s2e.hpp"
#include "dynamics/attitude/attitude_rk4.hpp"
using namespace s2e::dynamics::attitude; using namespace s2e::math; using namespace s2e;
static M33 g_inv; static AttitudeRk4* g_a; static double g_h, g_end, g_start;
static int g_inverses = 0, gv_momenta = 0, gv_contiguous = 1, gv_full = 1, gv_any = 0, gv_setup = 1; static double gv_t = 0, gv_dt = 0;
static V3 g_td; static const M33* g_m;
extern "C" void vc_inverse(M33* r, const M33* m) { *r = g_inv; g_m = m; g_inverses++; }
extern "C" void vc_momentum(Attitude* a) { gv_momenta = 1 + gv_any; }
// contract of one step: moves the state, nothing else; the ghost keeps the time it ended and whether the steps so far were contiguous and full
extern "C" void vc_step(AttitudeRk4* a, double t, double dt) {
  gv_contiguous = gv_contiguous & (t == gv_t);
  gv_full = gv_full & ((gv_any == 0) | (gv_dt == g_h));
  gv_setup = gv_setup & (a->torque_inertia_tensor_change_b_Nm_[0] == g_td[0]) & (a->torque_inertia_tensor_change_b_Nm_[1] == g_td[1]) & (a->torque_inertia_tensor_change_b_Nm_[2] == g_td[2]) & (a->inverse_inertia_tensor_[0][0] == g_inv[0][0]) & (a->inverse_inertia_tensor_[1][2] == g_inv[1][2]);
  gv_any = 1; gv_dt = dt; gv_t = t + dt;
}
extern "C" void vc_inv_propagate(const double* v, int n) {
  vc_inv(gv_contiguous == 1); vc_inv(gv_full == 1); vc_inv(gv_setup == 1); vc_inv((gv_any == 0) | (gv_any == 1)); vc_inv((gv_any == 0) | (gv_dt == g_h));
  vc_inv(g_a->current_propagation_time_s_ == gv_t); vc_inv(gv_t < g_end); vc_inv((gv_any == 1) | (gv_t == g_start));
}
static V3 av(const char* n) { V3 v; for (int i = 0; i < 3; i++) v[i] = any_real(n, -1, 1); return v; }
static M33 dm(const char* n) { if (vc_is_symbolic()) return any_mat(n); M33 m; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) m[i][j] = i == j ? vc_real_in(n, 2, 5) : 0; return m; }
PROP(propagate) {
  M33 I = dm("I"), I2 = dm("I2"); V3 w = av("w"); Q4 q = any_unit_quat("q"); double h = any_pos("h", 0.01, 0.5);
  if (vc_is_symbolic()) g_inv = any_mat("inverse");
  AttitudeRk4 a(w, q, I, av("torque"), h);
  M33 I1 = I; I = I2;
  double t0 = any_real("t0", 0, 10), dt = any_pos("dt", 0.01, 3), t1 = t0 + dt;
  a.current_propagation_time_s_ = t0; g_a = &a; g_h = h; g_end = t1; g_start = gv_t = t0; gv_any = 0; g_inverses = gv_momenta = 0;
  for (int i = 0; i < 3; i++) { g_td[i] = 0; for (int j = 0; j < 3; j++) g_td[i] += 1.0 / (t1 - t0) * (I2[i][j] - I1[i][j]) * w[j]; }
  if (!vc_is_symbolic()) {
    AttitudeRk4 b(w, q, I1, a.torque_b_Nm_, h, "reference"); b.previous_inertia_tensor_kgm2_ = I1; b.inverse_inertia_tensor_ = CalcInverseMatrix(I2);
    for (int i = 0; i < 3; i++) b.torque_inertia_tensor_change_b_Nm_[i] = g_td[i];
    double t = t0; while (t1 - t - h > 1e-6) { b.RungeKuttaOneStep(t, h); t += h; } b.RungeKuttaOneStep(t, t1 - t);
    a.Propagate(t1);
    EQ3("every step but the last has the step width", a.GetAngularVelocity_b_rad_s(), b.GetAngularVelocity_b_rad_s()); EQ4("steps end at the requested time", a.GetQuaternion_i2b(), b.GetQuaternion_i2b());
    vc_eq("angular momentum and energy are refreshed after the last step", a.GetKineticEnergy_J(), 0.5 * dot3(a.GetAngularVelocity_b_rad_s(), mv3(I2, a.GetAngularVelocity_b_rad_s())));
    vc_check("propagation ends exactly at the requested time", a.current_propagation_time_s_ == t1);
    return;
  }
  vc_loop_field(&a.current_propagation_time_s_, 8);
  a.Propagate(t1);
  vc_check("steps are contiguous from the previous end", gv_contiguous == 1);
  vc_check("every step but the last has the step width", gv_full == 1);
  vc_check("steps end at the requested time", gv_any == 1 && gv_t == t1);
  vc_check("last step is positive and at most the step width (plus the tolerance)", gv_dt > 0 && gv_dt <= h + 1e-6);
  vc_check("propagation ends exactly at the requested time", a.current_propagation_time_s_ == t1);
  vc_check("steps run with the current inertia and its rate", gv_setup == 1);
  vc_check("inverse of the current inertia", g_inverses == 1 && g_m == &I);
  vc_check("angular momentum and energy are refreshed after the last step", gv_momenta == 2);
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) vc_check("inertia is remembered for the next call", a.previous_inertia_tensor_kgm2_[i][j] == I2[i][j]);
}
PROP(propagate_disabled) {
  M33 I = dm("I"); V3 w = av("w"); Q4 q = any_unit_quat("q"); if (vc_is_symbolic()) g_inv = any_mat("inverse");
  AttitudeRk4 a(w, q, I, av("torque"), 0.1); a.is_calc_enabled_ = false; gv_any = 0; double t0 = a.current_propagation_time_s_;
  a.Propagate(any_real("t1", 0, 10));
  vc_check("no step when propagation is disabled", gv_any == 0 && a.current_propagation_time_s_ == t0);
  for (int i = 0; i < 3; i++) vc_check("angular velocity kept when disabled", a.GetAngularVelocity_b_rad_s()[i] == w[i]);
  for (int i = 0; i < 4; i++) vc_check("attitude kept when disabled", a.GetQuaternion_i2b()[i] == q[i]);
}
