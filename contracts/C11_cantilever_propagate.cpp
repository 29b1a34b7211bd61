// VC-SOURCES: dynamics/attitude/attitude.cpp dynamics/attitude/attitude_with_cantilever_vibration.cpp math_physics/math/vector.cpp math_physics/math/quaternion.cpp math_physics/math/matrix_vector.cpp simulation/monte_carlo_simulation/simulation_object.cpp simulation/monte_carlo_simulation/monte_carlo_simulation_executor.cpp simulation/monte_carlo_simulation/initialize_monte_carlo_parameters.cpp math_physics/randomization/global_randomization.cpp math_physics/randomization/normal_randomization.cpp math_physics/randomization/minimal_standard_linear_congruential_generator.cpp math_physics/randomization/minimal_standard_linear_congruential_generator_with_shuffle.cpp
// VC-REPLACE: ~.*s2e::math::CalcInverseMatrix<3.* WITH vc_inverse
// VC-REPLACE: ~s2e::numerical_integration::RungeKutta<13.*>::Integrate\(\) WITH vc_step
// VC-REPLACE: s2e::dynamics::attitude::Attitude::CalcAngularMomentum WITH vc_momentum
// VC-LOOP: s2e::dynamics::attitude::AttitudeWithCantileverVibration::Propagate WITH vc_inv_propagate
#include "vc_s2e.hpp"
#include "dynamics/attitude/attitude_with_cantilever_vibration.hpp"
using namespace s2e::dynamics::attitude; using namespace s2e::math; using namespace s2e; using namespace s2e::numerical_integration;
static AttitudeWithCantileverVibration* g_a; static double g_h, g_end, g_start;
static int gv_contiguous = 1, gv_full = 1, gv_any = 0, gv_momenta = 0, gv_first = 1; static double gv_t = 0, gv_dt = 0;
static M33 g_x[3]; static M33 g_of[3]; static int g_inverses = 0; static double g_state[13];
extern "C" void vc_inverse(M33* r, const M33* m) { M33 x = any_mat("inverse"); if (g_inverses < 3) { g_x[g_inverses] = x; g_of[g_inverses] = *m; } g_inverses++; *r = x; }
extern "C" void vc_momentum(Attitude* a) { gv_momenta = 1 + gv_any; }
// contract of one integration step (C10): any new state; the time advances by the step width
extern "C" void vc_step(RungeKutta<13>* k) {
  gv_contiguous = gv_contiguous & (k->current_independent_variable_ == gv_t);
  gv_full = gv_full & ((gv_any == 0) | (gv_dt == g_h));
  for (int i = 0; i < 13; i++) gv_first = gv_first & ((gv_any == 1) | (k->current_state_[i] == g_state[i]));
  gv_any = 1; gv_dt = k->step_width_; gv_t = gv_t + k->step_width_;
  k->current_independent_variable_ += k->step_width_;
}
static double* g_iv; static RungeKutta<13>* g_k;
extern "C" void vc_inv_propagate(const double* v, int n) {
  vc_inv(gv_contiguous == 1); vc_inv(gv_full == 1); vc_inv(gv_first == 1); vc_inv((gv_any == 0) | (gv_any == 1)); vc_inv((gv_any == 0) | (gv_dt == g_h));
  vc_inv(g_a->current_propagation_time_s_ == gv_t); vc_inv(*g_iv == gv_t); vc_inv(g_k->step_width_ == g_h); vc_inv(gv_t < g_end); vc_inv((gv_any == 1) | (gv_t == g_start));
}
static V3 av(const char* n) { V3 v; for (int i = 0; i < 3; i++) v[i] = any_real(n, -0.3, 0.3); return v; }
static M33 dm(const char* n) { if (vc_is_symbolic()) return any_mat(n); M33 m; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) m[i][j] = i == j ? vc_real_in(n, 2, 5) : 0; return m; }
PROP(propagate) {
  M33 I = dm("I"), I2 = dm("I2"), Ic = dm("Ic"); V3 w = av("w"), wc = av("wc"), th = av("theta"), T = av("torque"), h = av("h"); Q4 q = any_unit_quat("q"); double step = any_pos("h", 0.01, 0.5);
  AttitudeWithCantileverVibration a(w, q, I, Ic, any_real("damping", 0, 1), any_real("intrinsic", 0, 0.5), T, step);
  M33 I1 = I; I = I2; T = av("torque2"); a.torque_b_Nm_ = T; a.angular_momentum_reaction_wheel_b_Nms_ = h; a.angular_velocity_cantilever_rad_s_ = wc; a.euler_angular_cantilever_rad_ = th;
  double t0 = any_real("t0", 0, 10), dt = any_pos("dt", 0.01, 3), t1 = t0 + dt;
  a.current_propagation_time_s_ = t0; g_a = &a; g_h = step; g_end = t1; g_start = gv_t = t0; gv_any = 0; gv_momenta = 0; g_inverses = 0;
  for (int i = 0; i < 3; i++) { g_state[i] = w[i]; g_state[i + 3] = wc[i]; g_state[i + 10] = th[i]; } for (int i = 0; i < 4; i++) g_state[i + 6] = q[i];
  RungeKutta<13>* k = (RungeKutta<13>*)a.numerical_integrator_.GetIntegrator().get(); g_iv = &k->current_independent_variable_; g_k = k; k->step_width_ = any_pos("width left by the previous call", 0.01, 0.5);
  if (!vc_is_symbolic()) {
    vc_assume(dt > 0.05);
    a.Propagate(t1);
    RungeKutta4<13> r(step, a.attitude_ode_); a.attitude_ode_.SetPreviousInertiaTensor_kgm2(I1);
    Vector<13> x; for (int i = 0; i < 13; i++) x[i] = g_state[i]; r.SetState(t0, x);
    double t = t0; while (t1 - t - step > 1e-6) { r.Integrate(); t += step; } r.step_width_ = t1 - t; r.Integrate();
    x = r.GetState(); double n = std::sqrt(x[6] * x[6] + x[7] * x[7] + x[8] * x[8] + x[9] * x[9]);
    for (int i = 0; i < 3; i++) { vc_eq("every step but the last has the step width", a.GetAngularVelocity_b_rad_s()[i], x[i]); vc_eq("steps end at the requested time", a.angular_velocity_cantilever_rad_s_[i], x[i + 3]); }
    for (int i = 0; i < 4; i++) vc_eq("attitude stays a unit quaternion", a.GetQuaternion_i2b()[i] * n, x[i + 6]);
    vc_check("propagation ends exactly at the requested time", a.current_propagation_time_s_ == t1);
    EQ33("inverse of the total inertia", a.attitude_ode_.GetInverseTotalInertiaTensor() * (I2 + Ic), MakeIdentityMatrix<3>());
    return;
  }
  vc_assume(dt > 1e-5);
  vc_loop_field(&a.current_propagation_time_s_, 8); vc_loop_field(&k->current_independent_variable_, 8); vc_loop_field(&k->step_width_, 8);
  a.Propagate(t1);
  vc_check("steps are contiguous from the previous end", gv_contiguous == 1);
  vc_check("first step starts from the spacecraft's state", gv_first == 1);
  vc_check("every step but the last has the step width", gv_full == 1);
  vc_check("steps end at the requested time", gv_any == 1 && gv_t == t1);
  vc_check("last step is positive and at most the step width (plus the tolerance)", gv_dt > 0 && gv_dt <= step + 1e-6);
  vc_check("propagation ends exactly at the requested time", a.current_propagation_time_s_ == t1);
  vc_check("angular momentum and energy are refreshed after the last step", gv_momenta == 2);
  vc_check("inverses of the inertia and of the total inertia", g_inverses == 2);
  AttitudeWithCantileverVibrationOde& o = a.attitude_ode_;
  M33 X = o.GetInverseInertiaTensor(), Y = o.GetInverseTotalInertiaTensor(), Z = o.GetInverseEquivalentInertiaTensorCantilever();
  int e0 = g_of[0][0][0] == I2[0][0] ? 0 : 1, e1 = 1 - e0;
  for (int i = 0; i < 3; i++) {
    double td = 0, z[3] = {0, 0, 0};
    for (int j = 0; j < 3; j++) {
      td += 1.0 / (t1 - t0) * (I2[i][j] - I1[i][j]) * w[j];
      for (int l = 0; l < 3; l++) z[j] += X[i][l] * (I2[l][j] + Ic[l][j]);
      vc_check("inertia is remembered for the next call", o.previous_inertia_tensor_kgm2_[i][j] == I2[i][j]);
      vc_check("inverse of the inertia", g_of[e0][i][j] == I2[i][j] && X[i][j] == g_x[e0][i][j]);
      vc_check("inverse of the total inertia", g_of[e1][i][j] == I2[i][j] + Ic[i][j] && Y[i][j] == g_x[e1][i][j]);
      vc_eq("equivalent inertia of the appendage", Z[i][j], z[j]);
    }
    vc_eq("torque of the inertia change", o.torque_inertia_tensor_b_Nm_[i], td);
    vc_check("torque and wheel momentum of this call are used", o.torque_b_Nm_[i] == T[i] && o.angular_momentum_reaction_wheel_b_Nms_[i] == h[i]);
    vc_check("state comes back from the integrator", a.GetAngularVelocity_b_rad_s()[i] == k->current_state_[i] && a.angular_velocity_cantilever_rad_s_[i] == k->current_state_[i + 3] && a.euler_angular_cantilever_rad_[i] == k->current_state_[i + 10]);
  }
  vc_eqs("attitude stays a unit quaternion", qnorm2(a.GetQuaternion_i2b()), 1, 10);
}
