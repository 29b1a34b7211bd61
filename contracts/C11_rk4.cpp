// VC-SOURCES: dynamics/attitude/attitude.cpp dynamics/attitude/attitude_rk4.cpp math_physics/math/vector.cpp math_physics/math/quaternion.cpp math_physics/math/matrix_vector.cpp simulation/monte_carlo_simulation/simulation_object.cpp simulation/monte_carlo_simulation/monte_carlo_simulation_executor.cpp simulation/monte_carlo_simulation/initialize_monte_carlo_parameters.cpp math_physics/randomization/global_randomization.cpp math_physics/randomization/normal_randomization.cpp math_physics/randomization/minimal_standard_linear_congruential_generator.cpp math_physics/randomization/minimal_standard_linear_congruential_generator_with_shuffle.cpp
// VC-REPLACE: ~.*s2e::math::CalcInverseMatrix<3.* WITH vc_inverse
#include "vc_s2e.hpp"
#include "dynamics/attitude/attitude_rk4.hpp"
using namespace s2e::dynamics::attitude; using namespace s2e::math; using namespace s2e;
// contract of the matrix inverse (proved under C02: matrix times inverse is the identity; hence adjugate over determinant)
static double cof(const M33& m, int i, int j) { int a = (i + 1) % 3, b = (i + 2) % 3, c = (j + 1) % 3, d = (j + 2) % 3; return m[a][c] * m[b][d] - m[a][d] * m[b][c]; }
extern "C" void vc_inverse(M33* r, const M33* p) {
  const M33& m = *p; double det = m[0][0] * cof(m, 0, 0) + m[0][1] * cof(m, 0, 1) + m[0][2] * cof(m, 0, 2);
  vc_assume(det != 0);
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) (*r)[i][j] = cof(m, j, i) / det;
}
static M33 any_inertia(const char* n) { if (vc_is_symbolic()) return any_mat(n); M33 m; for (int i = 0; i < 3; i++) for (int j = i; j < 3; j++) m[i][j] = m[j][i] = i == j ? vc_real_in(n, 2, 5) : vc_real_in(n, -0.5, 0.5); return m; }
static V3 av(const char* n) { V3 v; for (int i = 0; i < 3; i++) v[i] = any_real(n, -3, 3); return v; }
static Q4 aq(const char* n) { double a = any_real(n, -1, 1), b = any_real(n, -1, 1), c = any_real(n, -1, 1), d = any_real(n, -1, 1); return Q4(a, b, c, d); }
PROP(momentum) {
  M33 I = any_inertia("I"); V3 w = av("w"), h = av("h"); Q4 q = any_unit_quat("q");
  AttitudeRk4 a(w, q, I, av("torque"), 1.0);
  a.angular_momentum_reaction_wheel_b_Nms_ = h; a.CalcAngularMomentum();
  V3 hs = mv3(I, w), ht = add3(hs, h), hi = spec_b2i(q, ht);
  EQ3("spacecraft angular momentum is inertia times angular velocity", a.angular_momentum_spacecraft_b_Nms_, hs);
  EQ3("total angular momentum adds the wheels", a.angular_momentum_total_b_Nms_, ht);
  EQ3("inertial total angular momentum", a.angular_momentum_total_i_Nms_, hi);
  vc_eqs("norm of the total angular momentum", sq(a.GetTotalAngularMomentNorm_Nms()), dot3(hi, hi), 1e3);
  vc_check("norm is not negative", a.GetTotalAngularMomentNorm_Nms() >= 0);
  vc_eqs("kinetic energy", a.GetKineticEnergy_J(), 0.5 * dot3(w, hs), 1e3);
}
PROP(right_hand_side) {
  M33 I = any_inertia("I"); V3 w = av("w"), h = av("h"), T = av("torque"), Td = av("inertia change"); Q4 q = aq("q");
  AttitudeRk4 a(av("w0"), q, I, T, 1.0);
  a.angular_momentum_reaction_wheel_b_Nms_ = h; a.torque_inertia_tensor_change_b_Nm_ = Td;
  Vector<7> x; for (int i = 0; i < 3; i++) x[i] = w[i]; for (int i = 0; i < 4; i++) x[i + 3] = q[i];
  Vector<7> d = a.AttitudeDynamicsAndKinematics(x, any_real("t", 0, 100));
  V3 wd = vec3(d[0], d[1], d[2]), ht = add3(mv3(I, w), h);
  EQ3("Euler equation", add3(mv3(I, wd), add3(cross3(w, ht), Td)), T);
  Q4 qd(d[3], d[4], d[5], d[6]), ww = spec_mul(q, Q4(0.5 * w[0], 0.5 * w[1], 0.5 * w[2], 0));
  EQ4("quaternion kinematics", qd, ww);
  vc_eqs("quaternion rate keeps the norm", q[0] * qd[0] + q[1] * qd[1] + q[2] * qd[2] + q[3] * qd[3], 0, 1e3);
  // the right-hand side implies the conservation laws
  V3 hd = mv3(I, wd);
  Q4 qp(q[0] + qd[0], q[1] + qd[1], q[2] + qd[2], q[3] + qd[3]), qm(q[0] - qd[0], q[1] - qd[1], q[2] - qd[2], q[3] - qd[3]);
  V3 hid = add3(scale3(0.5, sub3(spec_b2i(qp, ht), spec_b2i(qm, ht))), spec_b2i(q, add3(hd, Td)));
  EQ3S("inertial angular momentum changes only by the torque", hid, spec_b2i(q, T), 1e3);
}
PROP(energy_rate) {
  M33 I = any_inertia("I"); if (vc_is_symbolic()) { I[1][0] = I[0][1]; I[2][0] = I[0][2]; I[2][1] = I[1][2]; }
  V3 w = av("w"), T = av("torque"); Q4 q = aq("q");
  AttitudeRk4 a(av("w0"), q, I, T, 1.0); a.torque_inertia_tensor_change_b_Nm_ = V3(0.0);
  Vector<7> x; for (int i = 0; i < 3; i++) x[i] = w[i]; for (int i = 0; i < 4; i++) x[i + 3] = q[i];
  Vector<7> d = a.AttitudeDynamicsAndKinematics(x, 0);
  V3 wd = vec3(d[0], d[1], d[2]);
  vc_eqs("kinetic energy changes only by the power of the torque", dot3(w, mv3(I, wd)), dot3(w, T), 1e3);
}
