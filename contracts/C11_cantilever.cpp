// VC-SOURCES: dynamics/attitude/attitude.cpp dynamics/attitude/attitude_with_cantilever_vibration.cpp math_physics/math/vector.cpp math_physics/math/quaternion.cpp math_physics/math/matrix_vector.cpp simulation/monte_carlo_simulation/simulation_object.cpp simulation/monte_carlo_simulation/monte_carlo_simulation_executor.cpp simulation/monte_carlo_simulation/initialize_monte_carlo_parameters.cpp math_physics/randomization/global_randomization.cpp math_physics/randomization/normal_randomization.cpp math_physics/randomization/minimal_standard_linear_congruential_generator.cpp math_physics/randomization/minimal_standard_linear_congruential_generator_with_shuffle.cpp
// VC-REPLACE: ~.*s2e::math::CalcInverseMatrix<3.* WITH vc_inverse
#include "vc_s2e.hpp"
#include "dynamics/attitude/attitude_with_cantilever_vibration.hpp"
using namespace s2e::dynamics::attitude; using namespace s2e::math; using namespace s2e;
// contract of the matrix inverse (proved under C02: matrix times inverse is the identity; hence adjugate over determinant)
static double cof(const M33& m, int i, int j) { int a = (i + 1) % 3, b = (i + 2) % 3, c = (j + 1) % 3, d = (j + 2) % 3; return m[a][c] * m[b][d] - m[a][d] * m[b][c]; }
extern "C" void vc_inverse(M33* r, const M33* p) {
  const M33& m = *p; double det = m[0][0] * cof(m, 0, 0) + m[0][1] * cof(m, 0, 1) + m[0][2] * cof(m, 0, 2);
  vc_assume(det != 0);
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) (*r)[i][j] = cof(m, j, i) / det;
}
static M33 any_inertia(const char* n) { if (vc_is_symbolic()) return any_mat(n); M33 m; for (int i = 0; i < 3; i++) for (int j = i; j < 3; j++) m[i][j] = m[j][i] = i == j ? vc_real_in(n, 2, 5) : vc_real_in(n, -0.5, 0.5); return m; }
static V3 av(const char* n) { V3 v; for (int i = 0; i < 3; i++) v[i] = any_real(n, -3, 3); return v; }
static Q4 aq(const char* n) { double a = any_real(n, -1, 1), b = any_real(n, -1, 1), c = any_real(n, -1, 1), d = any_real(n, -1, 1); return Q4(a, b, c, d); }
PROP(right_hand_side) {
  M33 I = any_inertia("I"), Ic = any_inertia("Ic"); V3 w = av("w"), h = av("h"), T = av("torque"), Td = av("inertia change"), wc = av("wc"), th = av("theta"); Q4 q = aq("q");
  double zeta = any_real("damping", 0, 1), nu = any_real("intrinsic", 0, 3);
  AttitudeWithCantileverVibration a(av("w0"), q, I, Ic, zeta, nu, T, 0.1);
  a.attitude_ode_.SetAngularMomentumReactionWheel_b_Nms(h); a.attitude_ode_.SetTorqueInertiaTensor_b_Nm(Td);
  Vector<13> x; for (int i = 0; i < 3; i++) { x[i] = w[i]; x[i + 3] = wc[i]; x[i + 10] = th[i]; } for (int i = 0; i < 4; i++) x[i + 6] = q[i];
  Vector<13> d = a.attitude_ode_.DerivativeFunction(any_real("t", 0, 100), x);
  V3 wd = vec3(d[0], d[1], d[2]), wcd = vec3(d[3], d[4], d[5]), thd = vec3(d[10], d[11], d[12]);
  V3 N = sub3(sub3(T, cross3(w, add3(mv3(I, w), h))), Td);
  EQ3S("torque balance of body and appendage", add3(add3(mv3(I, wd), mv3(Ic, wd)), mv3(Ic, wcd)), N, 1e3);
  EQ3S("appendage is a damped oscillator driven by the body", add3(wd, wcd), scale3(-1, add3(scale3(2 * zeta * nu, wc), scale3(nu * nu, th))), 1e3);
  EQ3("appendage angle follows its rate", thd, wc);
  EQ4("quaternion kinematics", Q4(d[6], d[7], d[8], d[9]), spec_mul(q, Q4(0.5 * w[0], 0.5 * w[1], 0.5 * w[2], 0)));
}
