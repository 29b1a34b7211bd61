// VC-SOURCES: math_physics/math/vector.cpp
#include "vc_s2e.hpp"
#include "math_physics/numerical_integration/numerical_integrator_manager.hpp"
#include "math_physics/math/ordinary_differential_equation.hpp"
using namespace s2e::numerical_integration; using namespace s2e::math;
// Any right-hand side: every evaluation returns an arbitrary slope and records where it was asked for.
struct AnyOde : InterfaceOde<2> {
  mutable int n = 0; mutable double t[16]; mutable Vector<2> x[16], k[16];
  virtual Vector<2> DerivativeFunction(const double a, const Vector<2>& s) const {
    Vector<2> r; r[0] = any_real("k0", -2, 2); r[1] = any_real("k1", -2, 2);
    if (n < 16) { t[n] = a; x[n] = s; k[n] = r; } n++;
    return r;
  }
};
static Vector<2> any2(const char* n) { Vector<2> v; v[0] = any_real(n, -5, 5); v[1] = any_real(n, -5, 5); return v; }
// published tableaux
static const double rk4_c[4] = {0, 0.5, 0.5, 1}, rk4_b[4] = {1.0 / 6, 1.0 / 3, 1.0 / 3, 1.0 / 6};
static const double rk4_a[4][4] = {{0, 0, 0, 0}, {0.5, 0, 0, 0}, {0, 0.5, 0, 0}, {0, 0, 1, 0}};
static const double rkf_c[6] = {0, 0.25, 0.375, 12.0 / 13, 1, 0.5};
static const double rkf_a[6][6] = {{0}, {1.0 / 4}, {3.0 / 32, 9.0 / 32}, {1932.0 / 2197, -7200.0 / 2197, 7296.0 / 2197}, {439.0 / 216, -8, 3680.0 / 513, -845.0 / 4104}, {-8.0 / 27, 2, -3544.0 / 2565, 1859.0 / 4104, -11.0 / 40}};
static const double rkf_lo[6] = {25.0 / 216, 0, 1408.0 / 2565, 2197.0 / 4104, -1.0 / 5, 0}, rkf_hi[6] = {16.0 / 135, 0, 6656.0 / 12825, 28561.0 / 56430, -9.0 / 50, 2.0 / 55};
static const double dp_c[7] = {0, 0.2, 0.3, 0.8, 8.0 / 9, 1, 1};
static const double dp_a[7][7] = {{0}, {1.0 / 5}, {3.0 / 40, 9.0 / 40}, {44.0 / 45, -56.0 / 15, 32.0 / 9}, {19372.0 / 6561, -25360.0 / 2187, 64448.0 / 6561, -212.0 / 729}, {9017.0 / 3168, -355.0 / 33, 46732.0 / 5247, 49.0 / 176, -5103.0 / 18656}, {35.0 / 384, 0, 500.0 / 1113, 125.0 / 192, -2187.0 / 6784, 11.0 / 84}};
static const double dp_lo[7] = {5179.0 / 57600, 0, 7571.0 / 16695, 393.0 / 640, -92097.0 / 339200, 187.0 / 2100, 1.0 / 40}, dp_hi[7] = {35.0 / 384, 0, 500.0 / 1113, 125.0 / 192, -2187.0 / 6784, 11.0 / 84, 0};

template <int S, class I> static void step(I& g, AnyOde& o, const double* c, const double (*a)[S], const double* b, double h) {
  double t0 = any_real("t", -100, 100); Vector<2> x0 = any2("x");
  g.SetState(t0, x0); o.n = 0;
  g.Integrate();
  vc_check("one slope per stage", o.n == S);
  for (int i = 0; i < S; i++) {
    vc_eqs("stage time", o.t[i], t0 + c[i] * h, 100);
    for (int d = 0; d < 2; d++) { double s = x0[d]; for (int j = 0; j < i; j++) s += h * a[i][j] * o.k[j][d]; vc_eqs("stage state", o.x[i][d], s, 1e3); }
  }
  for (int d = 0; d < 2; d++) { double s = x0[d]; for (int j = 0; j < S; j++) s += h * b[j] * o.k[j][d]; vc_eqs("state after the step", g.GetState()[d], s, 1e3); vc_check("state before the step is kept", g.previous_state_[d] == x0[d]); }
  vc_eqs("time advances by the step width", g.current_independent_variable_, t0 + h, 100);
}
template <int S, class I> static void embedded(I& g, AnyOde& o, const double* hi, const double* lo, double h, int order) {
  double e2 = 0; for (int d = 0; d < 2; d++) { double e = 0; for (int j = 0; j < S; j++) e += h * (lo[j] - hi[j]) * o.k[j][d]; e2 += e * e; }
  vc_eqs("error estimate is the distance between the two orders", g.local_truncation_error_ * g.local_truncation_error_, e2, 1e3);
  vc_check("error estimate is not negative", g.local_truncation_error_ >= 0);
}
PROP(rk4) { AnyOde o; double h = any_pos("h", 0.001, 10); RungeKutta4<2> g(h, o); step<4>(g, o, rk4_c, rk4_a, rk4_b, h); }
PROP(rkf) { AnyOde o; double h = any_pos("h", 0.001, 10); RungeKuttaFehlberg<2> g(h, o); step<6>(g, o, rkf_c, rkf_a, rkf_hi, h); embedded<6>(g, o, rkf_hi, rkf_lo, h, 4); }
PROP(dp5) { AnyOde o; double h = any_pos("h", 0.001, 10); DormandPrince5<2> g(h, o); step<7>(g, o, dp_c, dp_a, dp_hi, h); embedded<7>(g, o, dp_hi, dp_lo, h, 5); }
// the step is chosen so that the estimated error, which scales with the order plus one, meets the tolerance
PROP(step_control) {
  AnyOde o; double h = any_pos("h", 0.001, 10), tol = any_pos("tolerance", 1e-9, 1), err = any_pos("error", 1e-9, 1);
  RungeKuttaFehlberg<2> g(h, o); DormandPrince5<2> d(h, o);
  g.local_truncation_error_ = d.local_truncation_error_ = err;
  g.ControlStepWidth(tol); d.ControlStepWidth(tol);
  vc_eqs("Fehlberg step for the tolerance", g.step_width_, h * pow(tol / err, 1.0 / 5.0), 1e3);
  vc_eqs("Dormand-Prince step for the tolerance", d.step_width_, h * pow(tol / err, 1.0 / 6.0), 1e3);
}
// right-hand side depending on time only, as a cubic: dense output is exact at every point of the step
struct Cubic : InterfaceOde<1> { double p[4]; virtual Vector<1> DerivativeFunction(const double t, const Vector<1>&) const { Vector<1> r; r[0] = p[0] + t * (p[1] + t * (p[2] + t * p[3])); return r; } };
template <class I> static void dense() {
  Cubic o; for (int i = 0; i < 4; i++) o.p[i] = any_real("p", -2, 2);
  double h = any_pos("h", 0.1, 3), s = vc_real_in("sigma", 0, 1), x0 = any_real("x0", -5, 5), t = s * h;
  I g(h, o); Vector<1> x; x[0] = x0; g.SetState(0.0, x); g.Integrate();
  double X = x0 + t * (o.p[0] + t * (o.p[1] / 2 + t * (o.p[2] / 3 + t * o.p[3] / 4)));
  vc_eqs("interpolated state is exact for cubic slopes", g.CalcInterpolationState(s)[0], X, 1e3);
  vc_eqs("interpolation starts at the previous state", g.CalcInterpolationState(0.0)[0], x0, 1e3);
  vc_eqs("interpolation ends at the current state", g.CalcInterpolationState(1.0)[0], g.GetState()[0], 1e3);
}
PROP(rkf_dense) { dense<RungeKuttaFehlberg<1>>(); }
PROP(dp5_dense) { dense<DormandPrince5<1>>(); }
// dense output of the Dormand-Prince scheme for any right-hand side ends at the state after the step
PROP(dp5_dense_any) {
  AnyOde o; double h = any_pos("h", 0.001, 10); DormandPrince5<2> g(h, o); Vector<2> x0 = any2("x"); g.SetState(any_real("t", -100, 100), x0); g.Integrate();
  Vector<2> a = g.CalcInterpolationState(0.0), b = g.CalcInterpolationState(1.0);
  for (int d = 0; d < 2; d++) { vc_eqs("any slope: interpolation starts at the previous state", a[d], x0[d], 1e3); vc_eqs("any slope: interpolation ends at the current state", b[d], g.GetState()[d], 1e3); }
}
PROP(manager) {
  AnyOde o; double h = any_pos("h", 0.001, 10); long m = vc_int("method", 0, 2);
  NumericalIntegratorManager<2> g(h, o, (NumericalIntegrationMethod)m);
  o.n = 0; Vector<2> x0 = any2("x"); g.GetIntegrator()->SetState(0.0, x0); g.GetIntegrator()->Integrate();
  vc_check("the selected method is used", o.n == (m == 0 ? 4 : m == 1 ? 6 : 7));
}
// the older fixed-step solver used by sensors, wheels and orbits
struct OldOde : OrdinaryDifferentialEquation<2> {
  int n = 0; double t[8]; Vector<2> x[8], k[8];
  OldOde(double h) : OrdinaryDifferentialEquation<2>(h) {}
  virtual void DerivativeFunction(double a, const Vector<2>& s, Vector<2>& r) {
    r[0] = any_real("k0", -2, 2); r[1] = any_real("k1", -2, 2);
    if (n < 8) { t[n] = a; x[n] = s; k[n] = r; } n++;
  }
};
PROP(ode_rk4) {
  double h = any_pos("h", 0.001, 10), t0 = any_real("t", -100, 100); OldOde o(1.0); o.SetStepWidth(h); Vector<2> x0 = any2("x");
  o.Setup(t0, x0); ++o;
  vc_check("one slope per stage", o.n == 4);
  for (int i = 0; i < 4; i++) {
    vc_eqs("stage time", o.t[i], t0 + rk4_c[i] * h, 100);
    for (int d = 0; d < 2; d++) { double s = x0[d]; for (int j = 0; j < i; j++) s += h * rk4_a[i][j] * o.k[j][d]; vc_eqs("stage state", o.x[i][d], s, 1e3); }
  }
  for (int d = 0; d < 2; d++) { double s = x0[d]; for (int j = 0; j < 4; j++) s += h * rk4_b[j] * o.k[j][d]; vc_eqs("state after the step", o[d], s, 1e3); vc_check("derivative at the start is kept", o.GetDerivative()[d] == o.k[0][d]); }
  vc_eqs("time advances by the step width", o.GetIndependentVariable(), t0 + h, 100);
}
