// VC-SOURCES: math_physics/gravity/gravity_potential.cpp math_physics/math/vector.cpp
#include "vc_s2e.hpp"
#include "math_physics/gravity/gravity_potential.hpp"
using namespace s2e; using namespace s2e::math;
// value, gradient and second derivatives of a function of the position
struct Jet { double v, g[3], h[3][3]; };
static Jet jet(double v, int axis = -1) { Jet r; r.v = v; for (int i = 0; i < 3; i++) { r.g[i] = i == axis; for (int j = 0; j < 3; j++) r.h[i][j] = 0; } return r; }
static Jet add(const Jet& a, const Jet& b, double k = 1) { Jet r; r.v = a.v + k * b.v; for (int i = 0; i < 3; i++) { r.g[i] = a.g[i] + k * b.g[i]; for (int j = 0; j < 3; j++) r.h[i][j] = a.h[i][j] + k * b.h[i][j]; } return r; }
static Jet mul(const Jet& a, const Jet& b) { Jet r; r.v = a.v * b.v; for (int i = 0; i < 3; i++) { r.g[i] = a.v * b.g[i] + b.v * a.g[i]; for (int j = 0; j < 3; j++) r.h[i][j] = a.v * b.h[i][j] + b.v * a.h[i][j] + a.g[i] * b.g[j] + a.g[j] * b.g[i]; } return r; }
static Jet chain(const Jet& s, double f, double f1, double f2) { Jet r; r.v = f; for (int i = 0; i < 3; i++) { r.g[i] = f1 * s.g[i]; for (int j = 0; j < 3; j++) r.h[i][j] = f1 * s.h[i][j] + f2 * s.g[i] * s.g[j]; } return r; }
static double fact(int k) { double f = 1; for (int i = 2; i <= k; i++) f *= i; return f; }
static double ipow(double x, int k) { double p = 1; for (int i = 0; i < k; i++) p *= x; return p; }
static double norm(int n, int m) { return sqrt((m ? 2 : 1) * (2 * n + 1) * fact(n - m) / fact(n + m)); }
// fully normalised solid spherical harmonics R^n / r^(n+1) P_nm(sin latitude) (cos, sin)(m longitude), Legendre functions from their explicit sum
static void field(int degree, const V3& p, bool derivative) {
  std::vector<std::vector<double>> c, s; c.assign(degree + 1, std::vector<double>(degree + 1, 0.0)); s.assign(degree + 1, std::vector<double>(degree + 1, 0.0));
  double mu = any_pos("mu", 1, 10), R = any_pos("radius", 0.5, 1);
  static Jet zp[50], qp[50], A[50], B[50]; Jet x = jet(p[0], 0), y = jet(p[1], 1), z = jet(p[2], 2), q = add(add(mul(x, x), mul(y, y)), mul(z, z)), U = jet(0); double r = sqrt(q.v);
  zp[0] = qp[0] = A[0] = jet(1); B[0] = jet(0);
  for (int i = 1; i <= degree; i++) { zp[i] = mul(zp[i - 1], z); qp[i] = mul(qp[i - 1], q); A[i] = add(mul(x, A[i - 1]), mul(y, B[i - 1]), -1); B[i] = add(mul(x, B[i - 1]), mul(y, A[i - 1])); }   // (x + i y)^m
  for (int n = 0; n <= degree; n++) {
    double e = -(2 * n + 1) / 2.0, f = ipow(R, n) / (ipow(q.v, n) * r); Jet F = chain(q, f, e * f / q.v, e * (e - 1) * f / (q.v * q.v)), H = jet(0);   // R^n r^-(2n+1) as a function of r^2
    for (int m = 0; m <= n; m++) {
      c[n][m] = vc_real_in("c", -1, 1); s[n][m] = m ? vc_real_in("s", -1, 1) : 0; Jet P = jet(0); double N = norm(n, m);
      for (int k = 0; 2 * k <= n - m; k++) P = add(P, mul(zp[n - 2 * k - m], qp[k]), ((k & 1) ? -1.0 : 1.0) * fact(2 * n - 2 * k) / (ipow(2, n) * fact(k) * fact(n - k) * fact(n - 2 * k - m)));
      H = add(H, mul(P, add(add(jet(0), A[m], N * c[n][m]), B[m], N * s[n][m])));
    }
    U = add(U, mul(F, H), mu);
  }
  gravity::GravityPotential g(degree, c, s, mu, R); if (degree < 10 && vc_bool("used before")) g.CalcAcceleration_xcxf_m_s2(vec3(1, 2, 3));
  if (!derivative) EQ3S("acceleration is the gradient of the spherical harmonics", g.CalcAcceleration_xcxf_m_s2(p), vec3(U.g[0], U.g[1], U.g[2]), 100);
  else { M33 D = g.CalcPartialDerivative_xcxf_s2(p); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) vc_eqs("gravity gradient is the derivative of the acceleration", D[i][j], U.h[i][j], 1000); }
}
static V3 position() { static const double q[2][3] = {{-6, 2, 3}, {1, -4, -8}}; int k = 0; while (k < 1 && vc_bool("next")) k++; return vec3(q[k][0], q[k][1], q[k][2]); }
PROP(acceleration_any_position) { vc_assumption("degree at most 6 for arbitrary positions (bounded)"); V3 u = any_unit3("p"); int d = 2; while (d < 6 && vc_bool("degree")) d += 2; field(d, scale3(any_pos("r", 1, 2), u), false); }
PROP(acceleration_high_degree) { vc_assumption("degree 30 at two positions, arbitrary coefficients (bounded)"); vc_option("loop-limit=1000000"); field(vc_is_symbolic() ? 30 : 16, position(), false); }
PROP(derivative_any_position) { vc_assumption("gradient of degree at most 4 for arbitrary positions (bounded)"); V3 u = any_unit3("p"); int d = 2; while (d < 4 && vc_bool("degree")) d += 1; field(d, scale3(any_pos("r", 1, 2), u), true); }
PROP(derivative_high_degree) { vc_assumption("gradient of degree 20 at two positions, arbitrary coefficients (bounded)"); vc_option("loop-limit=1000000"); field(vc_is_symbolic() ? 20 : 12, position(), true); }
PROP(no_field) { int d = (int)vc_int("degree", 0, 1); std::vector<std::vector<double>> c(2, std::vector<double>(2, vc_real("c"))); gravity::GravityPotential g(d, c, c, vc_real("mu"), any_pos("R", 1, 2)), e; V3 p = any_vec("p");
  EQ3("no field below degree two", g.CalcAcceleration_xcxf_m_s2(p), vec3(0, 0, 0)); EQ3("no field below degree two", e.CalcAcceleration_xcxf_m_s2(p), vec3(0, 0, 0)); }
