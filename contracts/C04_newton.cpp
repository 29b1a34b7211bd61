// VC-SOURCES: math_physics/orbit/kepler_orbit.cpp math_physics/orbit/orbital_elements.cpp math_physics/math/s2e_math.cpp
// VC-LOOP: s2e::orbit::KeplerOrbit::SolveKeplerNewtonMethod WITH vc_inv_newton
// VC-REPLACE: sin WITH vc_sin
#include "vc_orbit.hpp"
#include "math_physics/orbit/kepler_orbit.hpp"
using namespace s2e::orbit;
static double gv_last = 0, g_limit = 1; static int gv_evals = 0;   // ghost: the iterate at which the solver last evaluated Kepler's equation
extern "C" double vc_sin(double x) { gv_last = x; gv_evals = 1; return sin(x); }
// between iterations the loop-carried values are one iterate, which still differs from its predecessor by at least the limit
extern "C" void vc_inv_newton(const double* v, int n) {
  for (int i = 1; i < n; i++) vc_inv(v[i] == v[0]);
  vc_inv((gv_evals == 0) | (v[0] - gv_last >= 1e-5) | (gv_last - v[0] >= 1e-5));
}
// When two successive iterates agree to within the limit, the result solves Kepler's equation to second order in the limit.
PROP(kepler_newton_residual) {
  KeplerOrbit o; double e = vc_real_in("e", 0, 0.9999), M = any_real("M", 0, 6.2831853), lim = 1e-5; int n = (int)vc_int("iterations", 1, 1000);
  double u = o.SolveKeplerNewtonMethod(e, M, lim, n);
  double a = gv_last; int evals = gv_evals;
  if (!vc_is_symbolic()) {
    double f = u - e * sin(u) - M;
    // natively the previous iterate is not visible: re-apply the step
    double du = f / (1 - e * cos(u));
    if (n >= 100 && e < 0.5) vc_check("converged iterate solves Kepler's equation", vc_abs(f) <= 1e-10 && vc_abs(du) < 1e-5);
    return;
  }
  double su = sin(u), sa = sin(a), ca = cos(a), d = u - a;
  vc_trust("Taylor: |sin u - sin a - (u - a) cos a| <= (u - a)^2 / 2", su - sa - d * ca <= d * d / 2 && su - sa - d * ca >= -(d * d) / 2);
  double f = u - e * su - M, R = su - sa - d * ca;
  if (evals != 0 && d < lim && d > -lim) {
    vc_lemma("residual is the Taylor remainder", f == -e * R);
    vc_lemma("square of the last step", d * d <= lim * lim);
    vc_lemma("remainder bound", R <= lim * lim / 2 && R >= -(lim * lim) / 2);
    vc_check("converged iterate solves Kepler's equation", f <= e * lim * lim / 2 && f >= -e * lim * lim / 2);
  }
}
