// VC-SOURCES: math_physics/orbit/relative_orbit_models.cpp
#include "vc_s2e.hpp"
#include "math_physics/orbit/relative_orbit_models.hpp"
using namespace s2e::math; using namespace s2e;
typedef Matrix<6, 6> M66; typedef Vector<6> V6;
struct Ref { double R, mu, n; };   // circular reference orbit of mean motion n
static Ref any_ref() { Ref k; k.R = any_pos("R", 6.7e6, 4e7); k.n = any_pos("mean motion", 1e-4, 1.1e-3); k.mu = k.n * k.n * k.R * k.R * k.R; return k; }
static V6 any_state() { V6 x; for (int i = 0; i < 3; i++) { x[i] = any_real("x", -100, 100); x[i + 3] = any_real("v", -0.1, 0.1); } return x; }
// Hill's equations of relative motion
PROP(hill) {
  Ref k = any_ref(); M66 A = orbit::CalcHillSystemMatrix(k.R, k.mu); V6 x = any_state(), d = A * x; double n = k.n;
  for (int i = 0; i < 3; i++) vc_eq("relative position changes with the relative velocity", d[i], x[i + 3]);
  vc_eqs("radial acceleration", d[3] * 1e6, (3 * n * n * x[0] + 2 * n * x[4]) * 1e6, 1e3); vc_eqs("along-track acceleration", d[4] * 1e6, -2 * n * x[3] * 1e6, 1e3); vc_eqs("cross-track acceleration", d[5] * 1e6, -n * n * x[2] * 1e6, 1e3);
}
PROP(closed_form) {
  Ref k = any_ref(); double t = any_real("t", 0, 1e4); if (!vc_is_symbolic() && vc_bool("short")) t *= 1e-5; double n = k.n; V6 x = any_state(), y = orbit::CalcHcwStm(k.R, k.mu, t) * x; double c = cos(n * t), s = sin(n * t);
  // oscillation about a drifting centre: constants of the motion from the initial state
  double xc = 4 * x[0] + 2 * x[4] / n, yc = x[1] - 2 * x[3] / n, drift = -1.5 * n * xc, a = x[0] - xc, b = x[3] / n;
  vc_eqs("radial motion oscillates about its centre", y[0], xc + a * c + b * s, 1e5); vc_eqs("along-track motion oscillates about a drifting centre", y[1], yc + drift * t - 2 * a * s + 2 * b * c, 1e6); vc_eqs("cross-track motion is harmonic", y[2], x[2] * c + x[5] / n * s, 1e5);
  vc_eqs("radial velocity", y[3], n * (b * c - a * s), 1e3); vc_eqs("along-track velocity", y[4], drift - 2 * n * (a * c + b * s), 1e3); vc_eqs("cross-track velocity", y[5], x[5] * c - n * x[2] * s, 1e3);
}
// flow properties: identity at time zero, steps compose, Hill's integrals are conserved
PROP(flow) {
  Ref k = any_ref(); double n = k.n, t = any_real("t", 0, 1e4), u = any_real("u", 0, 1e4); if (!vc_is_symbolic() && vc_bool("short")) t *= 1e-5; V6 x = any_state();
  V6 z = orbit::CalcHcwStm(k.R, k.mu, 0.0) * x; for (int i = 0; i < 6; i++) vc_eq("no time, no motion", z[i], x[i]);
  V6 y = orbit::CalcHcwStm(k.R, k.mu, t) * x, w = orbit::CalcHcwStm(k.R, k.mu, u) * y, o = orbit::CalcHcwStm(k.R, k.mu, t + u) * x;
  for (int i = 0; i < 6; i++) vc_eqs("two intervals in a row are one interval", w[i], o[i], 1e7);
  vc_eqs("along-track momentum is conserved", y[4] + 2 * n * y[0], x[4] + 2 * n * x[0], 1e3);
  double E0 = x[3] * x[3] + x[4] * x[4] + x[5] * x[5] - 3 * n * n * x[0] * x[0] + n * n * x[2] * x[2], E1 = y[3] * y[3] + y[4] * y[4] + y[5] * y[5] - 3 * n * n * y[0] * y[0] + n * n * y[2] * y[2];
  vc_eqs("relative energy is conserved", E1, E0, 1e3);
}
