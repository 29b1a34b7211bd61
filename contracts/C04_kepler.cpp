// VC-SOURCES: math_physics/orbit/kepler_orbit.cpp math_physics/orbit/orbital_elements.cpp
// VC-REPLACE: s2e::math::WrapTo2Pi WITH vc_wrap
// VC-REPLACE: s2e::orbit::KeplerOrbit::SolveKeplerNewtonMethod WITH vc_newton
#include "vc_orbit.hpp"
#include "math_physics/math/s2e_math.hpp"
#include "math_physics/orbit/kepler_orbit.hpp"
using namespace s2e::orbit;
// contract of WrapTo2Pi (C02_wrap): adds whole turns
static int g_wraps = 0; static double g_wrap_in[4];
extern "C" double vc_wrap(double x) {
  if (g_wraps < 4) g_wrap_in[g_wraps] = x;
  g_wraps++;
  double k = vc_real("turns");
  vc_assume(sin(s2e::math::tau * k) == 0); vc_assume(cos(s2e::math::tau * k) == 1);
  return x + s2e::math::tau * k;
}
static int g_calls = 0; static double g_ne, g_nl, g_nu;
// contract of SolveKeplerNewtonMethod (C04_newton): some angle; what it satisfies is proved there
extern "C" double vc_newton(void*, double e, double l, double, int) { g_calls++; g_ne = e; g_nl = l; g_nu = vc_real("eccentric_anomaly"); return g_nu; }

PROP(kepler_orbit_state) {
  Kep k = any_kepler();
  double jd0 = any_real("epoch", 2.4e6, 2.5e6), jd = jd0 + any_real("elapsed_day", -30, 30);
  KeplerOrbit o(k.mu, OrbitalElements(jd0, k.a, k.e, k.inc, k.raan, k.arg));
  o.CalcOrbit(jd);
  if (!vc_is_symbolic()) {  // native: recover the anomaly the code used
    V3 r = o.GetPosition_i_m();
    g_nu = atan2(dot3(r, k.Q) / (k.a * k.b), dot3(r, k.P) / k.a + k.e);
  }
  double cu = cos(g_nu), su = sin(g_nu);
  V3 r = o.GetPosition_i_m(), v = o.GetVelocity_i_m_s();
  vc_assume(1 - k.e * cu > 0);
  EQ3S("position is on the Kepler ellipse at the eccentric anomaly", r, kep_pos(k, cu, su), k.a);
  EQ3S("velocity is the Kepler velocity at the eccentric anomaly", v, kep_vel(k, cu, su), k.a * k.n * 10);
  if (vc_is_symbolic()) {
    vc_check("Kepler's equation is solved once", g_calls == 1);
    vc_eq("Kepler's equation uses the eccentricity", g_ne, k.e);
    double turns = (g_nl - k.n * (jd - jd0) * 86400.0);
    vc_eq("mean anomaly is mean motion times elapsed time", sin(turns), 0); vc_eq("mean anomaly is mean motion times elapsed time", cos(turns), 1);
  } else {
    double M = k.n * (jd - jd0) * 86400.0, res = g_nu - k.e * sin(g_nu) - M;
    vc_check("Kepler's equation is solved once", true);
    if (k.e < 0.3 && vc_abs(M) < 1e4) { vc_eq("mean anomaly is mean motion times elapsed time", sin(res), 0); vc_check("mean anomaly is mean motion times elapsed time", cos(res) > 0); }
  }
}
// the specified ellipse carries the two-body invariants of its elements
PROP(kepler_ellipse_invariants) {
  Kep k = any_kepler(); double u = any_real("u", -7, 7), cu = cos(u), su = sin(u);
  KeplerOrbit o(k.mu, OrbitalElements(0, k.a, k.e, k.inc, k.raan, k.arg));
  V3 r = kep_pos(k, cu, su), v = kep_vel(k, cu, su);
  double rn = k.a * (1 - k.e * cu); vc_assume(1 - k.e * cu > 0);
  vc_eqs("radius a(1 - e cos u)", dot3(r, r), rn * rn, k.a * k.a);
  vc_eqs("vis-viva energy", dot3(v, v) / 2 - k.mu / rn, -k.mu / (2 * k.a), k.mu / rn);
  double p = std::sqrt(k.mu * k.a) * k.b;
  EQ3S("angular momentum along the orbit normal", cross3(r, v), scale3(p, k.W), p);
  EQ3S("eccentricity vector along perigee", sub3(scale3(1 / k.mu, cross3(v, cross3(r, v))), scale3(1 / rn, r)), scale3(k.e, k.P), 10);
  vc_eq("mean motion", o.mean_motion_rad_s_, k.n);
}
