// VC-SOURCES: math_physics/orbit/orbital_elements.cpp math_physics/orbit/kepler_orbit.cpp
// VC-REPLACE: s2e::math::WrapTo2Pi WITH vc_wrap
#include "vc_orbit.hpp"
#include "math_physics/math/s2e_math.hpp"
#include "math_physics/orbit/kepler_orbit.hpp"
using namespace s2e::orbit;
// contract of WrapTo2Pi (C02_wrap): adds whole turns
static double g_wrap_out = 0;
extern "C" double vc_wrap(double x) {
  double k = vc_real("turns");
  vc_assume(sin(s2e::math::tau * k) == 0); vc_assume(cos(s2e::math::tau * k) == 1);
  g_wrap_out = x + s2e::math::tau * k;
  return g_wrap_out;
}
// A state on the ellipse with semi-latus rectum p, eccentricity e, node, inclination, perigee argument w and true anomaly f (textbook perifocal form)
PROP(elements_from_state) {
  double s = any_pos("speed_scale", 6000, 8000), p = any_pos("p", 7e6, 4e7), e = vc_real_in("e", 0, 0.9), b = vc_is_symbolic() ? vc_real("b") : std::sqrt(1 - e * e);
  double mu = s * s * p, jd = any_real("jd", 2.4e6, 2.5e6);
  double raan = any_real("raan", -7, 7), inc = any_real("inc", -7, 7), w = any_real("w", -7, 7), f = any_real("f", -7, 7);
  double cO = cos(raan), sO = sin(raan), ci = cos(inc), si = sin(inc), cw = cos(w), sw = sin(w), cf = cos(f), sf = sin(f);
  double cp = cw * cf - sw * sf, sp = sw * cf + cw * sf;   // argument of latitude
  V3 N = vec3(cO, sO, 0), M = vec3(-sO * ci, cO * ci, si);
  double rho = p / (1 + e * cf);
  if (vc_is_symbolic()) { vc_assume(e > 0); vc_assume(b > 0); vc_assume(b * b == 1 - e * e); vc_assume(si > 0); vc_assume(1 + e * cf > 0); vc_assume(s * p * si > 1e-9); }
  else { vc_assume(e > 1e-3); vc_assume(si > 1e-3); }
  V3 r = add3(scale3(rho * cp, N), scale3(rho * sp, M)), v = add3(scale3(-s * (sp + e * sw), N), scale3(s * (cp + e * cw), M));
  OrbitalElements o(mu, jd, r, v);
  double a = p / (b * b);
  vc_eqs("semi-major axis recovered", o.GetSemiMajorAxis_m(), a, a);
  vc_eq("eccentricity recovered", o.GetEccentricity(), e);
  vc_eq("inclination recovered (cosine)", cos(o.GetInclination_rad()), ci);
  vc_eq("inclination recovered (sine)", sin(o.GetInclination_rad()), si);
  vc_eq("ascending node recovered (cosine)", cos(o.GetRaan_rad()), cO);
  vc_eq("ascending node recovered (sine)", sin(o.GetRaan_rad()), sO);
  vc_eq("argument of perigee recovered (cosine)", cos(o.GetArgPerigee_rad()), cw);
  vc_eq("argument of perigee recovered (sine)", sin(o.GetArgPerigee_rad()), sw);
  double cE = (e + cf) / (1 + e * cf), sE = b * sf / (1 + e * cf);
  double dt = (jd - o.GetEpoch_jday()) * 86400.0;
  if (vc_is_symbolic()) {
    double E = g_wrap_out;
    vc_eq("eccentric anomaly recovered (cosine)", cos(E), cE);
    vc_eq("eccentric anomaly recovered (sine)", sin(E), sE);
    double n = o.GetSemiMajorAxis_m(); n = std::sqrt(mu / (n * n * n));
    vc_eq("epoch is the perigee passage", n * dt, E - e * sin(E));
  } else {
    double u = atan2(sE, cE), n = std::sqrt(mu / (a * a * a)), x = n * dt - (u - e * sE);
    vc_check("epoch is the perigee passage", cos(x) > 0.999 && sin(x) < 1e-2 && sin(x) > -1e-2);
  }
}
