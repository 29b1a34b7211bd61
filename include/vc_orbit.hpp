// Keplerian ellipse written from the textbook definition
#ifndef VC_ORBIT_HPP_
#define VC_ORBIT_HPP_
#include "vc_s2e.hpp"
struct Kep { double a, e, mu, raan, inc, arg, cO, sO, ci, si, cw, sw; V3 P, Q, W; double n, b; };
static inline void kep_frame(Kep& k) {
  k.P = vec3(k.cO * k.cw - k.sO * k.ci * k.sw, k.sO * k.cw + k.cO * k.ci * k.sw, k.si * k.sw);
  k.Q = vec3(-k.cO * k.sw - k.sO * k.ci * k.cw, -k.sO * k.sw + k.cO * k.ci * k.cw, k.si * k.cw);
  k.W = vec3(k.sO * k.si, -k.cO * k.si, k.ci);
}
static inline Kep any_kepler() {
  Kep k; k.a = any_pos("a", 6e6, 5e7); k.e = vc_real_in("e", 0, 0.9999); k.mu = any_pos("mu", 1e14, 1e15);
  k.raan = any_real("raan", -7, 7); k.inc = any_real("inc", -7, 7); k.arg = any_real("arg", -7, 7);
  k.cO = cos(k.raan); k.sO = sin(k.raan); k.ci = cos(k.inc); k.si = sin(k.inc); k.cw = cos(k.arg); k.sw = sin(k.arg);
  kep_frame(k);
  k.n = std::sqrt(k.mu / (k.a * k.a * k.a)); k.b = std::sqrt(1 - k.e * k.e);
  return k;
}
static inline V3 kep_pos(const Kep& k, double cu, double su) { return add3(scale3(k.a * (cu - k.e), k.P), scale3(k.a * k.b * su, k.Q)); }
static inline V3 kep_vel(const Kep& k, double cu, double su) {
  double d = 1 - k.e * cu; return add3(scale3(-k.a * k.n * su / d, k.P), scale3(k.a * k.b * k.n * cu / d, k.Q));
}
#endif
