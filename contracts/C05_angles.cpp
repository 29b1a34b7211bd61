// VC-SOURCES: math_physics/orbit/sgp4/sgp4ext.cpp
#include "vc_s2e.hpp"
#include "math_physics/orbit/sgp4/sgp4ext.h"
PROP(arctangent) {
  double s = any_real("s", -2, 2), c = any_real("c", -2, 2);
  if (!vc_is_symbolic() && vc_bool("s zero")) s = 0;
  if (!vc_is_symbolic() && vc_bool("c zero")) c = 0;
  vc_assume(s * s + c * c > 0);
  double t = AcTan(s, c), h = std::sqrt(s * s + c * c);
  vc_check("arctangent lies in [0, 2 pi]", t >= 0 && t <= s2e::math::tau + 1e-12);
  vc_check("arctangent of a non-negative cosine lies in the right half plane", c < 0 || t <= s2e::math::pi_2 + 1e-12 || t >= 3 * s2e::math::pi_2 - 1e-12);
  vc_check("arctangent of a non-negative sine lies in the upper half plane", s < 0 || t <= s2e::math::pi + 1e-12 || t >= s2e::math::tau - 1e-12);
  vc_eq("arctangent has the given sine", h * sin(t), s);
  vc_eq("arctangent has the given cosine", h * cos(t), c);
}
PROP(modulo) {
  double x = vc_real_in("x", -1e6, 1e6), r = FMod2p(x), k = (x - r) / s2e::math::tau;
  vc_check("angle modulo 2 pi lies in [0, 2 pi)", r >= 0 && r <= s2e::math::tau);
  vc_check("angle modulo 2 pi differs by whole turns", vc_is_symbolic() ? std::floor(k) == k : vc_abs(k - std::round(k)) < 1e-6);
}
