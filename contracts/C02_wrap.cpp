// VC-SOURCES: math_physics/math/s2e_math.cpp
// VC-LOOP: s2e::math::WrapTo2Pi WITH vc_inv_wrap
#include "vc_s2e.hpp"
#include "math_physics/math/s2e_math.hpp"
static double g_a;
static double turns(double x) { return (x - g_a) / s2e::math::tau; }
extern "C" void vc_inv_wrap(const double* v, int n) {
  for (int i = 0; i < n; i++) { double x = v[i];
  double k = turns(x);
  vc_inv(std::floor(k) == k);
  vc_inv(!(g_a < 0) | (x < s2e::math::tau));
  vc_inv(!(g_a > s2e::math::tau) | (x > 0)); }
}
PROP(wrap_to_2pi) {
  g_a = vc_real_in("angle", -1e6, 1e6);
  double r = s2e::math::WrapTo2Pi(g_a);
  double k = turns(r);
  vc_check("wrapped angle in [0, 2pi]", r >= 0 && r <= s2e::math::tau);
  vc_check("wrapped angle differs by whole turns", vc_is_symbolic() ? std::floor(k) == k : vc_abs(k - std::round(k)) < 1e-6);
}
