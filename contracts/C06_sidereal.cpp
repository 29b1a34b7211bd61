// VC-SOURCES: math_physics/orbit/sgp4/sgp4unit.cpp math_physics/orbit/sgp4/sgp4ext.cpp
// VC-REPLACE: fmod WITH vc_fmod
#include "vc_s2e.hpp"
#include "math_physics/orbit/sgp4/sgp4unit.h"
#include "math_physics/orbit/sgp4/sgp4ext.h"
// contract of the C library's remainder: whole multiples of y are removed, the sign of x is kept
static double g_x, g_y, g_r; static int g_n = 0;
extern "C" double vc_fmod(double x, double y) { g_n++; g_x = x; g_y = y; g_r = vc_real("remainder"); vc_assume((g_r < y) & (g_r > -y)); vc_assume(((x >= 0) & (g_r >= 0)) | ((x <= 0) & (g_r <= 0))); return g_r; }
PROP(sidereal) {
  double jd = vc_real_in("jd", 2400000, 2500000), r = gstime(jd);
  double t = (jd - 2451545.0) / 36525.0;
  // IAU 1982 Greenwich mean sidereal time in seconds; 86400 seconds per turn
  double s = 67310.54841 + (876600.0 * 3600 + 8640184.812866) * t + 0.093104 * t * t - 6.2e-6 * t * t * t;
  vc_check("sidereal time lies in [0, 2 pi]", r >= 0 && r <= s2e::math::tau);
  if (vc_is_symbolic()) {
    vc_check("one remainder is taken", g_n == 1);
    vc_eq("sidereal time is the IAU 1982 polynomial modulo one turn", g_x / s2e::math::tau, s / 86400.0);
    vc_eq("the remainder is modulo one turn", g_y, s2e::math::tau);
    vc_eq("negative remainders are turned once", r, g_r < 0 ? g_r + s2e::math::tau : g_r);
  } else { double k = (s / 86400.0) - r / s2e::math::tau; vc_check("sidereal time is the IAU 1982 polynomial modulo one turn", vc_abs(k - std::round(k)) < 1e-6); }
}
