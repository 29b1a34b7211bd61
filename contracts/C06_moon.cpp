// VC-SOURCES: math_physics/planet_rotation/moon_rotation_utilities.cpp math_physics/math/vector.cpp
// VC-REPLACE: s2e::planet_rotation::CalcDcmEciToMeanEarth WITH vc_mean_earth
#include "vc_s2e.hpp"
#include "math_physics/planet_rotation/moon_rotation_utilities.hpp"
using namespace s2e;
// contract of the mean-Earth frame (proved in C06_orbit); here: any matrix
static M33 g_me; static V3 g_r, g_v; static int g_n = 0;
extern "C" void vc_mean_earth(M33* m, const V3* r, const V3* v) { g_r = *r; g_v = *v; g_n++; *m = g_me; }
static M33 mul(const M33& a, const M33& b) { M33 r; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) r[i][j] = a[i][0] * b[0][j] + a[i][1] * b[1][j] + a[i][2] * b[2][j]; return r; }
// keeps the compiler from folding sines and cosines of constants
__attribute__((noinline, optnone)) static double opaque(double x) { return x; }
PROP(principal) {
  V3 r = vec3(any_real("rx", 1, 2), any_real("ry", -1, 1), any_real("rz", -1, 1)), v = vec3(any_real("vx", -1, 1), any_real("vy", 1, 2), any_real("vz", -1, 1));
  g_me = vc_is_symbolic() ? any_mat("mean Earth") : planet_rotation::CalcDcmEciToMeanEarth(r, v);
  double as = opaque(math::arcsec_to_rad), ax = 0.285 * as, ay = 78.580 * as, az = 67.573 * as;
  M33 X = math::MakeIdentityMatrix<3>(), Y = X, Z = X;
  X[1][1] = X[2][2] = cos(ax); X[1][2] = sin(ax); X[2][1] = -sin(ax);
  Y[0][0] = Y[2][2] = cos(ay); Y[0][2] = -sin(ay); Y[2][0] = sin(ay);
  Z[0][0] = Z[1][1] = cos(az); Z[0][1] = sin(az); Z[1][0] = -sin(az);
  EQ33("principal axes are the mean-Earth axes turned by the DE430 offsets", planet_rotation::CalcDcmEciToPrincipalAxis(r, v), mul(mul(Z, mul(Y, X)), g_me));
  if (vc_is_symbolic()) { vc_check("the mean-Earth frame of the given state is used", g_n == 1); EQ3("the mean-Earth frame of the given state is used", g_r, r); EQ3("the mean-Earth frame of the given state is used", g_v, v); }
}
