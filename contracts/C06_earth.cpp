// VC-SOURCES: environment/global/earth_rotation.cpp math_physics/orbit/sgp4/sgp4ext.cpp math_physics/orbit/sgp4/sgp4unit.cpp math_physics/math/vector.cpp
// VC-REPLACE: gstime WITH vc_gstime
#include "vc_s2e.hpp"
#include "environment/global/earth_rotation.hpp"
#include "math_physics/orbit/sgp4/sgp4unit.h"
using namespace s2e; using namespace s2e::environment;
// contract of the sidereal time (proved in C06_sidereal): an angle depending on the date only
static double g_gmst; static double g_jd;
extern "C" double vc_gstime(double jd) { vc_check("sidereal time is taken for the given date", jd == g_jd); return g_gmst; }
static M33 rx(double a) { M33 m; double c = cos(a), s = sin(a), v[9] = {1, 0, 0, 0, c, s, 0, -s, c}; for (int i = 0; i < 9; i++) m[i / 3][i % 3] = v[i]; return m; }
static M33 ry(double a) { M33 m; double c = cos(a), s = sin(a), v[9] = {c, 0, -s, 0, 1, 0, s, 0, c}; for (int i = 0; i < 9; i++) m[i / 3][i % 3] = v[i]; return m; }
static M33 rz(double a) { M33 m; double c = cos(a), s = sin(a), v[9] = {c, s, 0, -s, c, 0, 0, 0, 1}; for (int i = 0; i < 9; i++) m[i / 3][i % 3] = v[i]; return m; }
static M33 mul(const M33& a, const M33& b) { M33 r; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) r[i][j] = a[i][0] * b[0][j] + a[i][1] * b[1][j] + a[i][2] * b[2][j]; return r; }
static void setup() {
  g_jd = vc_is_symbolic() ? vc_real("jd") : vc_real_in("jd", 2400000, 2500000);
  g_gmst = vc_is_symbolic() ? vc_real("gmst") : gstime(g_jd);
}
// polynomial in julian centuries of terrestrial time; coefficients in seconds of arc
static double poly(double t, const double* c, int n) { double s = 0, p = 1; for (int i = 0; i < n; i++) { s += c[i] * math::arcsec_to_rad * p; p *= t; } return s; }
static double delaunay(double t, double deg, double a, double b, double c, double d) { double t2 = t * t, t3 = t2 * t, t4 = t3 * t; return deg * math::deg_to_rad + a * math::arcsec_to_rad * t + b * math::arcsec_to_rad * t2 + c * math::arcsec_to_rad * t3 + d * math::arcsec_to_rad * t4; }
PROP(idle) {
  setup(); M33 id = math::MakeIdentityMatrix<3>(); EarthRotation e(EarthRotationMode::kIdle);
  if (vc_is_symbolic()) EQ33("identity before the first update", e.GetDcmJ2000ToEcef(), id);
  e.Update(g_jd); EQ33("idle mode keeps the identity", e.GetDcmJ2000ToEcef(), id);
  vc_check("mode names select the modes", ConvertEarthRotationMode("IDLE") == EarthRotationMode::kIdle && ConvertEarthRotationMode("SIMPLE") == EarthRotationMode::kSimple && ConvertEarthRotationMode("FULL") == EarthRotationMode::kFull && ConvertEarthRotationMode("OTHER") == EarthRotationMode::kIdle);
}
PROP(simple) {
  setup(); EarthRotation e(EarthRotationMode::kSimple); if (vc_bool("earlier update")) { double jd = g_jd; g_jd = 2451545.0; if (vc_is_symbolic()) g_gmst = vc_real("earlier gmst"); e.Update(g_jd); g_jd = jd; if (vc_is_symbolic()) g_gmst = vc_real("gmst now"); }
  e.Update(g_jd); EQ33("simple mode turns about the z axis by the mean sidereal time", e.GetDcmJ2000ToEcef(), rz(g_gmst));
}
PROP(full) {
  setup(); EarthRotation e(EarthRotationMode::kFull);
  e.Update(g_jd); M33 d = e.GetDcmJ2000ToEcef();
  double t = (g_jd + 32.184 * (1.0 / 86400.0) - 2451545.0) / 36525.0, t2 = t * t, t3 = t2 * t, as = math::arcsec_to_rad;
  // precession (IAU 1976, short form), seconds of arc
  double zeta = 2306.2181 * as * t + 0.30188 * as * t2 + 0.017998 * as * t3, theta = 2004.3109 * as * t - 0.426650 * as * t2 - 0.041833 * as * t3, z = 2306.2181 * as * t + 1.09468 * as * t2 + 0.018203 * as * t3;
  M33 P = mul(mul(rz(-z), ry(theta)), rz(-zeta));
  // nutation: mean obliquity, Delaunay arguments and the nine leading luni-solar terms
  double eps = 23.4392911 * math::deg_to_rad - 46.815 * as * t - 5.9e-4 * as * t2 + 1.813e-3 * as * t3;
  double lm = delaunay(t, 134.96340251, 1717915923.2178, 31.8792, 0.051635, -0.0002447), ls = delaunay(t, 357.52910918, 129596581.0481, -0.5532, 0.000136, -0.00001149);
  double f = delaunay(t, 93.27209062, 1739527262.8478, -12.7512, -0.001037, 0.00000417), el = delaunay(t, 297.85019547, 1602961601.209, -6.3706, 0.006593, -0.00003169), om = delaunay(t, 125.04455501, -6962890.5431, 7.4722, 0.007702, -0.00005939);
  double L = f + om, D = L - el, arg[9] = {om, 2 * D, 2 * om, 2 * L, ls, lm, 2 * D + ls, 2 * L + lm, 2 * D - ls};
  static const double cpsi[9] = {-17.206, -1.317, 0.207, -0.228, 0.148, 0.071, -0.052, -0.03, 0.022}, ceps[9] = {9.205, 0.573, -0.09, 0.098, 0.007, -0.001, 0.022, 0.013, -0.01};
  double dpsi = 0, deps = 0; for (int i = 0; i < 9; i++) { dpsi += cpsi[i] * as * sin(arg[i]); deps += ceps[i] * as * cos(arg[i]); }
  M33 N = mul(mul(rx(-(eps + deps)), rz(-dpsi)), rx(eps));
  M33 A = rz(g_gmst + dpsi * cos(eps + deps));
  EQ33("full mode is apparent sidereal time, nutation and precession", d, mul(A, mul(N, P)));
}
