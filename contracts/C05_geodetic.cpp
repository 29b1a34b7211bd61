// VC-SOURCES: math_physics/geodesy/geodetic_position.cpp math_physics/orbit/sgp4/sgp4ext.cpp math_physics/math/quaternion.cpp math_physics/math/vector.cpp math_physics/math/matrix_vector.cpp
// VC-REPLACE: s2e::math::Quaternion::ConvertFromDcm WITH vc_from_dcm
// VC-REPLACE: AcTan WITH vc_actan
// VC-REPLACE: FMod2p WITH vc_fmod2p
// VC-LOOP: s2e::geodesy::GeodeticPosition::UpdateFromEcef WITH vc_inv_update
#include "vc_s2e.hpp"
#include "math_physics/geodesy/geodetic_position.hpp"
#include "environment/global/physical_constants.hpp"
using namespace s2e; using namespace s2e::geodesy;
static const double A = environment::earth_equatorial_radius_m, F = environment::earth_flattening, E2 = F * (2.0 - F);
static M33 g_dcm; static int g_converted = 0; static Q4 g_q;
extern "C" void vc_from_dcm(Q4* r, const M33* m) { g_dcm = *m; g_converted++; g_q = any_unit_quat("converted"); *r = g_q; }
// contract of the arctangent (C05_angles): an angle in [0, 2 pi] of the right quadrant with the given sine and cosine
static double gv_s, gv_c, gv_h, gv_last, gv_prev;
extern "C" double vc_actan(double s, double c) {
  gv_s = s; gv_c = c; gv_prev = gv_last; double t = vc_real("arctangent"), h = vc_real("radius");
  vc_assume((t >= 0) & (t <= math::tau)); vc_assume((c < 0) | (t <= math::pi_2) | (t >= 3 * math::pi_2 - 1e-12));
  vc_assume(h >= 0); gv_last = t; gv_h = h;
  return t;
}
// sine and cosine of the last angle returned (stated only for the angles whose values matter: the longitude and the final latitude)
static void facts() { vc_assume(gv_s == gv_h * sin(gv_last)); vc_assume(gv_c == gv_h * cos(gv_last)); }
// contract of the reduction (C05_angles)
extern "C" double vc_fmod2p(double x) { if (x == gv_last) facts(); double t = vc_real("reduced"); vc_assume((t >= 0) & (t <= math::tau)); vc_assume(sin(t) == sin(x)); vc_assume(cos(t) == cos(x)); return t; }
// the iteration carries the latitude returned by the last arctangent
extern "C" void vc_inv_update(const double* v, int n) { if (n == 1) vc_inv(v[0] == gv_last); }
static void ltc(double lat, double lon, const GeodeticPosition& g) {
  if (!vc_is_symbolic()) { g_q = g.GetQuaternionXcxfToLtc(); g_dcm = M33(0.0); for (int j = 0; j < 3; j++) { V3 c = spec_i2b(g_q, vec3(j == 0, j == 1, j == 2)); for (int i = 0; i < 3; i++) g_dcm[i][j] = c[i]; } }
  double sp = sin(lat), cp = cos(lat), sl = sin(lon), cl = cos(lon);
  V3 east = vec3(-sl, cl, 0), up = vec3(cp * cl, cp * sl, sp), north = cross3(up, east);
  for (int j = 0; j < 3; j++) {
    vc_eq("local frame x axis is east", g_dcm[0][j], east[j]);
    vc_eq("local frame y axis is north", g_dcm[1][j], north[j]);
    vc_eq("local frame z axis is up", g_dcm[2][j], up[j]);
  }
  for (int i = 0; i < 4; i++) vc_check("local frame quaternion is the converted matrix", g.GetQuaternionXcxfToLtc()[i] == g_q[i]);
}
PROP(to_ecef) {
  double lat = vc_real_in("lat", -1.5707, 1.5707), lon = vc_real_in("lon", -7, 7), h = any_real("h", -1e4, 1e7);
  GeodeticPosition g(lat, lon, h);
  vc_check("constructor keeps the coordinates", g.GetLatitude_rad() == lat && g.GetLongitude_rad() == lon && g.GetAltitude_m() == h);
  ltc(lat, lon, g);
  V3 p = g.CalcEcefPosition();
  double n = A / std::sqrt(1 - E2 * sin(lat) * sin(lat));
  // the foot point lies on the ellipsoid, its normal is the geodetic vertical and the position lies at the altitude along it
  V3 up = vec3(cos(lat) * cos(lon), cos(lat) * sin(lon), sin(lat)), foot = vec3(n * up[0], n * up[1], n * (1 - E2) * up[2]);
  EQ3("position is the foot point plus altitude along the vertical", p, add3(foot, scale3(h, up)));
}
PROP(from_ecef) {
  double x = any_real("x", -8e6, 8e6), y = any_real("y", -8e6, 8e6), z = any_real("z", -8e6, 8e6);
  if (!vc_is_symbolic()) { double k = 6.5e6 / std::sqrt(x * x + y * y + z * z); if (k > 1) { x *= k; y *= k; z *= k; } if (vc_bool("pole")) { x = y = 0; z = z < 0 ? -6.6e6 : 6.6e6; } }
  V3 p = vec3(x, y, z); double r = std::sqrt(x * x + y * y);
  vc_assume(x * x + y * y > 0 || z != 0);
  GeodeticPosition g;
  g.UpdateFromEcef(p);
  double lat = g.GetLatitude_rad(), lon = g.GetLongitude_rad(), h = g.GetAltitude_m();
  vc_check("longitude lies in [0, 2 pi]", lon >= 0 && lon <= math::tau);
  vc_check("latitude lies in [-pi/2, pi/2]", lat >= -1.570796327 && lat <= 1.570796327);
  vc_eq("longitude points to x", r * cos(lon), x); vc_eq("longitude points to y", r * sin(lon), y);
  ltc(lat, lon, g);
  if (vc_is_symbolic()) {
    // the fixed-point equation of the latitude holds for an angle within 1e-10 rad of the reported one
    double f = gv_prev, n = A / std::sqrt(1 - E2 * sin(f) * sin(f)), d = f - lat;
    vc_check("the latitude has converged", ((d <= 1e-9) & (d >= -1e-9)) | ((d <= math::tau + 1e-9) & (d >= math::tau - 1e-9)));
    vc_eq("the latitude solves the geodetic equation", gv_s, z + n * E2 * sin(f));
    vc_eq("the latitude solves the geodetic equation", gv_c, r);
    double w = gv_c * cos(lat) + gv_s * sin(lat);
    vc_eq("altitude over the foot point", n + h, w);
    // from here only the arctangent's contract matters, for any arguments
    vc_forget("gv_s", &gv_s); vc_forget("gv_c", &gv_c); facts();
    w = gv_c * cos(lat) + gv_s * sin(lat);
    vc_eq("radius from the axis", w * cos(lat), gv_c); vc_eq("height over the equator", w * sin(lat), gv_s);
  } else {
    V3 q = g.CalcEcefPosition();
    for (int i = 0; i < 3; i++) vc_check("the latitude solves the geodetic equation", vc_abs(q[i] - p[i]) < 0.01);
  }
}
