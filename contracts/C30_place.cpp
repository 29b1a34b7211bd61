// VC-SOURCES: math_physics/geomagnetic/igrf.cpp math_physics/orbit/sgp4/sgp4ext.cpp
// VC-REPLACE: sin WITH vc_sin
// VC-REPLACE: cos WITH vc_cos
// VC-REPLACE: acos WITH vc_acos
// VC-REPLACE: sqrt WITH vc_root
// VC-REPLACE: gigrf WITH vc_gigrf
#define VC_ANGLE_LABEL "inertial field at the geodetic place is the rotated gradient of the potential"
#include "vc_igrf.hpp"
#include <fstream>
#include <unistd.h>
#include "math_physics/geomagnetic/igrf.h"
#define ROOT(x) __builtin_elementwise_sqrt((double)(x))
// the square roots of the conversion to the geocentric place, in the order of their dependence: its radius of curvature term, distance and sine of the colatitude
static double g_root[3]; static int g_stage = 3;
extern "C" double vc_root(double x) {
  static const char* name[3] = {"curvature of the ellipsoid", "distance from the centre of the Earth", "colatitude"}; 
  if (g_stage > 2) return ROOT(x);
  double k = g_root[g_stage]; vc_eq(name[g_stage], x, k * k); g_stage++; return k;
}
extern "C" double vc_acos(double x) { double t = vc_real_in("colatitude", 0, 3.14159); g_angle[g_n] = t; g_c[g_n] = x; g_s[g_n++] = g_root[2]; g_angle[g_n] = M_PI - t; g_c[g_n] = -x; g_s[g_n] = g_s[g_n - 1]; g_n++; return t; }
// the coefficient file: first-degree (or second-degree) coefficients with secular variation, read on the first call
static int g_degree, g_reads; static double g_epoch;
extern "C" void vc_gigrf(int gen, double year) { g_reads++; int stage = g_stage; g_stage = 3; double ext[3] = {0, 0, 0}; vc_check("coefficients of the 13th generation", gen == 13); field(6378.137, 298.25722, 6371.2, g_degree); tcoef(A, D, g_epoch, 0, ext); tyear(year); g_stage = stage; }
static void coefficients(int N) {
  g_degree = N; g_epoch = 2020;
  for (int n = 1; n <= N; n++) for (int m = 0; m <= n; m++) { A[m][n] = any_real("g", -1, 1); D[m][n] = any_real("g change", -1, 1); if (m) { A[n][m - 1] = any_real("h", -1, 1); D[n][m - 1] = any_real("h change", -1, 1); } }
  if (vc_is_symbolic()) return;
  std::string path = "/tmp/vc_13_" + std::to_string(getpid()); std::ofstream f(path); f.precision(17); f << "   8 3 2015 2025\ny  0  0 2015.0 2020.0 2020-25\n";
  for (int n = 1; n <= 8; n++) for (int m = 0; m <= n; m++) { f << "g " << n << " " << m << " 7 " << (n <= N ? A[m][n] : 0) << " " << (n <= N ? D[m][n] : 0) << "\n"; if (m) f << "h " << n << " " << m << " 7 " << (n <= N ? A[n][m - 1] : 0) << " " << (n <= N ? D[n][m - 1] : 0) << "\n"; }
  f.close(); set_file_path(path.c_str());
}
struct Place { double lat, lon, alt, side, s, c, sl, cl, sg, cg; };
static Place place(const Place* o) {
  Place p; p.lat = any_real("latitude", -1.57, 1.57); p.lon = any_real("longitude", -3, 3); p.alt = vc_real_in("altitude", 0, 4e7); p.side = any_real("sidereal angle", 0, 6);
  if (o && vc_bool("same latitude")) { p.lat = o->lat; p.s = o->s; p.c = o->c; } else { angle("latitude", p.lat, &p.s, &p.c); vc_assume(p.c > 0.000001); if (o && vc_is_symbolic()) vc_assume(p.lat != o->lat); }
  if (o && vc_bool("same longitude")) { p.lon = o->lon; p.sl = o->sl; p.cl = o->cl; } else { angle("longitude", p.lon, &p.sl, &p.cl); if (o && vc_is_symbolic()) vc_assume(p.lon != o->lon); }
  if (o && vc_bool("same altitude")) p.alt = o->alt; 
  angle("sidereal angle", p.side, &p.sg, &p.cg);
  return p;
}
// field at the place, expressed in the inertial frame
static void inertial(const Place& p, double year, double* out) {
  double a = 6378.137, b = a * (1 - 1 / 298.25722), h = p.alt / 1000, P = ROOT(a * a * p.c * p.c + b * b * p.s * p.s), x = (a * a / P + h) * p.c, z = (b * b / P + h) * p.s, r = ROOT(x * x + z * z), c = z / r, s = x / r, B[3];
  if (vc_is_symbolic()) vc_assume(s > 0.0000002);
  g_root[0] = P; g_root[1] = r; g_root[2] = s;
  expected(g_degree, year - g_epoch, c, s, p.cl, p.sl, 6371.2 / r, B);
  double ex = -c * B[0] - s * B[2], ez = s * B[0] - c * B[2], ey = B[1];   // meridian plane: north (-c, 0, s), down (-s, 0, -c)
  double fx = p.cl * ex - p.sl * ey, fy = p.sl * ex + p.cl * ey;           // Earth-fixed
  out[0] = p.cg * fx - p.sg * fy; out[1] = p.sg * fx + p.cg * fy; out[2] = ez;
}
static void run(int N, bool twice) {
  static bool read = false; g_n = 0; g_reads = 0; g_stage = 3; if (!read || vc_is_symbolic()) coefficients(N); read = true;
  Place p = place(nullptr), last = p; double year = any_real("year", 2015, 2025), B[3], E[3];
  if (twice) { inertial(p, year, E); g_stage = 0; IgrfCalc(year, p.lat, p.lon, p.alt, p.side, B); p = place(&last); if (vc_bool("other year")) year = any_real("year", 2015, 2025); }
  inertial(p, year, E); g_stage = twice && p.lat == last.lat && p.alt == last.alt ? 3 : 0;
  IgrfCalc(year, p.lat, p.lon, p.alt, p.side, B);
  for (int i = 0; i < 3; i++) vc_eqs("inertial field at the geodetic place is the rotated gradient of the potential", B[i], E[i], 1000);
  if (vc_is_symbolic()) vc_check("coefficients are read once", g_reads == 1);
}
PROP(place) { vc_assumption("coefficients of degree 1 (the field of every degree is decided separately)"); run(1, false); }
PROP(place_after_another) { vc_assumption("coefficients of degree 1 (the field of every degree is decided separately)"); run(1, true); }
