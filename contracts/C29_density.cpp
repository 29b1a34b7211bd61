// VC-SOURCES: math_physics/atmosphere/simple_air_density_model.cpp math_physics/atmosphere/harris_priester_model.cpp math_physics/geodesy/geodetic_position.cpp math_physics/math/vector.cpp math_physics/math/quaternion.cpp math_physics/math/s2e_math.cpp math_physics/orbit/sgp4/sgp4ext.cpp
// VC-REPLACE: s2e::geodesy::GeodeticPosition::CalcEcefPosition WITH vc_ecef
// VC-REPLACE: s2e::geodesy::GeodeticPosition::CalcQuaternionXcxfToLtc WITH vc_frame
// VC-REPLACE: atan2 WITH vc_atan2
// VC-REPLACE: cos WITH vc_cos
// VC-REPLACE: sin WITH vc_sin
#include "vc_s2e.hpp"
#include "math_physics/atmosphere/harris_priester_model.hpp"
#include "math_physics/atmosphere/simple_air_density_model.hpp"
#include "math_physics/geodesy/geodetic_position.hpp"
using namespace s2e; using namespace s2e::math; using namespace s2e::atmosphere;
// Vallado, table 8-4: base altitude [km], density there [kg/m3], scale height [km]
static const double kSimple[][3] = {{0, 1.225, 7.249}, {25, 3.899e-2, 6.349}, {30, 1.774e-2, 6.682}, {40, 3.972e-3, 7.554}, {50, 1.057e-3, 8.382}, {60, 3.206e-4, 7.714}, {70, 8.770e-5, 6.549}, {80, 1.905e-5, 5.799}, {90, 3.396e-6, 5.382}, {100, 5.297e-7, 5.877}, {110, 9.661e-8, 7.263}, {120, 2.438e-8, 9.473}, {130, 8.484e-9, 12.636}, {140, 3.845e-9, 16.149}, {150, 2.070e-9, 22.523}, {180, 5.464e-10, 29.740}, {200, 2.789e-10, 37.105}, {250, 7.248e-11, 45.546}, {300, 2.418e-11, 53.628}, {350, 9.518e-12, 53.298}, {400, 3.725e-12, 58.515}, {450, 1.585e-12, 60.828}, {500, 6.967e-13, 63.822}, {600, 1.454e-13, 71.835}, {700, 3.614e-14, 88.667}, {800, 1.170e-14, 124.64}, {900, 5.245e-15, 181.05}, {1000, 3.019e-15, 268.0}};
// Harris-Priester: altitude [km], density at the antapex and the apex of the diurnal bulge [g/km3]
static const double kHp[][3] = {{100, 497400.0, 497400.0}, {120, 24900.0, 24900.0}, {130, 8377.0, 8710.0}, {140, 3899.0, 4059.0}, {150, 2122.0, 2215.0}, {160, 1263.0, 1344.0}, {170, 800.8, 875.8}, {180, 528.3, 601.0}, {190, 361.7, 429.7}, {200, 255.7, 316.2}, {210, 183.9, 239.6}, {220, 134.1, 185.3}, {230, 99.49, 145.5}, {240, 74.88, 115.7}, {250, 57.09, 93.08}, {260, 44.03, 75.55}, {270, 34.30, 61.82}, {280, 26.97, 50.95}, {290, 21.39, 42.26}, {300, 17.08, 35.26}, {320, 10.99, 25.11}, {340, 7.214, 18.19}, {360, 4.824, 13.37}, {380, 3.274, 9.955}, {400, 2.249, 7.492}, {420, 1.558, 5.684}, {440, 1.091, 4.355}, {460, 0.7701, 3.362}, {480, 0.5474, 2.612}, {500, 0.3916, 2.042}, {520, 0.2819, 1.605}, {540, 0.2042, 1.267}, {560, 0.1488, 1.005}, {580, 0.1092, 0.7997}, {600, 0.08070, 0.6390}, {620, 0.06012, 0.5123}, {640, 0.04519, 0.4121}, {660, 0.03430, 0.3325}, {680, 0.02632, 0.2691}, {700, 0.02043, 0.2185}, {720, 0.01607, 0.1779}, {740, 0.01281, 0.1452}, {760, 0.01036, 0.1190}, {780, 0.008496, 0.09776}, {800, 0.007069, 0.08059}, {840, 0.004680, 0.05741}, {880, 0.003200, 0.04210}, {920, 0.002210, 0.03130}, {960, 0.001560, 0.02360}, {1000, 0.001150, 0.01810}};
static const int kSimpleN = sizeof(kSimple) / sizeof(kSimple[0]), kHpN = sizeof(kHp) / sizeof(kHp[0]);
static V3 g_place;
extern "C" void vc_frame(geodesy::GeodeticPosition*) {}
extern "C" V3 vc_ecef(const geodesy::GeodeticPosition*) { return g_place; }
static double layer(int k, double h) { return kSimple[k][1] * std::exp(-(h - kSimple[k][0]) / kSimple[k][2]); }
__attribute__((noinline, optnone)) static void simple(int k) {
  double lo = kSimple[k][0], hi = k + 1 < kSimpleN ? kSimple[k + 1][0] : 40000, h = vc_real_in("altitude", lo, hi); vc_assume(h < hi);
  if (!vc_is_symbolic() && (h - lo < 1e-9 || hi - h < 1e-9)) return;   // rounding of the unit conversion decides the layer
  vc_eqs("density of the layer", CalcAirDensityWithSimpleModel(h * 1000), layer(k, h), kSimple[k][1]);
  double a = CalcAirDensityWithSimpleModel(lo * 1000), b = CalcAirDensityWithSimpleModel((hi - 1e-6) * 1000); vc_check("density falls with altitude", b < a);
  if (k > 0) { double c = CalcAirDensityWithSimpleModel((lo - 1e-6) * 1000); vc_check("no jump between the layers", c < a * 1.002 && a < c * 1.002); }
}
PROP(simple_model) { for (int k = 0; k < kSimpleN; k++) if (vc_bool("layer")) { simple(k); return; } vc_check("no air below ground", CalcAirDensityWithSimpleModel(-any_pos("depth", 1, 1000)) == 0); }
// density of the diurnal bulge: interpolated exponentially in altitude, between antapex and apex with the cosine of half the angle from the apex, 30 deg east of the Sun
static double between(int k, int c, double h) { double r = kHp[k + 1][c] / kHp[k][c]; return kHp[k][c] * std::exp(std::log(r) * (h - kHp[k][0]) / (kHp[k + 1][0] - kHp[k][0])); }
static geodesy::GeodeticPosition g_geodetic(double lat, double lon, double h) { geodesy::GeodeticPosition p(lat, lon, h * 1000); if (vc_is_symbolic()) return p; g_place = p.CalcEcefPosition(); g_place = scale3(1 / norm3(g_place), g_place); return p; }
// angles of the Sun, known by their sines and cosines: right ascension (a) and declination (d)
static double g_alpha, g_delta, g_a[2], g_d[2]; static const double kC30 = std::sqrt(3.0) / 2, kS30 = 0.5;
static bool near(double x, double y) { return x - y < 1e-9 && y - x < 1e-9; }
extern "C" double vc_atan2(double y, double x) {
  if (vc_same(&y, &g_d[1], 1)) { vc_eq("declination of the Sun", x, g_d[0]); return g_delta; }
  vc_eq("right ascension of the Sun", y * g_a[0], x * g_a[1]); return g_alpha;
}
extern "C" double vc_cos(double x) { return near(x, g_alpha + M_PI / 6) ? kC30 * g_a[0] - kS30 * g_a[1] : near(x, g_alpha) ? g_a[0] : near(x, g_delta) ? g_d[0] : vc_real("cosine of another angle"); }
extern "C" double vc_sin(double x) { return near(x, g_alpha + M_PI / 6) ? kC30 * g_a[1] + kS30 * g_a[0] : near(x, g_alpha) ? g_a[1] : near(x, g_delta) ? g_d[1] : vc_real("sine of another angle"); }
static double g_bulge;   // (1 + cos psi) / 2
static double hp(double h, bool general) {
  V3 u; if (vc_is_symbolic()) { u = any_unit3("place"); g_place = scale3(any_pos("radius", 1, 2), u); }
  double *d = g_d, *a = g_a; vc_unit("declination", d, 2); vc_unit("right ascension", a, 2); g_alpha = vc_real_in("right ascension", 10, 17); g_delta = vc_real_in("declination", -2, 2); vc_assume(d[0] > 0); if (!vc_is_symbolic() && d[0] < 1e-3) vc_assume(false); V3 s = vec3(d[0] * a[0], d[0] * a[1], d[1]);
  geodesy::GeodeticPosition p = g_geodetic(any_real("lat", -1.5, 1.5), any_real("lon", -3, 3), h); if (!vc_is_symbolic()) u = g_place;
  V3 apex = vec3(kC30 * s[0] - kS30 * s[1], kS30 * s[0] + kC30 * s[1], s[2]);
  g_bulge = (1 + dot3(u, apex)) / 2; return general ? CalcAirDensityWithHarrisPriester_kg_m3(p, s, 100, 2) : CalcAirDensityWithHarrisPriester_kg_m3(p, s);
}
__attribute__((noinline, optnone)) static void hp_layer(int k) {
  double lo = kHp[k][0], hi = kHp[k + 1][0], h = vc_real_in("altitude", lo, hi); vc_assume(h < hi); if (!vc_is_symbolic() && (h - lo < 1e-9 || hi - h < 1e-9)) return; bool general = vc_bool("exponent 2");
  double rho = hp(h, general), n = between(k, 1, h), x = between(k, 2, h), w = general ? g_bulge : g_bulge * g_bulge;
  vc_eqs("density of the diurnal bulge", rho, (n + (x - n) * w) * 1e-12, x * 1e-12);
}
PROP(harris_priester) { for (int k = 0; k + 1 < kHpN; k++) if (vc_bool("layer")) { hp_layer(k); return; } hp_layer(0); }
PROP(beyond) {
  double low = hp(vc_real_in("below", 1, 99), false), high = hp(vc_real_in("above", 1000, 30000), false);
  vc_check("below the table the density of its first row", vc_abs(low - kHp[0][1] * 1e-12) < 1e-18); vc_check("above the table between the densities of its last row", high > kHp[kHpN - 1][1] * 0.999e-12 && high < kHp[kHpN - 1][2] * 1.001e-12);
}
