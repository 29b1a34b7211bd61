// VC-SOURCES: environment/local/solar_radiation_pressure_environment.cpp environment/local/earth_albedo.cpp environment/local/earth_infrared.cpp environment/local/local_celestial_information.cpp math_physics/math/vector.cpp math_physics/math/quaternion.cpp
// VC-REPLACE: s2e::math::Vector<3ul, double>::CalcNorm WITH vc_norm
// VC-REPLACE: asin WITH vc_asin
// VC-REPLACE: acos WITH vc_acos
#include "vc_s2e.hpp"
#include "vc_env.hpp"
#include "setting_file_reader/initialize_file_access.hpp"
#include "environment/local/earth_albedo.hpp"
#include "environment/local/earth_infrared.hpp"
using namespace s2e; using namespace s2e::math; using namespace s2e::environment;
int CelestialInformation::CalcBodyIdFromName(const char* n) const { return vc_env::id_of(n); }
extern "C" void bodc2n_c(int, int, char* n, int* f) { n[0] = 0; *f = 1; }
// length of a vector: a positive number depending on its components only (C02 decides the length itself)
extern "C" double vc_norm(const V3* v) { double a[3] = {(*v)[0], (*v)[1], (*v)[2]}; return vc_uf("norm", 3, a); }
static double length(const V3& v) { if (!vc_is_symbolic()) return norm3(v); return vc_norm(&v); }
static const double kAu = 149597870700.0, kLight = 299792458.0, kSolar = 1366.0;
static LocalCelestialInformation* cel(const V3* r, const double* R) {
  CelestialInformation* c = vc_env::global(); LocalCelestialInformation* l = vc_env::local(c);
  for (int i = 0; i < 3; i++) { c->celestial_body_mean_radius_m_[i] = R[i]; for (int j = 0; j < 3; j++) l->celestial_body_position_from_spacecraft_i_m_[3 * i + j] = r[i][j]; }
  return l;
}
// fraction of the Sun's disc (apparent radius a) left visible by a disc of apparent radius b whose centre is seen at the angle c
static double arccos(double x) { if (!vc_is_symbolic()) return std::acos(x); double a[1] = {x}; return vc_uf("acos", 1, a); }
static double visible(double a, double b, double c) {
  if (c < b - a) return 0;
  if (c < a - b) return 1 - b * b / (a * a);
  if (c > a + b) return 1;
  double x = (c * c + a * a - b * b) / (2 * c), y2 = a * a - x * x, y = y2 > 0 ? std::sqrt(y2) : 0;
  return 1 - (a * a * arccos(x / a) + b * b * arccos((c - x) / b) - c * y) / (M_PI * a * a);
}
// the angles of the geometry: apparent radii of the bodies and the separations of the shadow sources from the Sun, known by sine and cosine
static double g_sin[3], g_cos[3], g_radius[3], g_separation[3]; static int g_known, g_separated;
extern "C" double vc_asin(double x) {
  for (int i = 0; i < g_known; i++) if (vc_same(&x, &g_sin[i], 1)) return g_radius[i];
  for (int i = 0; i < g_known; i++) if (x == g_sin[i]) return g_radius[i];
  vc_check("shadow coefficient is the visible fraction of the Sun", false); return 0;
}
extern "C" double vc_acos(double x) {
  double a[1] = {x}; if (g_known == 2 && g_separated) return vc_uf("acos", 1, a);
  g_separated = 1; if (g_known == 2) { vc_eq("separation seen from the spacecraft", x, g_cos[1]); return g_separation[1]; }
  for (int i = 1; i < g_known; i++) if (vc_same(&x, &g_cos[i], 1)) return g_separation[i];
  for (int i = 1; i < g_known; i++) if (x == g_cos[i]) return g_separation[i];
  vc_check("shadow coefficient is the visible fraction of the Sun", false); return 0;
}
// apparent radii a[0..n-1] of the bodies and separations c[1..n-1] from the Sun
static void geometry(V3* r, double* R, double* d, double* a, double* c, int n) {
  const char* name[3] = {"sun", "earth", "moon"};
  for (int i = 0; i < 3; i++) { R[i] = any_pos("radius", 0.1, 1); r[i] = any_vec_in(name[i], -20, 20); d[i] = length(r[i]); vc_assume(d[i] > R[i]); }
  g_separated = 0; g_known = n; double k[3];
  for (int i = 0; i < n; i++) {
    k[i] = dot3(r[0], r[i]) / d[i] / d[0];
    if (!vc_is_symbolic()) { a[i] = std::asin(R[i] / d[i]); c[i] = std::acos(std::max(-1.0, std::min(1.0, k[i]))); continue; }
    if (i) vc_assume(k[i] >= -1 && k[i] <= 1);   // Cauchy-Schwarz, decided below
    a[i] = vc_real_in("apparent radius", 0, M_PI); c[i] = vc_real_in("separation", 0, 4); vc_assume(a[i] > 0);
    g_sin[i] = R[i] / d[i]; g_cos[i] = k[i]; g_radius[i] = a[i]; g_separation[i] = c[i];
    for (int j = 0; j < i; j++) { vc_assume(g_sin[i] != g_sin[j] || a[i] == a[j]); if (j) vc_assume(g_cos[i] != g_cos[j] || c[i] == c[j]); }
  }
}
static double pressure(double d) { return kSolar / kLight / (d / kAu * (d / kAu)); }
PROP(shadow) {
  V3 r[3]; double R[3], d[3], a[3], c[3]; geometry(r, R, d, a, c, 2);
  SolarRadiationPressureEnvironment s(cel(r, R)); s.UpdateAllStates(); double v = visible(a[0], a[1], c[1]), p = pressure(d[0]);
  vc_eq("shadow coefficient is the visible fraction of the Sun", s.GetShadowCoefficient(), v);
  vc_eq("pressure falls with the square of the distance from the Sun", s.GetPressureWithoutEclipse_Nm2(), p);
  vc_eq("pressure of the light that is left", s.GetPressure_N_m2(), p * s.GetShadowCoefficient()); vc_eq("power of the light that is left", s.GetPowerDensity_W_m2(), p * s.GetShadowCoefficient() * kLight);
  vc_check("eclipsed when light is missing", s.GetIsEclipsed() == (s.GetShadowCoefficient() < 1));
}
// several shadow sources, named in the setting file in either order
static bool g_calc; static std::vector<std::string> g_list;
INIReader::INIReader(const std::string&) {}
namespace s2e::setting_file_reader {
IniAccess::IniAccess(const std::string f) : ini_reader_(f) {}
bool IniAccess::ReadEnable(const char*, const char* key) { return std::string(key) == "calculation" ? g_calc : false; }
int IniAccess::ReadInt(const char*, const char*) { return (int)g_list.size(); }
std::vector<std::string> IniAccess::ReadVectorString(const char*, const char*, const size_t n) { std::vector<std::string> v; for (size_t i = 0; i < n; i++) v.push_back(g_list[i]); return v; }
}
PROP(sources) {
  V3 r[3]; double R[3], d[3], a[3], c[3]; geometry(r, R, d, a, c, 3); int sources = vc_bool("two sources") ? 2 : 1; bool sunfirst = vc_bool("order");
  for (int i = 1; i < 3; i++) vc_assume(c[i] < a[i] - a[0] || c[i] < a[0] - a[i] || c[i] > a[i] + a[0]);   // the partial shadow of one source is decided above
  g_calc = vc_bool("calculation"); g_list.clear(); if (sources == 2 && sunfirst) g_list.push_back("SUN"); g_list.push_back("MOON"); if (sources == 2 && !sunfirst) g_list.push_back("SUN");
  SolarRadiationPressureEnvironment s = InitSolarRadiationPressureEnvironment("settings", cel(r, R)); double before = s.GetPressureWithoutEclipse_Nm2(); s.UpdateAllStates(); if (vc_bool("again")) s.UpdateAllStates();
  if (!g_calc) { vc_check("nothing is calculated when the calculation is off", s.GetShadowCoefficient() == 1 && s.GetPressureWithoutEclipse_Nm2() == before && !s.GetIsEclipsed()); return; }
  vc_eq("shadows of all sources combine", s.GetShadowCoefficient(), visible(a[0], a[1], c[1]) * visible(a[0], a[2], c[2]));
}
// light reflected and radiated by the Earth
PROP(earth) {
  V3 r[3]; double R[3] = {1, 1, 1}; for (int i = 0; i < 3; i++) r[i] = vec3(1, 2, 3);
  SolarRadiationPressureEnvironment s(cel(r, R)); s.solar_radiation_pressure_N_m2_ = any_real("pressure", 0, 1); s.shadow_coefficient_ = vc_real_in("shadow", 0, 1); bool on = vc_bool("albedo on"), hot = vc_bool("infrared on");
  EarthAlbedo b(cel(r, R), &s); double f = any_real("albedo factor", 0, 1); b.SetEarthAlbedoFactor(f); b.SetIsCalcEarthAlbedoEnabled(on); b.UpdateAllStates();
  vc_eq("reflected light is the albedo factor of the sunlight", b.GetEarthAlbedoRadiationPower_W_m2(), on ? f * s.GetPowerDensity_W_m2() : 0);
  EarthInfrared e(cel(r, R), &s); double h = any_real("hot side", 0, 400), k = any_real("cold side", 0, 400); e.SetEarthTempHotSide_K(h); e.SetEarthTempColdSide_K(k); e.SetIsCalcEarthInfraredEnabled(hot); e.UpdateAllStates();
  double T = s.GetIsEclipsed() ? k : h; vc_eq("infrared light of the side below", e.GetEarthInfraredRadiationPower_W_m2(), hot ? 5.670374419e-8 * (T * T * T * T) : 0);
}
PROP(cauchy_schwarz) {
  V3 a = any_vec_in("a", -1, 1), b = any_vec_in("b", -1, 1); V3 c = cross3(a, b); double k = dot3(a, b);
  vc_eq("Lagrange's identity", dot3(a, a) * dot3(b, b), k * k + dot3(c, c));
}
