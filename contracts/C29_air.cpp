// VC-SOURCES: environment/local/atmosphere.cpp environment/local/local_celestial_information.cpp math_physics/geodesy/geodetic_position.cpp math_physics/math/vector.cpp math_physics/math/quaternion.cpp math_physics/math/s2e_math.cpp math_physics/orbit/sgp4/sgp4ext.cpp math_physics/randomization/global_randomization.cpp math_physics/randomization/normal_randomization.cpp math_physics/randomization/minimal_standard_linear_congruential_generator.cpp math_physics/randomization/minimal_standard_linear_congruential_generator_with_shuffle.cpp
// VC-REPLACE: s2e::randomization::NormalRand::operator double() WITH vc_normal
// VC-REPLACE: s2e::randomization::MinimalStandardLcg::operator double() WITH vc_lcg
#include "vc_s2e.hpp"
#include "vc_env.hpp"
#include "environment/local/atmosphere.hpp"
#include "math_physics/randomization/normal_randomization.hpp"
#include "math_physics/atmosphere/harris_priester_model.hpp"
#include "math_physics/atmosphere/simple_air_density_model.hpp"
using namespace s2e; using namespace s2e::math; using namespace s2e::environment; using namespace s2e::randomization;
template <class T> static T* raw() { return (T*)::operator new(sizeof(T)); }
int CelestialInformation::CalcBodyIdFromName(const char* n) const { return vc_env::id_of(n); }
extern "C" void bodc2n_c(int, int, char* n, int* f) { n[0] = 0; *f = 1; }
// density models (decided by their own contract; NRLMSISE-00 is an external library): any density; the arguments are recorded
static double g_rho, g_arg[8]; static int g_model; static V3 g_sun; static bool g_manual, g_table; static size_t g_rows;
namespace s2e::atmosphere {
double CalcAirDensityWithSimpleModel(const double alt) { g_model = 1; g_arg[0] = alt; return g_rho; }
double CalcAirDensityWithHarrisPriester_kg_m3(const geodesy::GeodeticPosition p, const V3 sun, const double, const double) { g_model = 3; g_arg[0] = p.GetAltitude_m(); g_arg[1] = p.GetLatitude_rad(); g_arg[2] = p.GetLongitude_rad(); g_sun = sun; return g_rho; }
double CalcNRLMSISE00(double year, double lat, double lon, double alt, const std::vector<nrlmsise_table>& table, bool manual, double f107, double f107a, double ap) { g_model = 2; double a[7] = {alt, lat, lon, year, f107, f107a, ap}; for (int i = 0; i < 7; i++) g_arg[i] = a[i]; g_manual = manual; g_rows = table.size(); return g_rho; }
size_t GetSpaceWeatherTable_(double, double, const std::string&, std::vector<nrlmsise_table>& t) { if (g_table) t.resize(2); return t.size(); }
}
extern "C" double vc_lcg(MinimalStandardLcg* g) { return vc_real_in("uniform", 0, 1); }
static double g_noise; static int g_n;
extern "C" double vc_normal(NormalRand* r) { g_noise = vc_real("sample"); g_n++; return r->GetAverage() + r->GetStandardDeviation() * g_noise; }
__attribute__((noinline, optnone)) static void air(int k) {
  bool sym = vc_is_symbolic(); const char* name[4] = {"NONE", "STANDARD", "NRLMSISE00", "HARRIS_PRIESTER"};
  CelestialInformation* c = vc_env::global(); double ds = any_pos("distance of the Sun", 1, 10); V3 u = any_unit3("direction of the Sun"); Q4 e = any_unit_quat("Earth frame"); M33 dcm; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) dcm[i][j] = spec_i2b(e, vec3(j == 0, j == 1, j == 2))[i];
  c->earth_rotation_->dcm_j2000_to_ecef_ = dcm; for (int j = 0; j < 3; j++) c->celestial_body_position_from_center_i_m_[j] = ds * u[j];
  SimulationTime* t = raw<SimulationTime>(); t->current_decyear_ = vc_real("start year"); t->end_sec_ = vc_real("duration");
  bool manual = vc_bool("manual parameters"); g_table = vc_bool("space weather file"); double rate = sym ? any_pos("noise rate", 0.1, 1) : 0, f[3] = {any_real("f107", 60, 200), any_real("f107a", 60, 200), any_real("ap", 0, 100)};
  Atmosphere a(name[k], "space_weather", rate, manual, f[0], f[1], f[2], vc_env::local(c), t); bool on = !vc_bool("off"); a.SetCalcFlag(on); double last = any_real("last", 0, 1); a.air_density_kg_m3_ = last;
  dynamics::orbit::Orbit* o = raw<dynamics::orbit::Orbit>(); geodesy::GeodeticPosition p(any_real("lat", -1.5, 1.5), any_real("lon", -3, 3), any_real("alt", 0, 1e6)); new (&o->spacecraft_geodetic_position_) geodesy::GeodeticPosition(p);
  g_rho = any_pos("density", 1e-13, 1); g_model = g_n = 0; double year = any_real("year", 2000, 2040), out = a.CalcAirDensity_kg_m3(year, *o);
  if (!on) { vc_check("nothing changes when the calculation is off", out == 0 && a.GetAirDensity_kg_m3() == last && g_model == 0); return; }
  vc_eq("density of the environment is the calculated one", a.GetAirDensity_kg_m3(), out);
  int used = k == 2 && !manual && !g_table ? 1 : k; vc_check("the selected model is used, the standard one without space weather", g_model == used);
  if (used == 0) { vc_eq("no air without a model", out, 0); return; }
  vc_check("place of the spacecraft", g_arg[0] == p.GetAltitude_m() && (used == 1 || (g_arg[1] == p.GetLatitude_rad() && g_arg[2] == p.GetLongitude_rad())));
  if (used == 2) vc_check("date, space weather and manual parameters", g_arg[3] == year && g_manual == manual && g_arg[4] == f[0] && g_arg[5] == f[1] && g_arg[6] == f[2] && g_rows == (manual ? 0 : 2));
  if (used == 3) EQ3("direction of the Sun in the frame of the position", g_sun, spec_i2b(e, u));
  if (sym) vc_check("one noise sample", g_n == 1); vc_eq("noise in proportion to the density", out, g_rho * (1 + rate * (sym ? g_noise : 0)));
}
PROP(air) { if (vc_bool("none")) air(0); else if (vc_bool("standard")) air(1); else if (vc_bool("nrlmsise00")) air(2); else air(3); }
