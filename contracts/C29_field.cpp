// VC-SOURCES: environment/local/geomagnetic_field.cpp math_physics/geodesy/geodetic_position.cpp math_physics/math/vector.cpp math_physics/math/quaternion.cpp math_physics/math/s2e_math.cpp math_physics/orbit/sgp4/sgp4ext.cpp math_physics/randomization/global_randomization.cpp math_physics/randomization/normal_randomization.cpp math_physics/randomization/minimal_standard_linear_congruential_generator.cpp math_physics/randomization/minimal_standard_linear_congruential_generator_with_shuffle.cpp
// VC-REPLACE: s2e::randomization::NormalRand::operator double() WITH vc_normal
// VC-REPLACE: s2e::randomization::MinimalStandardLcg::operator double() WITH vc_lcg
// VC-REPLACE: ~s2e::math::OrdinaryDifferentialEquation<3.*>::operator\+\+ WITH vc_walk
#include "vc_s2e.hpp"
#include <cstring>
#include "environment/local/geomagnetic_field.hpp"
using namespace s2e; using namespace s2e::math; using namespace s2e::environment; using namespace s2e::randomization;
// main field model (C30): any field; the arguments are recorded
static V3 g_field; static double g_arg[5]; static int g_calls, g_ok;
void IgrfCalc(double year, double lat, double lon, double alt, double side, double* mag) { g_calls++; double a[5] = {year, lat, lon, alt, side}; for (int i = 0; i < 5; i++) g_arg[i] = a[i]; for (int i = 0; i < 3; i++) mag[i] = g_field[i]; }
void set_file_path(const char* f) { g_ok = std::strcmp(f, "igrf13.coef") == 0; }
extern "C" double vc_lcg(MinimalStandardLcg* g) { return vc_real_in("uniform", 0, 1); }
// one sample of unit deviation per draw
static double g_noise[8]; static int g_n, g_walks;
extern "C" double vc_normal(NormalRand* r) { double v = vc_real("sample"); if (g_n < 8) g_noise[g_n] = v; g_n++; return r->GetAverage() + r->GetStandardDeviation() * v; }
extern "C" void* vc_walk(OrdinaryDifferentialEquation<3>* w) { g_walks++; for (int i = 0; i < 3; i++) w->state_[i] = vc_real("next walk"); return w; }
PROP(field) {
  bool sym = vc_is_symbolic(); double sd = sym ? any_pos("white noise", 1, 10) : 0;
  GeomagneticField m("igrf13.coef", sym ? any_pos("walk", 1, 10) : 0, sym ? any_pos("limit", 1, 10) : 0, sd); g_n = g_walks = g_calls = 0;
  vc_check("coefficient file of the settings", g_ok == 1); m.IsCalcEnabled = vc_bool("enabled");
  V3 walk = vec3(0, 0, 0), oi = any_vec("last i"), ob = any_vec("last b"); if (sym) for (int i = 0; i < 3; i++) { walk[i] = vc_real("walk"); m.random_walk_.state_[i] = walk[i]; }
  m.magnetic_field_i_nT_ = oi; m.magnetic_field_b_nT_ = ob; g_field = any_vec("main field"); Q4 q = any_unit_quat("q"); double year = any_real("year", 2000, 2030), side = any_real("sidereal angle", 0, 6);
  geodesy::GeodeticPosition p(any_real("lat", -1.5, 1.5), any_real("lon", -3, 3), any_real("alt", 0, 1e6)); m.CalcMagneticField(year, side, p, q);
  V3 e = m.GetGeomagneticField_i_nT();
  if (!m.IsCalcEnabled) { EQ3("nothing changes when the calculation is off", e, oi); EQ3("nothing changes when the calculation is off", m.GetGeomagneticField_b_nT(), ob); vc_check("nothing changes when the calculation is off", g_calls == 0 && g_n == 0 && g_walks == 0); return; }
  vc_check("main field at the date and place of the spacecraft", g_calls == 1 && g_arg[0] == year && g_arg[1] == p.GetLatitude_rad() && g_arg[2] == p.GetLongitude_rad() && g_arg[3] == p.GetAltitude_m() && g_arg[4] == side);
  if (sym) vc_check("a new noise sample for every axis and one step of the walk", g_n == 3 && g_walks == 1);
  for (int i = 0; i < 3; i++) vc_eq("main field with walk and white noise", e[i], g_field[i] + walk[i] + (sym ? sd * g_noise[i] : 0));
  EQ3("body field is the rotated inertial field", m.GetGeomagneticField_b_nT(), spec_i2b(q, e));
}
