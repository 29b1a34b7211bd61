// VC-SOURCES: environment/global/celestial_information.cpp environment/global/earth_rotation.cpp environment/global/moon_rotation.cpp math_physics/planet_rotation/moon_rotation_utilities.cpp math_physics/math/vector.cpp math_physics/math/quaternion.cpp math_physics/math/s2e_math.cpp math_physics/orbit/sgp4/sgp4ext.cpp math_physics/orbit/sgp4/sgp4unit.cpp
// VC-REPLACE: s2e::environment::EarthRotation::Update WITH vc_earth
// VC-REPLACE: s2e::planet_rotation::CalcDcmEciToPrincipalAxis WITH vc_principal
// VC-REPLACE: pow WITH vc_pow
// VC-REPLACE: cbrt WITH vc_cbrt
#include "vc_s2e.hpp"
#include <cstring>
#include "environment/global/celestial_information.hpp"
#include "environment/global/simulation_time.hpp"
using namespace s2e; using namespace s2e::math; using namespace s2e::environment;
static const int kIds[3] = {301, 399, 4}; static const char* kName[3] = {"MOON", "EARTH", "MARS"}; static const char* kEphemeris[3] = {"MOON", "EARTH", "MARS_BARYCENTER"};
static double g_gm[3], g_radii[3][3], g_state[3][6]; static int g_ok = 1; static double g_et, g_jd; static int g_earth = 0; static int g_moon = 0; static V3 g_mr, g_mv; static M33 g_dcm;
// cube root of a positive number, as a power or directly
extern "C" double vc_cbrt(double x) { double y = vc_real("root"); vc_assume(y > 0); vc_assume(y * y * y == x); return y; }
extern "C" double vc_pow(double x, double e) { if (vc_abs(e - 1.0 / 3.0) > 1e-15) { g_ok = 0; return 0; } return vc_cbrt(x); }
static int index_of(int id) { for (int i = 0; i < 3; i++) if (kIds[i] == id) return i; return -1; }
// ephemeris library: kilometres, by identifier or name (assumed contract of CSPICE)
extern "C" void bodvcd_c(int id, const char* what, int, int* dim, double* out) { int i = index_of(id); if (i < 0) { g_ok = 0; return; } if (std::strcmp(what, "GM") == 0) { *dim = 1; *out = g_gm[i]; } else if (std::strcmp(what, "RADII") == 0) { *dim = 3; for (int j = 0; j < 3; j++) out[j] = g_radii[i][j]; } else g_ok = 0; }
extern "C" void bodc2n_c(int id, int len, char* name, int* found) { int i = index_of(id); *found = i >= 0; if (i < 0 || len < 20) { g_ok = 0; return; } int k = 0; for (; kName[i][k]; k++) name[k] = kName[i][k]; name[k] = 0; }
extern "C" void bodn2c_c(const char* name, int* id, int* found) { *found = 0; for (int i = 0; i < 3; i++) if (std::strcmp(name, kName[i]) == 0) { *id = kIds[i]; *found = 1; } }
extern "C" void spkezr_c(const char* target, double et, const char* frame, const char* correction, const char* center, double* state, double* lt) {
  int i = -1; for (int k = 0; k < 3; k++) if (std::strcmp(target, kEphemeris[k]) == 0) i = k;
  if (i < 0 || et != g_et || std::strcmp(frame, "J2000") != 0 || std::strcmp(correction, "NONE") != 0 || std::strcmp(center, "EARTH") != 0) { g_ok = 0; return; }
  for (int j = 0; j < 6; j++) state[j] = g_state[i][j]; *lt = 0;
}
extern "C" void sxform_c(const char* from, const char* to, double et, double (*m)[6]) { g_ok = g_ok && std::strcmp(from, "J2000") == 0 && std::strcmp(to, "IAU_MOON") == 0 && et == g_et; for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) m[i][j] = i < 3 && j < 3 ? g_dcm[i][j] : any_real("rate", -1, 1); }
extern "C" void furnsh_c(const char*) {}
extern "C" void vc_earth(EarthRotation*, double jd) { g_earth++; g_jd = jd; }
extern "C" void vc_principal(M33* m, V3* r, V3* v) { g_moon++; g_mr = *r; g_mv = *v; *m = g_dcm; }
static SimulationTime* sim_time(double et, double elapsed, double jd) { SimulationTime* t = (SimulationTime*)::operator new(sizeof(SimulationTime)); t->start_ephemeris_time_ = et; t->elapsed_time_sec_ = elapsed; t->current_jd_ = jd; g_et = et + elapsed; return t; }
static CelestialInformation* make() {
  for (int i = 0; i < 3; i++) { g_gm[i] = any_pos("gm", 1, 1e6); for (int j = 0; j < 3; j++) g_radii[i][j] = any_pos("radii", 1, 1e5); for (int j = 0; j < 6; j++) g_state[i][j] = any_real("state", -1e8, 1e8); }
  int* ids = new int[3]; for (int i = 0; i < 3; i++) ids[i] = kIds[i]; std::vector<std::string> modes; modes.push_back("IDLE"); modes.push_back("IDLE"); modes.push_back("IDLE");
  return new CelestialInformation("J2000", "NONE", "EARTH", 3, ids, modes);
}
PROP(constants) {
  vc_assumption("ephemeris library: constants and states in km, km/s per body name, time, frame and centre; three selected bodies (bounded)");
  CelestialInformation* c = make();
  vc_check("the ephemeris library is asked for the selected bodies", g_ok == 1);
  for (int i = 0; i < 3; i++) {
    vc_eqs("gravity constant in SI units", c->GetGravityConstant_m3_s2(kName[i]), g_gm[i] * 1e9, 1e9);
    for (int j = 0; j < 3; j++) vc_eqs("radii in SI units", c->GetRadiiFromName_m(kName[i])[j], g_radii[i][j] * 1000, 1e6);
    double m = c->GetMeanRadiusFromName_m(kName[i]); vc_eqs("mean radius has the volume of the ellipsoid", m * m * m, g_radii[i][0] * g_radii[i][1] * g_radii[i][2] * 1e9, 1e18);
  }
}
PROP(update) {
  CelestialInformation* c = make(); SimulationTime* t = sim_time(any_real("et", -1e9, 1e9), any_real("elapsed", 0, 1e6), any_real("jd", 2.4e6, 2.5e6)); g_earth = 0;
  c->UpdateAllObjectsInformation(*t);
  vc_check("the ephemeris library is asked for the selected bodies", g_ok == 1);
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) {
    vc_eqs("position of the named body at the current time in SI units", c->GetPositionFromCenter_i_m(kName[i])[j], g_state[i][j] * 1000, 1e9);
    vc_eqs("velocity of the named body at the current time in SI units", c->GetVelocityFromCenter_i_m_s(kName[i])[j], g_state[i][j + 3] * 1000, 1e9);
  }
  if (vc_is_symbolic()) vc_check("the Earth's rotation follows the date", g_earth == 1 && g_jd == t->current_jd_);
}
// the Moon's frame: from the ephemeris library, or from the Moon's motion about the Earth
PROP(moon) {
  CelestialInformation* c = make(); SimulationTime* t = sim_time(any_real("et", -1e9, 1e9), any_real("elapsed", 0, 1e6), 2451545.0); g_dcm = any_mat("dcm"); g_moon = 0; M33 id = MakeIdentityMatrix<3>();
  MoonRotation iau(*c, ConvertMoonRotationMode("IAU_MOON")), idle(*c, ConvertMoonRotationMode("IDLE")), other(*c, ConvertMoonRotationMode("x"));
  EQ33("before the first update the Moon's frame is inertial", iau.GetDcmJ2000ToMcmf(), id);
  iau.Update(*t); EQ33("IAU frame comes from the ephemeris library", iau.GetDcmJ2000ToMcmf(), g_dcm); vc_check("IAU frame comes from the ephemeris library", g_ok == 1);
  idle.Update(*t); EQ33("an idle Moon does not turn", idle.GetDcmJ2000ToMcmf(), id); other.Update(*t); EQ33("an idle Moon does not turn", other.GetDcmJ2000ToMcmf(), id);
  if (vc_is_symbolic()) {
    c->UpdateAllObjectsInformation(*t); MoonRotation simple(*c, ConvertMoonRotationMode("SIMPLE")); g_moon = 0; simple.Update(*t); EQ33("the simple frame follows the Moon's motion about the Earth", simple.GetDcmJ2000ToMcmf(), g_dcm);
    vc_check("the simple frame follows the Moon's motion about the Earth", g_moon == 1); EQ3S("the simple frame follows the Moon's motion about the Earth", g_mr, scale3(1000, vec3(g_state[0][0] - g_state[1][0], g_state[0][1] - g_state[1][1], g_state[0][2] - g_state[1][2])), 1e8); EQ3S("the simple frame follows the Moon's motion about the Earth", g_mv, scale3(1000, vec3(g_state[0][3] - g_state[1][3], g_state[0][4] - g_state[1][4], g_state[0][5] - g_state[1][5])), 1e8);
  }
}
