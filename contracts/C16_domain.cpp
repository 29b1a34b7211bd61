// VC-SOURCES: disturbances/surface_force.cpp disturbances/solar_radiation_pressure_disturbance.cpp simulation/spacecraft/structure/surface.cpp math_physics/math/vector.cpp math_physics/math/quaternion.cpp
// VC-REPLACE: sqrt WITH vc_root
#include "vc_s2e.hpp"
#include "vc_env.hpp"
#include "disturbances/solar_radiation_pressure_disturbance.hpp"
using namespace s2e; using namespace s2e::math; using namespace s2e::environment; using namespace s2e::disturbances; using namespace s2e::spacecraft;
int CelestialInformation::CalcBodyIdFromName(const char* n) const { return vc_env::id_of(n); }
LocalEnvironment::~LocalEnvironment() {}
const char* kLabel = "the force is a number for every accepted surface normal";
extern "C" double vc_root(double x) { vc_check("the force is a number for every accepted surface normal", x >= 0); double y = vc_real("root"); vc_assume(y >= 0); vc_assume(y * y == x); return y; }
// normals are accepted when they are at most 1e-6 longer than a unit vector
PROP(normals) {
  double k = any_real("excess", -1e-3, 1e-6); vc_assume(k >= -1e-3 && k <= 1e-6); V3 u = any_unit3("n"), n = scale3(1 + k, u), s = vc_bool("facing the sun") ? u : any_unit3("sun");
  std::vector<Surface> list; list.push_back(Surface(any_vec_in("position", -1, 1), n, 1, 0.5, 0.5, 0.5)); V3 cg = vec3(0, 0, 0); SolarRadiationPressureDisturbance d(list, cg, true);
  d.CalcTheta(s); double w = d.sin_theta_[0];
  if (vc_is_symbolic()) vc_check("the force is a number for every accepted surface normal", w >= 0); else vc_check("the force is a number for every accepted surface normal", w == w);
}
