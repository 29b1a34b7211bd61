// VC-SOURCES: disturbances/surface_force.cpp disturbances/solar_radiation_pressure_disturbance.cpp environment/local/local_celestial_information.cpp simulation/spacecraft/structure/surface.cpp math_physics/math/vector.cpp math_physics/math/quaternion.cpp
// VC-REPLACE: ~s2e::math::Vector<3.*>::CalcNormalizedVector WITH vc_normalized
#include "vc_s2e.hpp"
#include "vc_env.hpp"
#include "disturbances/solar_radiation_pressure_disturbance.hpp"
using namespace s2e; using namespace s2e::math; using namespace s2e::environment; using namespace s2e::disturbances; using namespace s2e::spacecraft;
int CelestialInformation::CalcBodyIdFromName(const char* n) const { return vc_env::id_of(n); }
extern "C" void bodc2n_c(int, int, char* n, int* f) { n[0] = 0; *f = 1; }
template <class T> static T* raw() { return (T*)::operator new(sizeof(T)); }
// the sum does not depend on what normalisation computes (its own contract: C02)
extern "C" V3 vc_normalized(const V3* v) { double a[3] = {(*v)[0], (*v)[1], (*v)[2]}; return vec3(vc_uf("unit x", 3, a), vc_uf("unit y", 3, a), vc_uf("unit z", 3, a)); }
// surface forces of several surfaces: the sum over them, whatever the last update left
PROP(srp_sum) {
  vc_assumption("three surfaces (bounded)");
  CelestialInformation* c = vc_env::global(); LocalEnvironment* l = raw<LocalEnvironment>(); l->celestial_information_ = vc_env::local(c); V3 u = any_vec_in("sun", -1, 1);
  for (int j = 0; j < 9; j++) { l->celestial_information_->celestial_body_position_from_spacecraft_b_m_[j] = u[j % 3]; }
  SolarRadiationPressureEnvironment* s = raw<SolarRadiationPressureEnvironment>(); s->solar_radiation_pressure_N_m2_ = any_pos("pressure", 1e-3, 1); s->shadow_coefficient_ = 1; l->solar_radiation_pressure_environment_ = s;
  V3 cg = any_vec_in("cg", -1, 1), F = vec3(0, 0, 0), T = F; std::vector<Surface> list;
  for (int i = 0; i < 3; i++) {
    Surface f(any_vec_in("position", -1, 1), any_unit3("normal"), any_pos("area", 0.1, 1), any_real("reflectivity", 0, 1), any_real("specularity", 0, 1), 0); std::vector<Surface> one; one.push_back(f); list.push_back(f);
    SolarRadiationPressureDisturbance d(one, cg, true); d.UpdateIfEnabled(*l, *raw<dynamics::Dynamics>()); F = add3(F, d.GetForce_b_N()); T = add3(T, d.GetTorque_b_Nm());
  }
  SolarRadiationPressureDisturbance d(list, cg, true); d.force_b_N_ = any_vec("last"); d.torque_b_Nm_ = any_vec("last");
  d.UpdateIfEnabled(*l, *raw<dynamics::Dynamics>()); EQ3("total surface force is the sum over the surfaces", d.GetForce_b_N(), F); EQ3("total surface torque is the sum over the surfaces", d.GetTorque_b_Nm(), T);
}
