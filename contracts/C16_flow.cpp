// VC-SOURCES: disturbances/surface_force.cpp disturbances/air_drag.cpp simulation/spacecraft/structure/surface.cpp dynamics/orbit/orbit.cpp dynamics/attitude/attitude.cpp math_physics/math/vector.cpp math_physics/math/quaternion.cpp math_physics/geodesy/geodetic_position.cpp math_physics/orbit/sgp4/sgp4ext.cpp simulation/monte_carlo_simulation/simulation_object.cpp simulation/monte_carlo_simulation/monte_carlo_simulation_executor.cpp simulation/monte_carlo_simulation/initialize_monte_carlo_parameters.cpp math_physics/randomization/global_randomization.cpp math_physics/randomization/normal_randomization.cpp math_physics/randomization/minimal_standard_linear_congruential_generator.cpp math_physics/randomization/minimal_standard_linear_congruential_generator_with_shuffle.cpp
// VC-REPLACE: s2e::disturbances::SurfaceForce::CalcTorqueForce WITH vc_force
#include "vc_s2e.hpp"
#include "vc_env.hpp"
#include "dynamics/dynamics.hpp"
#include "dynamics/attitude/attitude_rk4.hpp"
#include "disturbances/air_drag.hpp"
using namespace s2e; using namespace s2e::math; using namespace s2e::environment; using namespace s2e::disturbances; using namespace s2e::spacecraft;
int CelestialInformation::CalcBodyIdFromName(const char* n) const { return vc_env::id_of(n); }
LocalEnvironment::~LocalEnvironment() {}
namespace { struct AnyOrbit : dynamics::orbit::Orbit { using Orbit::Orbit; void Propagate(const double, const double) override {} }; }
template <class T> static T* raw() { return (T*)::operator new(sizeof(T)); }
static V3 gv_flow; static double gv_density; static int gv_calls;
extern "C" V3 vc_force(SurfaceForce*, V3* v, double x) { gv_flow = *v; gv_density = x; gv_calls++; return *v; }
// the flow is the motion relative to the rotating atmosphere (its velocity in the Earth-fixed frame), turned into the body frame
PROP(drag_flow) {
  CelestialInformation* c = vc_env::global(); LocalEnvironment* l = raw<LocalEnvironment>(); l->celestial_information_ = vc_env::local(c); Q4 e = any_unit_quat("Earth-fixed"), q = any_unit_quat("attitude");
  M33 D; for (int i = 0; i < 3; i++) { V3 x = spec_i2b(e, vec3(i == 0, i == 1, i == 2)); for (int j = 0; j < 3; j++) D[j][i] = x[j]; }
  c->earth_rotation_->dcm_j2000_to_ecef_ = D;
  Atmosphere* a = raw<Atmosphere>(); a->air_density_kg_m3_ = any_pos("density", 1e-14, 1e-10); l->atmosphere_ = a;
  V3 v = any_vec_in("Earth-fixed velocity", -9e3, 9e3); dynamics::Dynamics* m = raw<dynamics::Dynamics>(); AnyOrbit* o = new AnyOrbit(c); o->spacecraft_velocity_ecef_m_s_ = v; o->spacecraft_velocity_i_m_s_ = any_vec("inertial velocity"); m->orbit_ = o;
  dynamics::attitude::AttitudeRk4* t = raw<dynamics::attitude::AttitudeRk4>(); t->quaternion_i2b_ = q; m->attitude_ = t;
  std::vector<Surface> list; AirDrag d(list, vec3(0, 0, 0), 300, 1000, 18, true); gv_calls = 0;
  if (!vc_is_symbolic()) { d.UpdateIfEnabled(*l, *m); return; }
  d.Update(*l, *m); vc_check("drag is computed once for the flow past the body", gv_calls == 1);
  EQ3("flow is the velocity relative to the atmosphere in the body frame", gv_flow, spec_i2b(q, spec_b2i(e, v))); vc_check("drag uses the local air density", gv_density == a->air_density_kg_m3_);
}
