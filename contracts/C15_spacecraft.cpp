// VC-SOURCES: simulation/spacecraft/spacecraft.cpp simulation/spacecraft/installed_components.cpp dynamics/attitude/attitude.cpp dynamics/orbit/orbit.cpp math_physics/math/vector.cpp math_physics/math/quaternion.cpp math_physics/geodesy/geodetic_position.cpp math_physics/orbit/sgp4/sgp4ext.cpp simulation/monte_carlo_simulation/simulation_object.cpp simulation/monte_carlo_simulation/monte_carlo_simulation_executor.cpp simulation/monte_carlo_simulation/initialize_monte_carlo_parameters.cpp math_physics/randomization/global_randomization.cpp math_physics/randomization/normal_randomization.cpp math_physics/randomization/minimal_standard_linear_congruential_generator.cpp math_physics/randomization/minimal_standard_linear_congruential_generator_with_shuffle.cpp
#include "vc_s2e.hpp"
#include "vc_env.hpp"
#include "simulation/spacecraft/spacecraft.hpp"
#include "dynamics/attitude/attitude_rk4.hpp"
using namespace s2e; using namespace s2e::math; using namespace s2e::environment; using namespace s2e::dynamics; using namespace s2e::dynamics::orbit; using namespace s2e::disturbances; using namespace s2e::spacecraft;
// the parts a spacecraft is made of, each through its contract: recorded calls, arbitrary results
static int g_n = 0, g_env, g_dist, g_clock, g_inter, g_prop, g_force, g_torque; static V3 g_tau, g_acc, g_df, g_dt, g_da, g_cf, g_ct; static const SimulationTime* g_time; static bool g_clear, g_same;
namespace { struct AnyOrbit : Orbit { using Orbit::Orbit; void Propagate(const double, const double) override {} };
struct Parts : InstalledComponents {
  V3 GenerateForce_b_N() override { g_force = ++g_n; return g_cf; }
  V3 GenerateTorque_b_Nm() override { g_torque = ++g_n; return g_ct; }
  void ComponentInterference() override { g_inter = ++g_n; }
  void LogSetup(logger::Logger&) override {}
}; }
int CelestialInformation::CalcBodyIdFromName(const char* n) const { return vc_env::id_of(n); }
LocalEnvironment::LocalEnvironment(const simulation::SimulationConfiguration*, const GlobalEnvironment*, const int) {}
LocalEnvironment::~LocalEnvironment() {}
void LocalEnvironment::LogSetup(logger::Logger&) {}
static const Dynamics* g_d;
void LocalEnvironment::Update(const Dynamics* d, const SimulationTime* t) { g_env = ++g_n; g_same = g_same && d == g_d && t == g_time; }
Disturbances::Disturbances(const simulation::SimulationConfiguration*, const int, const Structure*, const GlobalEnvironment*) {}
Disturbances::~Disturbances() {}
void Disturbances::LogSetup(logger::Logger&) {}
void Disturbances::Update(const LocalEnvironment&, const Dynamics& d, const SimulationTime* t) { g_dist = ++g_n; g_same = g_same && &d == g_d && t == g_time; total_force_b_N_ = g_df; total_torque_b_Nm_ = g_dt; total_acceleration_i_m_s2_ = g_da; }
Structure::Structure(const simulation::SimulationConfiguration*, const int) {}
Structure::~Structure() {}
ClockGenerator::~ClockGenerator() {}
void ClockGenerator::UpdateComponents(const SimulationTime* t) { g_clock = ++g_n; g_same = g_same && t == g_time; }
Dynamics::Dynamics(const simulation::SimulationConfiguration*, const SimulationTime*, const LocalEnvironment*, const int, Structure*, simulation::RelativeInformation*) : structure_(0), local_environment_(0) {}
Dynamics::~Dynamics() {}
void Dynamics::LogSetup(logger::Logger&) {}
void Dynamics::ClearForceTorque() { g_clear = g_clear || g_n == 0; attitude_->SetTorque_b_Nm(vec3(0, 0, 0)); orbit_->SetAcceleration_i_m_s2(vec3(0, 0, 0)); }
void Dynamics::Update(const SimulationTime* t, const LocalCelestialInformation*) { g_prop = ++g_n; g_same = g_same && t == g_time; g_tau = attitude_->torque_b_Nm_; g_acc = orbit_->spacecraft_acceleration_i_m_s2_; }
void simulation::RelativeInformation::RegisterDynamicsInfo(const size_t, const Dynamics*) {}
void simulation::RelativeInformation::RemoveDynamicsInfo(const size_t) {}
template <class T> static T* raw() { return (T*)::operator new(sizeof(T)); }
PROP(step) {
  CelestialInformation* c = vc_env::global(); Spacecraft* s = raw<Spacecraft>(); V3 zero = vec3(0, 0, 0);
  // a spacecraft in mid-simulation, with whatever the last step left
  AnyOrbit* o = new AnyOrbit(c); attitude::Attitude* a = raw<attitude::AttitudeRk4>(); Q4 q = any_unit_quat("q"); a->quaternion_i2b_ = q; a->torque_b_Nm_ = any_vec("torque of the last step"); o->spacecraft_acceleration_i_m_s2_ = any_vec("acceleration of the last step");
  Structure* st = raw<Structure>(); KinematicsParameters* k = raw<KinematicsParameters>(); double m = any_pos("mass", 1, 1000); k->mass_kg_ = m; st->kinematics_parameters_ = k;
  Dynamics* d = raw<Dynamics>(); d->attitude_ = a; d->orbit_ = o; d->structure_ = st; g_d = d;
  s->dynamics_ = d; s->local_environment_ = raw<LocalEnvironment>(); s->local_environment_->celestial_information_ = vc_env::local(c); s->disturbances_ = raw<Disturbances>(); s->components_ = new Parts; s->structure_ = st; s->relative_information_ = 0;
  new (&s->clock_generator_) ClockGenerator();
  g_df = any_vec("disturbance force"); g_dt = any_vec("disturbance torque"); g_da = any_vec("disturbance acceleration"); g_cf = any_vec("component force"); g_ct = any_vec("component torque"); g_time = (const SimulationTime*)c; g_n = 0; g_clear = false; g_same = true;
  s->Spacecraft::Update(g_time);
  vc_check("environment, disturbances, components and motion are updated in this order, once each", g_clear && g_env == 1 && g_dist == 2 && g_clock == 3 && g_inter == 4 && g_force > 4 && g_torque > 4 && g_prop == 7 && g_n == 7 && g_same);
  EQ3("the torque is that of this step's disturbances and components", g_tau, add3(g_dt, g_ct));
  EQ3("the acceleration is that of this step's disturbances and components", g_acc, add3(g_da, scale3(1 / m, spec_b2i(q, add3(g_df, g_cf)))));
}
