// VC-SOURCES: dynamics/dynamics.cpp dynamics/attitude/attitude.cpp simulation/monte_carlo_simulation/simulation_object.cpp simulation/monte_carlo_simulation/monte_carlo_simulation_executor.cpp simulation/monte_carlo_simulation/initialize_monte_carlo_parameters.cpp math_physics/randomization/global_randomization.cpp math_physics/math/vector.cpp math_physics/math/quaternion.cpp simulation/spacecraft/structure/kinematics_parameters.cpp
#include "vc_s2e.hpp"
#include "dynamics/dynamics.hpp"
using namespace s2e;
template <class T> static T* raw() { return (T*)::operator new(sizeof(T)); }
// attitude, orbit and temperatures known by when they are propagated
static int g_clock, g_attitude, g_orbit, g_thermal; static double g_ta, g_to, g_jd, g_tt; static const void* g_bodies; static Q4 g_q; static V3 g_v;
struct AnyAttitude : dynamics::attitude::Attitude { AnyAttitude() : Attitude(math::MakeIdentityMatrix<3>(), "any") {} void Propagate(const double t) override { g_attitude = ++g_clock; g_ta = t; quaternion_i2b_ = g_q; } };
struct AnyOrbit : dynamics::orbit::Orbit { AnyOrbit() : Orbit(nullptr) {} void Propagate(const double t, const double jd) override { g_orbit = ++g_clock; g_to = t; g_jd = jd; spacecraft_velocity_i_m_s_ = g_v; } };
namespace s2e::dynamics::orbit { std::string Orbit::GetLogHeader() const { return ""; } std::string Orbit::GetLogValue() const { return ""; } void Orbit::TransformEciToEcef() {} void Orbit::TransformEcefToGeodetic() {} math::Quaternion Orbit::CalcQuaternion_i2lvlh() const { return math::Quaternion(0, 0, 0, 1); }
Orbit* InitOrbit(const environment::CelestialInformation*, std::string, double, double, double, std::string, simulation::RelativeInformation*) { return nullptr; } }
namespace s2e::dynamics::attitude { Attitude* InitAttitude(std::string, const orbit::Orbit*, const environment::LocalCelestialInformation*, const double, const math::Matrix<3, 3>&, const int) { return nullptr; } }
namespace s2e::dynamics::thermal { Temperature::~Temperature() {} void Temperature::Propagate(const environment::LocalCelestialInformation* c, const double t) { g_thermal = ++g_clock; g_tt = t; g_bodies = c; } std::string Temperature::GetLogHeader() const { return ""; } std::string Temperature::GetLogValue() const { return ""; } Temperature* InitTemperature(const std::string, const double, const environment::SolarRadiationPressureEnvironment*, const environment::EarthAlbedo*, const environment::EarthInfrared*) { return nullptr; } }
namespace s2e::logger { void Logger::AddLogList(ILoggable*) {} }
static dynamics::Dynamics* any(V3& v0, Q4& q0) { auto* d = raw<dynamics::Dynamics>(); auto* a = new AnyAttitude; auto* o = new AnyOrbit; d->attitude_ = a; d->orbit_ = o; d->temperature_ = raw<dynamics::thermal::Temperature>(); auto* s = raw<spacecraft::Structure>(); d->structure_ = s; v0 = any_vec("v0"); q0 = any_unit_quat("q0"); o->spacecraft_velocity_i_m_s_ = v0; a->quaternion_i2b_ = q0; g_q = any_unit_quat("q"); g_v = any_vec("v"); g_clock = g_attitude = g_orbit = g_thermal = 0; return d; }
PROP(update) {
  V3 v; Q4 q; auto* d = any(v, q); auto* t = raw<environment::SimulationTime>(); bool a = vc_int("attitude", 0, 1) == 1, o = vc_int("orbit", 0, 1) == 1, h = vc_int("thermal", 0, 1) == 1; t->attitude_update_flag_ = a; t->orbit_update_flag_ = o; t->thermal_update_flag_ = h; t->elapsed_time_sec_ = any_pos("elapsed", 1, 10); t->current_jd_ = any_pos("jd", 1, 10); auto* c = raw<environment::LocalCelestialInformation>();
  d->Update(t, c); vc_check("each propagated when due, once", (g_attitude > 0) == a && (g_orbit > 0) == o && (g_thermal > 0) == h && g_clock == (a ? 1 : 0) + (o ? 1 : 0) + (h ? 1 : 0));
  if (a) { q = g_q; vc_check("attitude until the current time", vc_near(g_ta, t->elapsed_time_sec_)); } if (o) { v = g_v; vc_check("orbit until the current time", vc_near(g_to, t->elapsed_time_sec_) && vc_near(g_jd, t->current_jd_)); } if (h) vc_check("temperatures until the current time", vc_near(g_tt, t->elapsed_time_sec_) && g_bodies == c);
  V3 b = spec_i2b(q, v), x = d->GetOrbit().GetVelocity_b_m_s(); EQ3("velocity in the body frame of the current attitude", x, b); delete (AnyAttitude*)d->attitude_;
}
PROP(loads) {
  V3 v; Q4 q; auto* d = any(v, q); spacecraft::KinematicsParameters k(vec3(0, 0, 0), any_pos("mass", 1, 100), math::MakeIdentityMatrix<3>()); ((spacecraft::Structure*)d->structure_)->kinematics_parameters_ = &k; V3 f = any_vec("force"), f2 = any_vec("second force"), t = any_vec("torque"), t2 = any_vec("second torque"), a = any_vec("acceleration"); d->attitude_->SetTorque_b_Nm(any_vec("old torque")); d->orbit_->SetAcceleration_i_m_s2(any_vec("old acceleration")); d->ClearForceTorque();
  d->AddForce_b_N(f); d->AddTorque_b_Nm(t); d->AddAcceleration_i_m_s2(a); d->AddForce_b_N(f2); d->AddTorque_b_Nm(t2); V3 w = spec_b2i(q, add3(f, f2)), A = d->orbit_->spacecraft_acceleration_i_m_s2_, T = d->attitude_->torque_b_Nm_; double m = k.GetMass_kg(); EQ3("torques since the last clearing", T, add3(t, t2)); for (int i = 0; i < 3; i++) vc_eq("accelerations and forces since the last clearing", m * (A[i] - a[i]), w[i]); delete (AnyAttitude*)d->attitude_;
}
