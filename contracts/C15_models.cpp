// VC-SOURCES: disturbances/gravity_gradient.cpp disturbances/third_body_gravity.cpp disturbances/geopotential.cpp disturbances/lunar_gravity_field.cpp environment/local/local_celestial_information.cpp environment/global/celestial_information.cpp dynamics/orbit/orbit.cpp dynamics/attitude/attitude.cpp math_physics/math/vector.cpp math_physics/math/quaternion.cpp math_physics/gravity/gravity_potential.cpp math_physics/geodesy/geodetic_position.cpp math_physics/orbit/sgp4/sgp4ext.cpp simulation/monte_carlo_simulation/simulation_object.cpp simulation/monte_carlo_simulation/monte_carlo_simulation_executor.cpp simulation/monte_carlo_simulation/initialize_monte_carlo_parameters.cpp math_physics/randomization/global_randomization.cpp math_physics/randomization/normal_randomization.cpp math_physics/randomization/minimal_standard_linear_congruential_generator.cpp math_physics/randomization/minimal_standard_linear_congruential_generator_with_shuffle.cpp
// VC-REPLACE: s2e::gravity::GravityPotential::CalcAcceleration_xcxf_m_s2 WITH vc_potential
// VC-REPLACE: ~std::_Rb_tree_increment\(.* WITH vc_next
#include "vc_s2e.hpp"
#include "vc_env.hpp"
#include "disturbances/gravity_gradient.hpp"
#include "disturbances/third_body_gravity.hpp"
#include "disturbances/geopotential.hpp"
#include "disturbances/lunar_gravity_field.hpp"
#include "dynamics/attitude/attitude_rk4.hpp"
using namespace s2e; using namespace s2e::math; using namespace s2e::environment; using namespace s2e::dynamics; using namespace s2e::disturbances;
int CelestialInformation::CalcBodyIdFromName(const char* n) const { return vc_env::id_of(n); }
namespace { struct AnyOrbit : dynamics::orbit::Orbit { using Orbit::Orbit; void Propagate(const double, const double) override {} }; }
template <class T> static T* raw() { return (T*)::operator new(sizeof(T)); }
// ordered set of names: the next element (contract of the standard tree)
static std::_Rb_tree_node_base* g_node[4]; 
extern "C" const std::_Rb_tree_node_base* vc_next(const std::_Rb_tree_node_base* n) { for (int i = 0; i < 3; i++) if (n == g_node[i]) return g_node[i + 1]; return n; }
// gravity potential (C28): some acceleration for the body-fixed position it is asked for
static const gravity::GravityPotential* g_pot; static V3 g_at, g_acc; static int g_n = 0;
extern "C" void vc_potential(V3* r, gravity::GravityPotential* p, const V3* x) { g_n++; g_pot = p; g_at = *x; g_acc = any_vec("potential acceleration"); *r = g_acc; }
static Dynamics* motion(const CelestialInformation* c, const V3& r) { Dynamics* d = raw<Dynamics>(); AnyOrbit* o = new AnyOrbit(c); o->spacecraft_position_i_m_ = r; d->orbit_ = o; return d; }
static V3 at_distance(const char* n) { V3 u = any_unit3(n); return scale3(any_pos(n, 1e6, 1e9), u); }
PROP(gravity_gradient) {
  CelestialInformation* c = vc_env::global(); LocalEnvironment* l = raw<LocalEnvironment>(); l->celestial_information_ = vc_env::local(c);
  double R = any_pos("distance", 6.5e6, 4e7), mu = any_pos("mu", 1e12, 4e14); V3 u = any_unit3("direction"); for (int j = 0; j < 3; j++) { l->celestial_information_->celestial_body_position_from_spacecraft_b_m_[3 + j] = R * u[j]; l->celestial_information_->celestial_body_position_from_spacecraft_i_m_[3 + j] = vc_real("inertial"); }
  M33 I = vc_is_symbolic() ? any_mat("I") : M33(0.0); if (!vc_is_symbolic()) for (int i = 0; i < 3; i++) for (int j = 0; j <= i; j++) I[i][j] = I[j][i] = vc_real_in("I", 0, 100);
  attitude::Attitude* a = raw<attitude::AttitudeRk4>(); *(const M33**)((char*)&a->angular_momentum_spacecraft_b_Nms_ - 8) = &I;   // the reference member in front of it
  Dynamics* d = motion(c, any_vec("r")); d->attitude_ = a; bool on = vc_bool("enabled");
  GravityGradient g(mu, on); g.torque_b_Nm_ = any_vec("last torque"); g.UpdateIfEnabled(*l, *d);
  V3 t = on ? scale3(3 * mu / (R * R * R), cross3(u, mv3(I, u))) : vec3(0, 0, 0);
  EQ3("gravity gradient torque is 3 mu / r^3 times u x I u", g.GetTorque_b_Nm(), t);
  EQ3("gravity gradient acts by its torque only", g.GetForce_b_N(), vec3(0, 0, 0)); EQ3("gravity gradient acts by its torque only", g.GetAcceleration_i_m_s2(), vec3(0, 0, 0));
  vc_check("gravity gradient follows the attitude", g.IsAttitudeDependent());
}
static const char* kNames[3] = {"SUN", "EARTH", "MOON"};
PROP(third_body) {
  vc_assumption("at most three selected bodies (bounded)");
  CelestialInformation* c = vc_env::global(); LocalEnvironment* l = raw<LocalEnvironment>(); l->celestial_information_ = vc_env::local(c); V3 r = any_vec_in("r", -1e7, 1e7), s[3], sum = vec3(0, 0, 0); double mu[3];
  ThirdBodyGravity g(std::set<std::string>(), true); bool use[3] = {vc_bool("Sun"), vc_bool("Earth"), vc_bool("Moon")}; int n = 0;
  std::_Rb_tree_header& h = g.third_body_list_._M_t._M_impl; static std::_Rb_tree_node<std::string> node[3];
  for (int i = 0; i < 3; i++) {
    V3 v = at_distance("from spacecraft"), w; double S = any_pos("distance from the center", 1e6, 1e9);
    s[i] = add3(r, v); mu[i] = c->celestial_body_gravity_constant_m3_s2_[i] = any_pos("mu", 1e12, 1e20); double D = norm3(v), N = norm3(s[i]); vc_assume(N > 0);
    for (int j = 0; j < 3; j++) { l->celestial_information_->celestial_body_position_from_spacecraft_i_m_[3 * i + j] = v[j]; l->celestial_information_->celestial_body_position_from_spacecraft_b_m_[3 * i + j] = vc_real("body frame"); c->celestial_body_position_from_center_i_m_[3 * i + j] = s[i][j]; }
    if (!use[i]) continue;
    sum = add3(sum, scale3(mu[i], sub3(scale3(1 / (D * D * D), v), scale3(1 / (N * N * N), s[i]))));
    if (vc_is_symbolic()) { new (node[n]._M_valptr()) std::string(kNames[i]); g_node[n] = &node[n]; n++; } else g.third_body_list_.insert(kNames[i]);
  }
  if (vc_is_symbolic()) { g_node[n] = &h._M_header; h._M_header._M_left = g_node[0]; for (int i = n + 1; i < 4; i++) g_node[i] = 0; }
  Dynamics* d = motion(c, r); g.acceleration_i_m_s2_ = any_vec("last acceleration");
  g.UpdateIfEnabled(*l, *d);
  EQ3S("third-body acceleration is the difference of attraction of spacecraft and center body", g.GetAcceleration_i_m_s2(), sum, 1e-3);
  vc_check("third-body gravity does not wait for the attitude", !g.IsAttitudeDependent());
  if (vc_is_symbolic()) h._M_header._M_left = &h._M_header;
}
PROP(geopotential) {
  CelestialInformation* c = vc_env::global(); LocalEnvironment* l = raw<LocalEnvironment>(); l->celestial_information_ = vc_env::local(c);
  Geopotential g(0, "", true); M33 D = any_mat("J2000 to Earth-fixed"); c->earth_rotation_->dcm_j2000_to_ecef_ = D; V3 r = any_vec_in("r", -1e7, 1e7), e = any_vec_in("Earth-fixed position", -1e7, 1e7);
  Dynamics* d = motion(c, r); d->orbit_->spacecraft_position_ecef_m_ = e; g.acceleration_i_m_s2_ = any_vec("last"); g_n = 0; g.UpdateIfEnabled(*l, *d);
  V3 a = vc_is_symbolic() ? g_acc : vec3(0, 0, 0), b; for (int i = 0; i < 3; i++) b[i] = D[0][i] * a[0] + D[1][i] * a[1] + D[2][i] * a[2];
  if (vc_is_symbolic()) { vc_check("the geopotential is evaluated once at the Earth-fixed position", g_n == 1 && g_pot == &g.geopotential_); EQ3("the geopotential is evaluated at the Earth-fixed position", g_at, e); }
  EQ3("the geopotential acceleration is turned from the Earth-fixed to the inertial frame", g.GetAcceleration_i_m_s2(), b);
  vc_check("the geopotential does not wait for the attitude", !g.IsAttitudeDependent());
}
PROP(lunar) {
  CelestialInformation* c = vc_env::global(); LocalEnvironment* l = raw<LocalEnvironment>(); l->celestial_information_ = vc_env::local(c); M33 D = any_mat("J2000 to Moon-fixed"); V3 r = any_vec_in("r", -1e7, 1e7);
  c->moon_rotation_ = (MoonRotation*)::operator new(sizeof(MoonRotation)); c->moon_rotation_->dcm_j2000_to_mcmf_ = D;
  LunarGravityField* g = new LunarGravityField(0, "", true); Dynamics* d = motion(c, r); g->acceleration_i_m_s2_ = any_vec("last"); g_n = 0; g->UpdateIfEnabled(*l, *d);
  V3 a = vc_is_symbolic() ? g_acc : vec3(0, 0, 0), b; for (int i = 0; i < 3; i++) b[i] = D[0][i] * a[0] + D[1][i] * a[1] + D[2][i] * a[2];
  if (vc_is_symbolic()) { vc_check("the lunar potential is evaluated once", g_n == 1 && g_pot == &g->lunar_potential_); EQ3("the lunar potential is evaluated at the Moon-fixed position", g_at, mv3(D, r)); }
  EQ3("the lunar gravity is turned from the Moon-fixed to the inertial frame", g->GetAcceleration_i_m_s2(), b);
  vc_check("the lunar gravity does not wait for the attitude", !g->IsAttitudeDependent());
}
