// VC-SOURCES: disturbances/surface_force.cpp disturbances/solar_radiation_pressure_disturbance.cpp environment/local/local_celestial_information.cpp simulation/spacecraft/structure/surface.cpp math_physics/math/vector.cpp math_physics/math/quaternion.cpp
#include "vc_s2e.hpp"
#include "vc_env.hpp"
#include "disturbances/solar_radiation_pressure_disturbance.hpp"
using namespace s2e; using namespace s2e::math; using namespace s2e::environment; using namespace s2e::disturbances; using namespace s2e::spacecraft;
int CelestialInformation::CalcBodyIdFromName(const char* n) const { return vc_env::id_of(n); }
extern "C" void bodc2n_c(int, int, char* n, int* f) { n[0] = 0; *f = 1; }
template <class T> static T* raw() { return (T*)::operator new(sizeof(T)); }
static LocalEnvironment* env(const V3& sun, double P, double shadow) {
  CelestialInformation* c = vc_env::global(); LocalEnvironment* l = raw<LocalEnvironment>(); l->celestial_information_ = vc_env::local(c);
  for (int j = 0; j < 3; j++) { l->celestial_information_->celestial_body_position_from_spacecraft_b_m_[j] = sun[j]; l->celestial_information_->celestial_body_position_from_spacecraft_i_m_[j] = vc_real("inertial"); l->celestial_information_->celestial_body_position_from_spacecraft_b_m_[3 + j] = l->celestial_information_->celestial_body_position_from_spacecraft_b_m_[6 + j] = vc_real("other body"); }
  SolarRadiationPressureEnvironment* s = raw<SolarRadiationPressureEnvironment>(); s->solar_radiation_pressure_N_m2_ = P; s->shadow_coefficient_ = shadow; l->solar_radiation_pressure_environment_ = s; return l;
}
// one surface: momentum exchange of the absorbed, specularly and diffusely reflected light
PROP(srp_surface) {
  Q4 f = any_unit_quat("frame"); V3 n = spec_b2i(f, vec3(1, 0, 0)), t = spec_b2i(f, vec3(0, 1, 0)); double a[2]; vc_unit("incidence", a, 2); double c = a[0], w = a[1]; if (w < 0) return;   // sine of the angle from the normal
  if (!vc_is_symbolic() && c < 1e-9 && c > -1e-9) return;   // rounding decides which side is lit
  V3 s = add3(scale3(c, n), scale3(w, t)), r = any_vec_in("position", -1, 1), cg = any_vec_in("cg", -1, 1); double A = any_pos("area", 0.1, 1), R = any_real("reflectivity", 0, 1), S = any_real("specularity", 0, 1), P = any_pos("pressure", 1e-3, 1), k = any_pos("shadow", 0.1, 1), L = any_pos("distance", 1, 10);
  if (!vc_is_symbolic()) { double m = norm3(n); n = scale3(1 / m, n); }
  std::vector<Surface> list; list.push_back(Surface(r, n, A, R, S, vc_real("air"))); SolarRadiationPressureDisturbance d(list, cg, true); d.force_b_N_ = any_vec("last"); d.torque_b_Nm_ = any_vec("last");
  d.UpdateIfEnabled(*env(scale3(L, s), P, k), *raw<dynamics::Dynamics>());
  double rs = R * S, rd = R * (1 - S), p = P * k; V3 F = vec3(0, 0, 0);
  if (c > 0) F = scale3(-p * A * c, add3(scale3(1 - rs, s), scale3(2 * (rs * c + rd / 3), n)));
  EQ3("pressure force of absorbed and reflected sunlight", d.GetForce_b_N(), F); EQ3("torque of the force about the centre of gravity", d.GetTorque_b_Nm(), cross3(sub3(r, cg), F));
  EQ3("surface forces act by force and torque only", d.GetAcceleration_i_m_s2(), vec3(0, 0, 0)); vc_check("surface forces follow the attitude", d.IsAttitudeDependent());
}
