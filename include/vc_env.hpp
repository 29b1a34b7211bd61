// global and local celestial information with arbitrary contents, built without the ephemeris library: the objects' memory is
// allocated and the fields the code under contract reads are set one by one
#ifndef VC_ENV_HPP_
#define VC_ENV_HPP_
#include <cstring>
#include <new>
#include <string>
#include "environment/local/local_celestial_information.hpp"
namespace vc_env {
using namespace s2e::environment;
// bodies: 0 Sun, 1 Earth, 2 Moon
static const int kSun = 0, kEarth = 1, kMoon = 2;
static inline CelestialInformation* global(int bodies = 3) {
  CelestialInformation* c = (CelestialInformation*)::operator new(sizeof(CelestialInformation));
  c->number_of_selected_bodies_ = bodies;
  c->selected_body_ids_ = new int[3]{10, 399, 301};
  c->celestial_body_position_from_center_i_m_ = new double[9]; c->celestial_body_velocity_from_center_i_m_s_ = new double[9];
  c->celestial_body_gravity_constant_m3_s2_ = new double[3]; c->celestial_body_mean_radius_m_ = new double[3]; c->celestial_body_planetographic_radii_m_ = new double[9];
  new (&c->center_body_name_) std::string("EARTH");
  c->earth_rotation_ = (EarthRotation*)::operator new(sizeof(EarthRotation));
  for (int i = 0; i < 9; i++) c->celestial_body_position_from_center_i_m_[i] = c->celestial_body_velocity_from_center_i_m_s_[i] = c->celestial_body_planetographic_radii_m_[i] = 0;
  for (int i = 0; i < 3; i++) c->celestial_body_gravity_constant_m3_s2_[i] = c->celestial_body_mean_radius_m_[i] = 0;
  return c;
}
static inline LocalCelestialInformation* local(const CelestialInformation* g) {
  LocalCelestialInformation* l = (LocalCelestialInformation*)::operator new(sizeof(LocalCelestialInformation));
  l->global_celestial_information_ = g;
  l->celestial_body_position_from_spacecraft_i_m_ = new double[9]; l->celestial_body_velocity_from_spacecraft_i_m_s_ = new double[9];
  l->celestial_body_position_from_center_b_m_ = new double[9]; l->celestial_body_position_from_spacecraft_b_m_ = new double[9];
  l->celestial_body_velocity_from_center_b_m_s_ = new double[9]; l->celestial_body_velocity_from_spacecraft_b_m_s_ = new double[9];
  return l;
}
static inline int id_of(const char* n) { return std::strcmp(n, "SUN") == 0 ? kSun : std::strcmp(n, "EARTH") == 0 ? kEarth : std::strcmp(n, "MOON") == 0 ? kMoon : -1; }
}  // namespace vc_env
#endif
