// global and local celestial information with chosen contents, built without the ephemeris library
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <string>
#include "environment/local/local_celestial_information.hpp"
using namespace s2e;
int environment::CelestialInformation::CalcBodyIdFromName(const char* n) const { return !strcmp(n, "SUN") ? 0 : !strcmp(n, "EARTH") ? 1 : 2; }
static environment::CelestialInformation* demo_global() {
  using namespace environment; auto* c = (CelestialInformation*)calloc(1, sizeof(CelestialInformation)); c->number_of_selected_bodies_ = 3; c->selected_body_ids_ = new int[3]{10, 399, 301};
  c->celestial_body_position_from_center_i_m_ = (double*)calloc(9, 8); c->celestial_body_velocity_from_center_i_m_s_ = (double*)calloc(9, 8); c->celestial_body_planetographic_radii_m_ = (double*)calloc(9, 8);
  c->celestial_body_gravity_constant_m3_s2_ = (double*)calloc(3, 8); c->celestial_body_mean_radius_m_ = (double*)calloc(3, 8);
  new (&c->center_body_name_) std::string("EARTH"); c->earth_rotation_ = (EarthRotation*)calloc(1, sizeof(EarthRotation)); c->earth_rotation_->dcm_j2000_to_ecef_ = math::MakeIdentityMatrix<3>();
  return c;
}
static inline environment::LocalCelestialInformation* demo_local(const environment::CelestialInformation* g) {
  using namespace environment; auto* l = (LocalCelestialInformation*)calloc(1, sizeof(LocalCelestialInformation)); l->global_celestial_information_ = g;
  l->celestial_body_position_from_spacecraft_i_m_ = (double*)calloc(9, 8); l->celestial_body_velocity_from_spacecraft_i_m_s_ = (double*)calloc(9, 8);
  l->celestial_body_position_from_center_b_m_ = (double*)calloc(9, 8); l->celestial_body_position_from_spacecraft_b_m_ = (double*)calloc(9, 8);
  l->celestial_body_velocity_from_center_b_m_s_ = (double*)calloc(9, 8); l->celestial_body_velocity_from_spacecraft_b_m_s_ = (double*)calloc(9, 8);
  return l;
}
static inline math::Vector<3> v3(double a, double b, double c) { math::Vector<3> r; r[0] = a; r[1] = b; r[2] = c; return r; }
