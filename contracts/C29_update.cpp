// VC-SOURCES: environment/local/local_environment.cpp math_physics/geodesy/geodetic_position.cpp math_physics/math/vector.cpp math_physics/math/quaternion.cpp math_physics/math/s2e_math.cpp math_physics/orbit/sgp4/sgp4ext.cpp
#include "vc_s2e.hpp"
#include "environment/local/local_environment.hpp"
#include "dynamics/dynamics.hpp"
using namespace s2e; using namespace s2e::math; using namespace s2e::environment;
template <class T> static T* raw() { return (T*)::operator new(sizeof(T)); }
enum { kCelestial, kMagnetic, kSun, kAlbedo, kInfrared, kAir, kN };
static int g_time, g_at[kN], g_n[kN]; static V3 g_r, g_v, g_w; static Q4 g_q, g_qm; static double g_year[2], g_side; static void* g_self[kN]; static const void* g_orbit;
static void called(int i, void* self) { g_n[i]++; g_at[i] = ++g_time; g_self[i] = self; }
// the models themselves are decided by their own contracts
void LocalCelestialInformation::UpdateAllObjectsInformation(const V3 r, const V3 v, const Q4 q, const V3 w) { called(kCelestial, this); g_r = r; g_v = v; g_q = q; g_w = w; }
void GeomagneticField::CalcMagneticField(const double year, const double side, const geodesy::GeodeticPosition, const Q4 q) { called(kMagnetic, this); g_year[0] = year; g_side = side; g_qm = q; }
void SolarRadiationPressureEnvironment::UpdateAllStates() { called(kSun, this); }
void EarthAlbedo::UpdateAllStates() { called(kAlbedo, this); }
void EarthInfrared::UpdateAllStates() { called(kInfrared, this); }
double Atmosphere::CalcAirDensity_kg_m3(const double year, const dynamics::orbit::Orbit& orbit) { called(kAir, this); g_year[1] = year; g_orbit = &orbit; return 0; }
PROP(update) {
  LocalEnvironment* l = raw<LocalEnvironment>(); SimulationTime* t = raw<SimulationTime>(); dynamics::Dynamics* d = raw<dynamics::Dynamics>();
  l->celestial_information_ = raw<LocalCelestialInformation>(); l->geomagnetic_field_ = raw<GeomagneticField>(); l->solar_radiation_pressure_environment_ = raw<SolarRadiationPressureEnvironment>(); l->earth_albedo_ = raw<EarthAlbedo>(); l->earth_infrared_ = raw<EarthInfrared>(); l->atmosphere_ = raw<Atmosphere>();
  d->attitude_ = raw<dynamics::attitude::Attitude>(); d->orbit_ = raw<dynamics::orbit::Orbit>();
  V3 r = any_vec("r"), v = any_vec("v"), w = any_vec("w"); Q4 q = any_quat("q"); new (&d->orbit_->spacecraft_position_i_m_) V3(r); new (&d->orbit_->spacecraft_velocity_i_m_s_) V3(v); new (&d->attitude_->quaternion_i2b_) Q4(q); new (&d->attitude_->angular_velocity_b_rad_s_) V3(w);
  new (&d->orbit_->spacecraft_geodetic_position_) geodesy::GeodeticPosition();
  bool att = vc_bool("attitude step"), orb = vc_bool("orbit step"); t->attitude_update_flag_ = att; t->orbit_update_flag_ = orb; t->thermal_update_flag_ = vc_bool("thermal step"); t->component_update_flag_ = vc_bool("component step"); double year = vc_real("year"), side = vc_real("sidereal"); t->current_decyear_ = year; t->current_sidereal_ = side;
  g_time = 0; for (int i = 0; i < kN; i++) g_n[i] = g_at[i] = 0;
  l->Update(d, t);
  vc_check("bodies and magnetic field follow every attitude step", g_n[kCelestial] == att && g_n[kMagnetic] == att);
  vc_check("light and air follow every orbit step", g_n[kSun] == orb && g_n[kAlbedo] == orb && g_n[kInfrared] == orb && g_n[kAir] == orb);
  if (att) {
    EQ3("positions of the bodies belong to the current state", g_r, r); EQ3("positions of the bodies belong to the current state", g_v, v); EQ3("positions of the bodies belong to the current state", g_w, w); EQ4("positions of the bodies belong to the current state", g_q, q);
    vc_check("models get the current time", g_year[0] == year && g_side == side); EQ4("magnetic field is rotated by the current attitude", g_qm, q);
    vc_check("every model of this spacecraft", g_self[kCelestial] == l->celestial_information_ && g_self[kMagnetic] == l->geomagnetic_field_);
  }
  if (orb) {
    vc_check("sunlight is known before its reflection", g_at[kSun] < g_at[kAlbedo] && g_at[kSun] < g_at[kInfrared] && (!att || g_at[kCelestial] < g_at[kSun]));
    vc_check("models get the current time", g_year[1] == year); vc_check("every model of this spacecraft", g_self[kSun] == l->solar_radiation_pressure_environment_ && g_self[kAlbedo] == l->earth_albedo_ && g_self[kInfrared] == l->earth_infrared_ && g_self[kAir] == l->atmosphere_ && g_orbit == d->orbit_);
  }
}
