// VC-SOURCES: dynamics/attitude/attitude.cpp dynamics/attitude/controlled_attitude.cpp dynamics/orbit/orbit.cpp math_physics/math/vector.cpp math_physics/math/quaternion.cpp math_physics/math/matrix_vector.cpp simulation/monte_carlo_simulation/simulation_object.cpp simulation/monte_carlo_simulation/monte_carlo_simulation_executor.cpp simulation/monte_carlo_simulation/initialize_monte_carlo_parameters.cpp math_physics/randomization/global_randomization.cpp math_physics/randomization/normal_randomization.cpp math_physics/geodesy/geodetic_position.cpp math_physics/math/s2e_math.cpp
// VC-REPLACE: s2e::math::Quaternion::ConvertFromDcm WITH vc_from_dcm
#include "vc_s2e.hpp"
#include "vc_env.hpp"
#include "dynamics/attitude/controlled_attitude.hpp"
using namespace s2e::dynamics::attitude; using namespace s2e::math; using namespace s2e; using namespace s2e::environment;
extern "C" void vc_from_dcm(Q4* r, const M33* m) { *r = any_unit_quat("converted"); }
// names are resolved by the ephemeris library (assumed); positions relative to the spacecraft are the local information's (C37)
int CelestialInformation::CalcBodyIdFromName(const char* n) const { int i = vc_env::id_of(n); vc_check("only known bodies are asked for", i >= 0); return i; }
static V3 g_local[3];
V3 LocalCelestialInformation::GetPositionFromSpacecraft_i_m(const char* n) const { int i = vc_env::id_of(n); vc_check("only known bodies are asked for", i >= 0); return g_local[i]; }
namespace { struct AnyOrbit : dynamics::orbit::Orbit { using Orbit::Orbit; void Propagate(const double, const double) override {} }; }
static M33 dmat(const char* n) { M33 m; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) m[i][j] = any_real(n, -1, 1); return m; }
static V3 pos(CelestialInformation* g, int i) { return vec3(g->celestial_body_position_from_center_i_m_[3 * i], g->celestial_body_position_from_center_i_m_[3 * i + 1], g->celestial_body_position_from_center_i_m_[3 * i + 2]); }
PROP(direction) {
  CelestialInformation* g = vc_env::global(); LocalCelestialInformation* l = vc_env::local(g);
  for (int i = 0; i < 9; i++) g->celestial_body_position_from_center_i_m_[i] = any_real("body", -1e8, 1e8);
  M33 d = dmat("dcm"); g->earth_rotation_->dcm_j2000_to_ecef_ = d;
  bool known = vc_bool("local information is available"); V3 z = vec3(0, 0, 0);
  for (int i = 0; i < 3; i++) g_local[i] = known ? any_vec("from spacecraft") : z;
  AnyOrbit o(g); V3 r = any_vec("r"), v = any_vec("v"), ve = any_vec("v ecef");
  o.spacecraft_position_i_m_ = r; o.spacecraft_velocity_i_m_s_ = v; o.spacecraft_velocity_ecef_m_s_ = ve;
  geodesy::GeodeticPosition site(0.3, 1.2, 400.0); V3 se = any_vec("site"); site.latitude_rad_ = any_real("lat", -1.5, 1.5); site.longitude_rad_ = vc_real_in("lon", -7, 7); site.altitude_m_ = any_real("alt", 0, 1e4);
  se = site.CalcEcefPosition();
  M33 I; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) I[i][j] = i == j;
  ControlledAttitude a(AttitudeControlMode::kInertialStabilize, AttitudeControlMode::kSunPointing, Q4(0, 0, 0, 1), vec3(1, 0, 0), vec3(0, 1, 0), I, site, l, &o);
  V3 w; AttitudeControlMode m;
  switch (vc_int("mode", 0, 5)) {
    case 0: m = AttitudeControlMode::kSunPointing; w = known ? g_local[0] : sub3(pos(g, 0), r); if (known) vc_assume(dot3(w, w) > 0); break;
    case 1: m = AttitudeControlMode::kEarthCenterPointing; w = known ? g_local[1] : sub3(pos(g, 1), r); if (known) vc_assume(dot3(w, w) > 0); break;
    case 2: m = AttitudeControlMode::kVelocityDirectionPointing; w = v; break;
    case 3: m = AttitudeControlMode::kGroundSpeedDirectionPointing; for (int i = 0; i < 3; i++) w[i] = d[0][i] * ve[0] + d[1][i] * ve[1] + d[2][i] * ve[2]; break;
    case 4: m = AttitudeControlMode::kOrbitNormalPointing; w = cross3(r, v); break;
    default: m = AttitudeControlMode::kEarthSurfacePointing; for (int i = 0; i < 3; i++) w[i] = d[0][i] * se[0] + d[1][i] * se[1] + d[2][i] * se[2] - r[i]; break;
  }
  V3 u = a.CalcTargetDirection_i(m); double n = norm3(w);
  vc_assume(n > 0);
  EQ3("the direction is the unit vector the mode asks for", scale3(n, u), w);
}
