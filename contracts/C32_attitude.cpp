// VC-SOURCES: dynamics/attitude/initialize_attitude.cpp dynamics/attitude/controlled_attitude.cpp dynamics/attitude/attitude.cpp math_physics/geodesy/geodetic_position.cpp math_physics/orbit/sgp4/sgp4ext.cpp simulation/monte_carlo_simulation/simulation_object.cpp simulation/monte_carlo_simulation/monte_carlo_simulation_executor.cpp simulation/monte_carlo_simulation/initialize_monte_carlo_parameters.cpp math_physics/randomization/global_randomization.cpp components/base/component.cpp components/ports/power_port.cpp environment/global/clock_generator.cpp math_physics/math/vector.cpp math_physics/math/quaternion.cpp math_physics/math/matrix_vector.cpp
#include "vc_settings.hpp"
#include "dynamics/attitude/initialize_attitude.hpp"
using namespace s2e; using namespace s2e::dynamics::attitude;
template <class T> static T* raw() { return (T*)::operator new(sizeof(T)); }
// attitudes known by what they are made from
struct Made { const char* kind; V3 w, t, main, sub; Q4 q; M33 I, cantilever; double h, damping, frequency, latitude, longitude, altitude; int main_mode, sub_mode; const void* bodies; const void* orbit; bool name; };
static Made g_last, g_first; static int g_made, g_propagated; static double g_time; static Q4 g_after;
static Made& next(const char* kind) { if (g_made == 1) g_first = g_last; g_made++; g_last.kind = kind; return g_last; }
namespace s2e::environment { V3 LocalCelestialInformation::GetPositionFromSpacecraft_i_m(const char*) const { return vec3(1, 0, 0); } V3 LocalCelestialInformation::GetCenterBodyPositionFromSpacecraft_i_m() const { return vec3(1, 0, 0); } }
namespace s2e::dynamics::attitude {
AttitudeRk4::AttitudeRk4(const V3& w, const Q4& q, const M33& I, const V3& t, const double h, const std::string& n) : Attitude(I, n) { Made& m = next("RK4"); m.w = w; m.q = q; m.I = I; m.t = t; m.h = h; m.name = same_text(n.c_str(), "attitude7"); } AttitudeRk4::~AttitudeRk4() {} void AttitudeRk4::Propagate(const double) {} void AttitudeRk4::SetParameters(const simulation::MonteCarloSimulationExecutor&) {}
AttitudeWithCantileverVibration::AttitudeWithCantileverVibration(const V3& w, const Q4& q, const M33& I, const M33& c, const double d, const double f, const V3& t, const double h, const std::string& n) : Attitude(I, n), numerical_integrator_(h, attitude_ode_, numerical_integration::NumericalIntegrationMethod::kRk4) { Made& m = next("CANTILEVER"); m.w = w; m.q = q; m.I = I; m.cantilever = c; m.damping = d; m.frequency = f; m.t = t; m.h = h; m.name = same_text(n.c_str(), "attitude7"); } AttitudeWithCantileverVibration::~AttitudeWithCantileverVibration() {} void AttitudeWithCantileverVibration::Propagate(const double) {} void AttitudeWithCantileverVibration::SetParameters(const simulation::MonteCarloSimulationExecutor&) {} std::string AttitudeWithCantileverVibration::GetLogHeader() const { return ""; } std::string AttitudeWithCantileverVibration::GetLogValue() const { return ""; }
ControlledAttitude::ControlledAttitude(const AttitudeControlMode m0, const AttitudeControlMode m1, const Q4 q, const V3 d0, const V3 d1, const M33& I, const geodesy::GeodeticPosition g, const environment::LocalCelestialInformation* c, const orbit::Orbit* o, const std::string& n) : Attitude(I, n), local_celestial_information_(c), orbit_(o) { Made& m = next("CONTROLLED"); m.main_mode = (int)m0; m.sub_mode = (int)m1; m.q = q; m.main = d0; m.sub = d1; m.I = I; m.latitude = g.GetLatitude_rad(); m.longitude = g.GetLongitude_rad(); m.altitude = g.GetAltitude_m(); m.bodies = c; m.orbit = o; m.name = same_text(n.c_str(), "attitude7"); }
ControlledAttitude::~ControlledAttitude() {} void ControlledAttitude::Propagate(const double t) { g_propagated++; g_time = t; quaternion_i2b_ = g_after; }
}
struct Given { V3 w, t, main, sub; Q4 q; M33 I, cantilever; double h, damping, frequency, latitude, longitude, altitude; int mode; const environment::LocalCelestialInformation* bodies; const dynamics::orbit::Orbit* orbit; };
static V3 fixed_vec(const char* s, const char* k) { Setting& e = optional(s, k); for (int i = 0; i < 3; i++) e.v[i] = 0.25 * (i + 1); return vec3(0.25, 0.5, 0.75); }
static void set_control(Given& g) { const char* s = "CONTROLLED_ATTITUDE"; long k = vc_int("control", 0, 2); if (k == 0) { set_text(s, "main_mode", "SUN_POINTING"); set_text(s, "sub_mode", "EARTH_CENTER_POINTING"); g.mode = 12; } else if (k == 1) { set_text(s, "main_mode", "EARTH_SURFACE_POINTING"); set_text(s, "sub_mode", "ORBIT_NORMAL_POINTING"); g.mode = 65; } else { set_text(s, "main_mode", "GROUND_SPEED_DIRECTION_POINTING"); set_text(s, "sub_mode", "VELOCITY_DIRECTION_POINTING"); g.mode = 43; }
  g.main = set_vec(s, "main_pointing_direction_b"); g.sub = set_vec(s, "sub_pointing_direction_b"); g.latitude = set_real(s, "target_position_latitude_deg", -90, 90); g.longitude = set_real(s, "target_position_longitude_deg", -180, 180); g.altitude = set_real(s, "altitude_m", 0, 1000); }
static bool controlled(const Made& m, const Given& g) { return same_text(m.kind, "CONTROLLED") && m.main_mode * 10 + m.sub_mode == g.mode && near(m.main, g.main) && near(m.sub, g.sub) && vc_near(m.latitude, radian(g.latitude)) && vc_near(m.longitude, radian(g.longitude)) && vc_near(m.altitude, g.altitude) && m.bodies == g.bodies && m.orbit == g.orbit && near(m.q, g.q) && near(m.I, g.I); }
static void attitude(const char* mode, const char* kind) {
  no_settings(); g_made = g_propagated = 0; Given g; const char* s = "ATTITUDE"; g.I = any_mat("I"); g.h = any_pos("step", 0.1, 1); g.bodies = raw<environment::LocalCelestialInformation>(); g.orbit = raw<dynamics::orbit::Orbit>(); g_after = any_unit_quat("after"); set_text(s, "propagate_mode", mode); g.q = set_quat(s, "initial_quaternion_i2b"); bool start_controlled = vc_int("start controlled", 0, 1) == 1, stay = same_text(kind, "CONTROLLED"), rod = same_text(kind, "CANTILEVER");
  if (start_controlled) set_text(s, "initialize_mode", "CONTROLLED"); else set_text(s, "initialize_mode", "MANUAL"); if (start_controlled || stay) set_control(g);
  if (start_controlled) { fixed_vec(s, "initial_angular_velocity_b_rad_s"); fixed_vec(s, "initial_torque_b_Nm"); g.w = g.t = vec3(0, 0, 0); } else { g.w = set_vec(s, "initial_angular_velocity_b_rad_s"); g.t = set_vec(s, "initial_torque_b_Nm"); }
  if (rod) { set_text("SETTING_FILES", "structure_file", "structure"); const char* c = "CANTILEVER_PARAMETERS"; g.cantilever = set_mat(c, "inertia_tensor_cantilever_kgm2"); g.damping = set_pos(c, "damping_ratio_cantilever", 0.1, 0.5); g.frequency = set_pos(c, "intrinsic_angular_velocity_cantilever_rad_s", 1, 5); }
  if (!vc_is_symbolic()) std::cerr.setstate(std::ios::failbit); Attitude* x = InitAttitude("f", g.orbit, g.bodies, g.h, g.I, 7); vc_check("all settings of the attitude read", settings_known()); vc_check("way of attitude propagation", x != nullptr && same_text(g_last.kind, kind) && g_last.name); vc_check("inertia of the spacecraft", near(g_last.I, g.I)); delete x; vc_check("nothing left registered for the next simulation case", simulation::SimulationObject::object_list_.empty());
  if (stay) { vc_check("controlled by its settings", controlled(g_last, g)); return; }
  if (start_controlled) { vc_check("start by the controlled attitude", g_made == 2 && controlled(g_first, g) && g_propagated == 1); vc_check("initial quaternion from the control", near(g_last.q, g_after)); } else vc_check("initial quaternion from the file", g_made == 1 && near(g_last.q, g.q));
  vc_check("initial rate and torque", near(g_last.w, g.w) && near(g_last.t, g.t)); vc_check("step of the attitude", vc_near(g_last.h, g.h)); if (rod) vc_check("cantilever", near(g_last.cantilever, g.cantilever) && vc_near(g_last.damping, g.damping) && vc_near(g_last.frequency, g.frequency));
}
PROP(rk4) { attitude("RK4", "RK4"); }
PROP(cantilever) { attitude("CANTILEVER_VIBRATION", "CANTILEVER"); }
PROP(controlled) { attitude("CONTROLLED", "CONTROLLED"); }
PROP(unknown_mode) { attitude("SOMETHING", "RK4"); }
