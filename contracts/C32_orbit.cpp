// VC-SOURCES: dynamics/orbit/initialize_orbit.cpp components/base/component.cpp components/ports/power_port.cpp environment/global/clock_generator.cpp math_physics/math/vector.cpp math_physics/math/quaternion.cpp
#include "vc_settings.hpp"
#include "dynamics/orbit/initialize_orbit.hpp"
#include "dynamics/orbit/rk4_orbit_propagation.hpp"
#include "dynamics/orbit/encke_orbit_propagation.hpp"
#include "dynamics/orbit/kepler_orbit_propagation.hpp"
#include "dynamics/orbit/sgp4_orbit_propagation.hpp"
#include "dynamics/orbit/relative_orbit.hpp"
#include "dynamics/orbit/time_series_file_orbit_propagation.hpp"
using namespace s2e; namespace so = s2e::orbit;
template <class T> static T* raw() { return (T*)::operator new(sizeof(T)); }
// propagators known by what they are made from
static const char* g_kind; static const void* g_world; static double g_mu, g_step, g_jd, g_tolerance; static V3 g_r, g_v; static bool g_text; static long g_int[4]; static const void* g_other; static double g_real;
static double g_epoch, g_a, g_e, g_i, g_raan, g_arg; static int g_elements, g_from_state; static double g_state_mu, g_state_jd; static V3 g_state_r, g_state_v; static double g_kepler_mu, g_kepler_jd; static int g_kepler, g_calculated; static V3 g_kr, g_kv;
namespace s2e::dynamics::orbit {
std::string Orbit::GetLogHeader() const { return ""; } std::string Orbit::GetLogValue() const { return ""; } void Orbit::TransformEciToEcef() {} void Orbit::TransformEcefToGeodetic() {} math::Quaternion Orbit::CalcQuaternion_i2lvlh() const { return math::Quaternion(0, 0, 0, 1); }
OrbitInitializeMode SetOrbitInitializeMode(const std::string m) { if (same_text(m.c_str(), "ORBITAL_ELEMENTS")) return OrbitInitializeMode::kOrbitalElements; if (same_text(m.c_str(), "POSITION_VELOCITY_I")) return OrbitInitializeMode::kInertialPositionAndVelocity; return OrbitInitializeMode::kDefault; }
Rk4OrbitPropagation::Rk4OrbitPropagation(const environment::CelestialInformation* c, double mu, double h, V3 r, V3 v, double) : Orbit(c), OrdinaryDifferentialEquation<6>(h), gravity_constant_m3_s2_(mu) { g_kind = "RK4"; g_world = c; g_mu = mu; g_step = h; g_r = r; g_v = v; } Rk4OrbitPropagation::~Rk4OrbitPropagation() {} void Rk4OrbitPropagation::DerivativeFunction(double, const math::Vector<6>&, math::Vector<6>&) {} void Rk4OrbitPropagation::Propagate(const double, const double) {}
EnckeOrbitPropagation::EnckeOrbitPropagation(const environment::CelestialInformation* c, const double mu, const double h, const double jd, const V3 r, const V3 v, const double tol) : Orbit(c), OrdinaryDifferentialEquation<6>(h), gravity_constant_m3_s2_(mu), error_tolerance_(tol), propagation_step_s_(h) { g_kind = "ENCKE"; g_world = c; g_mu = mu; g_step = h; g_r = r; g_v = v; g_jd = jd; g_tolerance = tol; } EnckeOrbitPropagation::~EnckeOrbitPropagation() {} void EnckeOrbitPropagation::DerivativeFunction(double, const math::Vector<6>&, math::Vector<6>&) {} void EnckeOrbitPropagation::Propagate(const double, const double) {}
KeplerOrbitPropagation::KeplerOrbitPropagation(const environment::CelestialInformation* c, const double jd, so::KeplerOrbit k) : Orbit(c), KeplerOrbit(k) { g_kind = "KEPLER"; g_world = c; g_jd = jd; g_mu = k.gravity_constant_m3_s2_; } KeplerOrbitPropagation::~KeplerOrbitPropagation() {} void KeplerOrbitPropagation::Propagate(const double, const double) {}
Sgp4OrbitPropagation::Sgp4OrbitPropagation(const environment::CelestialInformation* c, char* a, char* b, const int wgs, const double jd) : Orbit(c) { g_kind = "SGP4"; g_world = c; g_text = same_text(a, "first line") && same_text(b, "second line"); g_int[0] = wgs; g_jd = jd; } void Sgp4OrbitPropagation::Propagate(const double, const double) {}
RelativeOrbit::RelativeOrbit(const environment::CelestialInformation* c, double mu, double h, int id, V3 r, V3 v, RelativeOrbitUpdateMethod m, so::RelativeOrbitModel d, so::StmModel s, simulation::RelativeInformation* o) : Orbit(c), OrdinaryDifferentialEquation<6>(h) { g_kind = "RELATIVE"; g_world = c; g_mu = mu; g_step = h; g_r = r; g_v = v; g_int[0] = id; g_int[1] = (long)m; g_int[2] = (long)d; g_int[3] = (long)s; g_other = o; } RelativeOrbit::~RelativeOrbit() {} void RelativeOrbit::DerivativeFunction(double, const math::Vector<6>&, math::Vector<6>&) {} void RelativeOrbit::Propagate(const double, const double) {}
TimeSeriesFileOrbitPropagation::TimeSeriesFileOrbitPropagation(const environment::CelestialInformation* c, std::string f, int n, int m, double T, const double jd) : Orbit(c), is_time_range_warning_displayed_(false), is_interpolation_method_error_displayed_(false), number_of_interpolation_(n), interpolation_method_(m), orbital_period_correction_s_(T), reference_interpolation_id_(0) { g_kind = "TIME"; g_world = c; g_text = same_text(f.c_str(), "table"); g_int[0] = n; g_int[1] = m; g_real = T; g_jd = jd; } void TimeSeriesFileOrbitPropagation::Propagate(const double, const double) {}
}
// elements and Kepler orbit known by what they are made from (C03 and C04 decide them)
namespace s2e::orbit {
OrbitalElements::OrbitalElements() {} OrbitalElements::~OrbitalElements() {}
OrbitalElements::OrbitalElements(const double t, const double a, const double e, const double i, const double raan, const double arg) : semi_major_axis_m_(a), eccentricity_(e), inclination_rad_(i), raan_rad_(raan), arg_perigee_rad_(arg), epoch_jday_(t) { g_elements++; }
OrbitalElements::OrbitalElements(const double mu, const double t, const V3 r, const V3 v) : semi_major_axis_m_(-5.0) { g_from_state++; g_state_mu = mu; g_state_jd = t; g_state_r = r; g_state_v = v; }
KeplerOrbit::KeplerOrbit() {} KeplerOrbit::~KeplerOrbit() {}
KeplerOrbit::KeplerOrbit(const double mu, const OrbitalElements o) : gravity_constant_m3_s2_(mu) { g_kepler++; g_kepler_mu = mu; g_epoch = o.epoch_jday_; g_a = o.semi_major_axis_m_; g_e = o.eccentricity_; g_i = o.inclination_rad_; g_raan = o.raan_rad_; g_arg = o.arg_perigee_rad_; }
void KeplerOrbit::CalcOrbit(double t) { g_calculated++; g_kepler_jd = t; position_i_m_ = g_kr; velocity_i_m_s_ = g_kv; }
}
void setting_file_reader::IniAccess::ReadChar(const char* s, const char* k, const int n, char* d) { const char* t = find_setting(s, k).s; int i = 0; for (; t && t[i] && i < n - 1; i++) d[i] = t[i]; d[i] = 0; }
struct Any { const environment::CelestialInformation* w; double mu, h, jd; std::string section; bool enabled, logged; };
static void any(Any& a, const char* mode) { no_settings(); g_kind = ""; g_elements = g_from_state = g_kepler = g_calculated = 0; g_text = false; a.w = raw<environment::CelestialInformation>(); a.mu = any_pos("mu", 1, 10); a.h = any_pos("step", 0.1, 1); a.jd = any_pos("jd", 1, 10); if (vc_int("section", 0, 1) == 1) a.section = "OTHER"; else a.section = "ORBIT"; set_text(a.section.c_str(), "propagate_mode", mode); a.enabled = set_bool(a.section.c_str(), "calculation"); a.logged = set_bool(a.section.c_str(), "logging"); }
static dynamics::orbit::Orbit* made(Any& a, const char* kind, simulation::RelativeInformation* o = nullptr) { if (!vc_is_symbolic()) std::cerr.setstate(std::ios::failbit); auto* x = dynamics::orbit::InitOrbit(a.w, "f", a.h, a.jd, a.mu, a.section, o); vc_check("all settings of the orbit read from its section", settings_known()); vc_check("way of propagation", same_text(g_kind, kind)); vc_check("celestial bodies given", g_world == a.w); vc_check("switches of calculation and log", x->is_calc_enabled_ == a.enabled && x->is_log_enabled_ == a.logged); return x; }
struct Elements { double epoch, a, e, i, raan, arg; };
static void set_elements(Elements& x, const char* s) { x.a = set_pos(s, "semi_major_axis_m", 1, 2); x.e = set_pos(s, "eccentricity", 0.1, 0.5); x.i = set_real(s, "inclination_rad", 0, 1); x.raan = set_real(s, "raan_rad", 0, 1); x.arg = set_real(s, "argument_of_perigee_rad", 0, 1); x.epoch = set_pos(s, "epoch_jday", 1, 2); }
// entries of the other way, present in the file but not needed
static void unused_elements(const char* s) { const char* k[6] = {"semi_major_axis_m", "eccentricity", "inclination_rad", "raan_rad", "argument_of_perigee_rad", "epoch_jday"}; for (int i = 0; i < 6; i++) optional(s, k[i]).v[0] = 0.5; }
static void unused_state(const char* s) { Setting& r = optional(s, "initial_position_i_m"); Setting& v = optional(s, "initial_velocity_i_m_s"); for (int i = 0; i < 3; i++) { r.v[i] = 1.0; v.v[i] = 2.0; } }
static bool of_elements(const Elements& x) { return vc_near(g_a, x.a) && vc_near(g_e, x.e) && vc_near(g_i, x.i) && vc_near(g_raan, x.raan) && vc_near(g_arg, x.arg) && vc_near(g_epoch, x.epoch); }
static void numerical(const char* mode, const char* kind) {
  Any a; any(a, mode); const char* s = a.section.c_str(); long way = vc_int("way", 0, 2); V3 r, v; Elements x; g_kr = any_vec("kepler r"); g_kv = any_vec("kepler v");
  if (way == 0) { set_text(s, "initialize_mode", "ORBITAL_ELEMENTS"); set_elements(x, s); unused_state(s); r = g_kr; v = g_kv; } else { if (way == 1) set_text(s, "initialize_mode", "POSITION_VELOCITY_I"); else set_text(s, "initialize_mode", "DEFAULT"); r = set_vec(s, "initial_position_i_m"); v = set_vec(s, "initial_velocity_i_m_s"); unused_elements(s); }
  bool encke = same_text(kind, "ENCKE"); double tol = 0; if (encke) tol = set_pos(s, "error_tolerance", 0.1, 1); made(a, kind); vc_check("gravity constant and step", vc_near(g_mu, a.mu) && vc_near(g_step, a.h)); vc_check("initial position and velocity", near(g_r, r) && near(g_v, v));
  if (way == 0) vc_check("state of the elements at the current time", of_elements(x) && vc_near(g_kepler_mu, a.mu) && g_calculated == 1 && vc_near(g_kepler_jd, a.jd)); if (encke) vc_check("tolerance and start time", vc_near(g_tolerance, tol) && vc_near(g_jd, a.jd));
}
PROP(rk4) { numerical("RK4", "RK4"); }
PROP(encke) { numerical("ENCKE", "ENCKE"); }
PROP(unknown_mode) { numerical("SOMETHING", "RK4"); }
PROP(kepler) {
  Any a; any(a, "KEPLER"); const char* s = a.section.c_str(); long way = vc_int("way", 0, 1); Elements x; V3 r, v; if (way == 0) { set_text(s, "initialize_mode", "ORBITAL_ELEMENTS"); set_elements(x, s); unused_state(s); } else { set_text(s, "initialize_mode", "POSITION_VELOCITY_I"); r = set_vec(s, "initial_position_i_m"); v = set_vec(s, "initial_velocity_i_m_s"); unused_elements(s); }
  made(a, "KEPLER"); vc_check("gravity constant and start time", vc_near(g_mu, a.mu) && vc_near(g_kepler_mu, a.mu) && vc_near(g_jd, a.jd)); if (way == 0) vc_check("elements of the orbit", of_elements(x)); else vc_check("elements of the given state now", g_from_state == 1 && near(g_state_r, r) && near(g_state_v, v) && vc_near(g_state_mu, a.mu) && vc_near(g_state_jd, a.jd) && g_a == -5.0);
}
PROP(sgp4) { Any a; any(a, "SGP4"); const char* s = a.section.c_str(); set_text(s, "initialize_mode", "DEFAULT"); set_int(s, "wgs_setting", 2); set_text(s, "tle1", "first line"); set_text(s, "tle2", "second line"); made(a, "SGP4"); vc_check("two line elements, model and start time", g_text && g_int[0] == 2 && vc_near(g_jd, a.jd)); }
PROP(relative) {
  Any a; any(a, "RELATIVE"); const char* s = a.section.c_str(); set_text(s, "initialize_mode", "DEFAULT"); long m = vc_int("method", 0, 1); set_int(s, "relative_orbit_update_method", m); set_int(s, "relative_dynamics_model_type", 0); set_int(s, "stm_model_type", 0); set_int(s, "reference_satellite_id", 3); V3 r = set_vec(s, "initial_relative_position_lvlh_m"), v = set_vec(s, "initial_relative_velocity_lvlh_m_s"); auto* o = raw<simulation::RelativeInformation>(); made(a, "RELATIVE", o);
  vc_check("gravity constant and step", vc_near(g_mu, a.mu) && vc_near(g_step, a.h)); vc_check("relative position and velocity", near(g_r, r) && near(g_v, v)); vc_check("reference spacecraft and models", g_int[0] == 3 && g_int[1] == m && g_int[2] == 0 && g_int[3] == 0 && g_other == o);
}
PROP(time_series) { Any a; any(a, "TIME_SERIES_FILE"); const char* s = a.section.c_str(); set_text(s, "initialize_mode", "DEFAULT"); set_text(s, "time_series_file_path", "table"); set_int(s, "number_of_interpolation", 7); set_int(s, "interpolation_method", 1); double T = set_pos(s, "orbital_period_correction_s", 1, 2); made(a, "TIME"); vc_check("table, interpolation, correction and start time", g_text && g_int[0] == 7 && g_int[1] == 1 && vc_near(g_real, T) && vc_near(g_jd, a.jd)); }
