// VC-SOURCES: components/base/component.cpp components/ports/power_port.cpp environment/global/clock_generator.cpp components/real/aocs/magnetometer.cpp components/real/aocs/gyro_sensor.cpp components/real/aocs/star_sensor.cpp components/real/aocs/sun_sensor.cpp components/real/aocs/gnss_receiver.cpp math_physics/math/vector.cpp math_physics/math/quaternion.cpp
#include "vc_settings.hpp"
#include "components/real/aocs/magnetometer.hpp"
#include "components/real/aocs/gyro_sensor.hpp"
#include "components/real/aocs/star_sensor.hpp"
#include "components/real/aocs/sun_sensor.hpp"
#include "components/real/aocs/gnss_receiver.hpp"
using namespace s2e; using namespace s2e::components;
template <class T> static T* raw() { return (T*)::operator new(sizeof(T)); }
namespace s2e::environment { V3 LocalCelestialInformation::GetPositionFromSpacecraft_b_m(const char*) const { return vec3(1, 0, 0); } V3 GnssSatellites::GetPosition_ecef_m(const size_t, const time_system::EpochTime) const { return vec3(1, 0, 0); } }
namespace s2e::geodesy { GeodeticPosition::GeodeticPosition() {} void GeodeticPosition::UpdateFromEcef(const math::Vector<3>) {} }
// settings of the common part of vector sensors
struct Base { M33 scale; V3 bias, walk, limit, sd; double constant, zero; };
static void base(Base& b, const char* section, const char* keys[6]) { b.scale = set_mat(section, "scale_factor_c"); b.bias = set_vec(section, keys[0]); b.walk = set_vec(section, keys[1]); b.limit = set_vec(section, keys[2]); b.sd = set_vec(section, keys[3]); b.constant = set_pos(section, keys[4], 1, 5); b.zero = set_pos(section, keys[5], 6, 10); vc_assume(b.zero >= b.constant); if (vc_int("no scale factors", 0, 1) == 1) { for (int i = 0; i < 9; i++) find_setting(section, "scale_factor_c").v[i] = 0.0; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { if (i == j) b.scale[i][j] = 1.0; else b.scale[i][j] = 0.0; } } else vc_assume(b.scale[0][0] > 0.01); }
static void check_base(const Base& b, const Sensor<3>& s, double step) {
  vc_check("scale factors, one when none are given", near(s.scale_factor_, b.scale)); vc_check("constant bias", near(s.bias_noise_c_, b.bias)); vc_check("limit of the random walk", near(s.random_walk_noise_c_.limit_, b.limit)); vc_check("step of the random walk", vc_near(s.random_walk_noise_c_.GetStepWidth(), step));
  for (int i = 0; i < 3; i++) { vc_check("deviation of the random walk", noise(s.random_walk_noise_c_.normal_randomizer_[i], b.walk[i])); vc_check("deviation of the white noise", noise(s.normal_random_noise_c_[i], b.sd[i])); vc_check("ranges", vc_near(s.range_to_const_c_[i], b.constant) && vc_near(s.range_to_zero_c_[i], b.zero)); }
}
PROP(gyro) {
  no_settings(); Common c; common(c, "GYRO_SENSOR_4", true); Q4 q = set_quat("GYRO_SENSOR_4", "quaternion_b2c"); const char* k[6] = {"constant_bias_c_rad_s", "random_walk_standard_deviation_c_rad_s", "random_walk_limit_c_rad_s", "normal_random_standard_deviation_c_rad_s", "range_to_constant_rad_s", "range_to_zero_rad_s"}; Base b; base(b, "SENSOR_BASE_GYRO_SENSOR_4", k); double step = any_pos("step", 0.01, 1); auto* d = raw<dynamics::Dynamics>();
  auto check = [&](const GyroSensor& x) { check_common(c, x); check_base(b, x, step * (double)c.prescaler); vc_check("mounting", near(x.quaternion_b2c_, q)); vc_check("number and surroundings", x.sensor_id_ == 4 && x.dynamics_ == d); };
  if (c.port) { GyroSensor x(InitGyroSensor(&c.clk, c.p, 4, "f", step, d)); check(x); } else { GyroSensor x(InitGyroSensor(&c.clk, 4, "f", step, d)); check(x); }
}
PROP(magnetometer) {
  no_settings(); Common c; common(c, "MAGNETOMETER_2", true); Q4 q = set_quat("MAGNETOMETER_2", "quaternion_b2c"); const char* k[6] = {"constant_bias_c_nT", "random_walk_standard_deviation_c_nT", "random_walk_limit_c_nT", "normal_random_standard_deviation_c_nT", "range_to_constant_nT", "range_to_zero_nT"}; Base b; base(b, "SENSOR_BASE_MAGNETOMETER_2", k); double step = any_pos("step", 0.01, 1); auto* d = raw<environment::GeomagneticField>();
  auto check = [&](const Magnetometer& x) { check_common(c, x); check_base(b, x, step * (double)c.prescaler); vc_check("mounting", near(x.quaternion_b2c_, q)); vc_check("number and surroundings", x.sensor_id_ == 2 && x.geomagnetic_field_ == d); };
  if (c.port) { Magnetometer x(InitMagnetometer(&c.clk, c.p, 2, "f", step, d)); check(x); } else { Magnetometer x(InitMagnetometer(&c.clk, 2, "f", step, d)); check(x); }
}
PROP(star) {
  no_settings(); Common c; const char* s = "STAR_SENSOR_3"; common(c, s, true); Q4 q = set_quat(s, "quaternion_b2c"); double o = set_pos(s, "standard_deviation_orthogonal_direction_rad", 1e-4, 1e-2), l = set_pos(s, "standard_deviation_sight_direction_rad", 1e-4, 1e-2), delay = 0.0, interval = 2.15; long i = vc_int("delay", 0, 2); if (i == 1) { delay = 1.05; interval = 0.01; } else if (i == 2) { delay = 6.3; interval = 0.45; } set_value(s, "output_delay_s", delay); set_value(s, "output_interval_s", interval);
  double sun = set_real(s, "sun_exclusion_angle_deg", 0, 90), earth = set_real(s, "earth_exclusion_angle_deg", 0, 90), moon = set_real(s, "moon_exclusion_angle_deg", 0, 90), rate = set_real(s, "angular_rate_limit_deg_s", 0, 10), step = 0.1; auto* d = raw<dynamics::Dynamics>(); auto* e = raw<environment::LocalEnvironment>();
  auto check = [&](const StarSensor& x) {
    check_common(c, x); vc_check("mounting", near(x.quaternion_b2c_, q)); vc_check("number and surroundings", x.component_id_ == 3 && x.dynamics_ == d && x.local_environment_ == e); vc_check("deviations of both noises", noise(x.orthogonal_direction_noise_, o) && noise(x.sight_direction_noise_, l)); vc_check("exclusion angles in radians", vc_near(x.sun_forbidden_angle_rad_, radian(sun)) && vc_near(x.earth_forbidden_angle_rad_, radian(earth)) && vc_near(x.moon_forbidden_angle_rad_, radian(moon))); vc_check("rate limit in radians", vc_near(x.capture_rate_limit_rad_s_, radian(rate)));
    double h = step * (double)c.prescaler; long n = (long)(delay / h), m = (long)(interval / h); if (n < 1) n = 1; if (m < 1) m = 1; vc_check("step, delay and interval in steps", vc_near(x.step_time_s_, h) && (long)x.output_delay_ == n && (long)x.output_interval_ == m);
  };
  if (c.port) { StarSensor x(InitStarSensor(&c.clk, c.p, 3, "f", step, d, e)); check(x); } else { StarSensor x(InitStarSensor(&c.clk, 3, "f", step, d, e)); check(x); }
}
PROP(sun) {
  no_settings(); g_n = 0; Common c; const char* s = "SUN_SENSOR_12"; common(c, s, true); Q4 q = set_quat(s, "quaternion_b2c"); double fov = set_pos(s, "field_of_view_deg", 10, 80), w = set_pos(s, "white_noise_standard_deviation_deg", 0.1, 1), b = set_pos(s, "bias_standard_deviation_deg", 1.1, 2), t = set_pos(s, "intensity_lower_threshold_percent", 0, 100); auto* d = raw<environment::SolarRadiationPressureEnvironment>(); auto* e = raw<environment::LocalCelestialInformation>();
  auto check = [&](const SunSensor& x) {
    check_common(c, x); vc_check("mounting", near(x.quaternion_b2c_, q)); vc_check("number and surroundings", x.component_id_ == 12 && x.srp_environment_ == d && x.local_celestial_information_ == e); vc_check("field of view in radians", vc_near(x.detectable_angle_rad_, radian(fov))); vc_check("white noise in radians", noise(x.random_noise_alpha_, radian(w)) && noise(x.random_noise_beta_, radian(w))); vc_check("threshold", vc_near(x.intensity_lower_threshold_percent_, t));
    vc_check("biases drawn once with their deviation in radians", g_n == 2 && vc_near(g_deviation[0], radian(b)) && vc_near(g_deviation[1], radian(b))); vc_check("biases drawn", vc_near(x.bias_noise_alpha_rad_, g_deviation[0] * g_unit[0]) && vc_near(x.bias_noise_beta_rad_, g_deviation[1] * g_unit[1]));
  };
  if (c.port) { SunSensor x(InitSunSensor(&c.clk, c.p, 12, "f", d, e)); check(x); } else { SunSensor x(InitSunSensor(&c.clk, 12, "f", d, e)); check(x); }
}
PROP(gnss) {
  no_settings(); Common c; const char* s = "GNSS_RECEIVER_2"; common(c, s, true); if (!vc_is_symbolic()) std::cout.setstate(std::ios::failbit); V3 a = set_vec(s, "antenna_position_b_m"), p = set_vec(s, "white_noise_standard_deviation_position_ecef_m"), v = set_vec(s, "white_noise_standard_deviation_velocity_ecef_m_s"); Q4 q = set_quat(s, "quaternion_b2c"); double w = set_pos(s, "antenna_half_width_deg", 1, 90); bool cone = vc_int("cone", 0, 1) == 1, calculated = vc_int("satellites calculated", 0, 1) == 1; if (cone) set_text(s, "antenna_model", "CONE"); else set_text(s, "antenna_model", "SIMPLE"); auto* d = raw<dynamics::Dynamics>(); auto* g = raw<environment::GnssSatellites>(); g->is_calc_enabled_ = calculated; auto* t = raw<environment::SimulationTime>();
  auto check = [&](const GnssReceiver& x) { check_common(c, x); vc_check("mounting", near(x.quaternion_b2c_, q) && near(x.antenna_position_b_m_, a)); vc_check("number and surroundings", x.component_id_ == 2 && x.dynamics_ == d && x.gnss_satellites_ == g && x.simulation_time_ == t); vc_check("antenna model, cone only with satellites", (x.antenna_model_ == AntennaModel::kCone) == (cone && calculated)); vc_check("half width of the cone", vc_near(x.half_width_deg_, w)); for (int i = 0; i < 3; i++) vc_check("white noise of position and velocity", noise(x.position_random_noise_ecef_m_[i], p[i]) && noise(x.velocity_random_noise_ecef_m_s_[i], v[i])); };
  if (c.port) { GnssReceiver x(InitGnssReceiver(&c.clk, c.p, 2, "f", d, g, t)); check(x); } else { GnssReceiver x(InitGnssReceiver(&c.clk, 2, "f", d, g, t)); check(x); }
}
