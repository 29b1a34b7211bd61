// VC-SOURCES: components/base/component.cpp components/ports/power_port.cpp environment/global/clock_generator.cpp components/real/aocs/magnetorquer.cpp components/real/aocs/reaction_wheel.cpp components/real/aocs/reaction_wheel_ode.cpp components/real/propulsion/simple_thruster.cpp math_physics/math/vector.cpp math_physics/math/quaternion.cpp
// VC-REPLACE: s2e::math::Quaternion::Quaternion(s2e::math::Vector<3ul, double> const&, s2e::math::Vector<3ul, double> const&) WITH vc_turn
#include "vc_settings.hpp"
#include "components/real/aocs/magnetorquer.hpp"
#include "components/real/aocs/reaction_wheel.hpp"
#include "components/real/propulsion/simple_thruster.hpp"
using namespace s2e; using namespace s2e::components;
template <class T> static T* raw() { return (T*)::operator new(sizeof(T)); }
static bool none(const V3& v) { return vc_near(v[0], 0) && vc_near(v[1], 0) && vc_near(v[2], 0); }
PROP(magnetorquer) {
  no_settings(); Common c; const char* s = "MAGNETORQUER_5"; common(c, s, true); Q4 q = set_quat(s, "quaternion_b2c"); M33 scale = set_mat(s, "scale_factor_c"); V3 hi = set_vec(s, "max_output_magnetic_moment_c_Am2"), lo = set_vec(s, "min_output_magnetic_moment_c_Am2"), bias = set_vec(s, "constant_bias_noise_c_Am2"), walk = set_vec(s, "random_walk_standard_deviation_c_Am2"), limit = set_vec(s, "random_walk_limit_c_Am2"), sd = set_vec(s, "white_noise_standard_deviation_c_Am2"); double step = any_pos("step", 0.01, 1); auto* d = raw<environment::GeomagneticField>();
  auto check = [&](const Magnetorquer& x) {
    check_common(c, x); vc_check("mounting", near(x.quaternion_b2c_, q)); vc_check("number and surroundings", x.component_id_ == 5 && x.geomagnetic_field_ == d); vc_check("scale factors", near(x.scale_factor_, scale)); vc_check("no torque before the first update", none(x.GetOutputTorque_b_Nm()) && none(x.target_magnetic_moment_c_Am2_)); vc_check("limits of the output", near(x.max_magnetic_moment_c_Am2_, hi) && near(x.min_magnetic_moment_c_Am2_, lo)); vc_check("constant bias", near(x.bias_noise_c_Am2_, bias)); vc_check("limit of the random walk", near(x.random_walk_c_Am2_.limit_, limit)); vc_check("step of the random walk", vc_near(x.random_walk_c_Am2_.GetStepWidth(), step * (double)c.prescaler));
    for (int i = 0; i < 3; i++) { vc_check("deviation of the random walk", noise(x.random_walk_c_Am2_.normal_randomizer_[i], walk[i])); vc_check("deviation of the white noise", noise(x.random_noise_c_Am2_[i], sd[i])); }
  };
  if (c.port) { Magnetorquer x(InitMagnetorquer(&c.clk, c.p, 5, "f", step, d)); check(x); } else { Magnetorquer x(InitMagnetorquer(&c.clk, 5, "f", step, d)); check(x); }
}
PROP(thruster) {
  no_settings(); Common c; const char* s = "THRUSTER_3"; common(c, s, true); V3 at = set_vec(s, "thruster_position_b_m"), dir = set_vec(s, "thruster_direction_b"); double most = set_pos(s, "thrust_magnitude_N", 0.1, 1), sd = set_pos(s, "thrust_error_standard_deviation_N", 0.01, 0.1), angle = set_pos(s, "direction_error_standard_deviation_deg", 0.1, 5), tau = set_pos(s, "time_constant_s", 0.1, 2), dead = 0, step = 0.25; long k = vc_int("dead time", 0, 2); if (k == 1) dead = 1.0; else if (k == 2) { dead = 1.6; step = 0.5; }
  set_value(s, "dead_time_s", dead); set_value(s, "step_width_s", step); auto* d = raw<dynamics::Dynamics>(); auto* b = raw<spacecraft::Structure>(); vc_assume(dir[0] > 0.1);
  auto check = [&](const SimpleThruster& x) {
    check_common(c, x); vc_check("number and surroundings", x.component_id_ == 3 && x.structure_ == b && x.dynamics_ == d); vc_check("place of the thruster", near(x.thruster_position_b_m_, at)); V3 u = x.thrust_direction_b_; double n = norm3(dir); for (int i = 0; i < 3; i++) vc_check("direction of the thrust", vc_near(u[i], dir[i] / n) || vc_near(u[i], dir[i] * (1.0 / n)));
    vc_check("no thrust before the first update", none(x.GetOutputThrust_b_N()) && none(x.GetOutputTorque_b_Nm()) && x.duty_ == 0); vc_check("largest thrust", vc_near(x.thrust_magnitude_max_N_, most)); vc_check("error of the magnitude", noise(x.magnitude_random_noise_, sd)); vc_check("error of the direction in radians", noise(x.direction_random_noise_, radian(angle)) && vc_near(x.direction_noise_standard_deviation_rad_, radian(angle))); vc_check("dead time and lag", x.duty_delay_buffer_.size() == (size_t)(dead / step) + 1 && vc_near(x.delayed_duty_.time_constant_s_, tau) && vc_near(x.delayed_duty_.time_step_s_, step));
  };
  if (c.port) { SimpleThruster x(InitSimpleThruster(&c.clk, c.p, 3, "f", b, d)); check(x); } else { SimpleThruster x(InitSimpleThruster(&c.clk, 3, "f", b, d)); check(x); }
}
// jitter known by what it is made from
struct Made { int n; double force, torque, degree, interval, frequency, damping, band; Q4 q; bool resonance; }; static Made g_made;
void setting_file_reader::IniAccess::ReadCsvDouble(std::vector<std::vector<double>>& d, const size_t n) { double kind = 0; if (same_text(file_path_.c_str(), "force file")) kind = 1; else if (same_text(file_path_.c_str(), "torque file")) kind = 2; d.assign(1, std::vector<double>(2, 0.0)); d[0][0] = kind; d[0][1] = (double)n; }
ReactionWheelJitter::~ReactionWheelJitter() {}
ReactionWheelJitter::ReactionWheelJitter(std::vector<std::vector<double>> f, std::vector<std::vector<double>> t, const double h, const math::Quaternion q, const double w, const double d, const double b, const bool r) { g_made.n++; g_made.force = f[0][0]; g_made.torque = t[0][0]; g_made.degree = f[0][1] == t[0][1] ? f[0][1] : -1; g_made.interval = h; g_made.q = q; g_made.frequency = w; g_made.damping = d; g_made.band = b; g_made.resonance = r; update_interval_s_ = h; }
void ReactionWheelJitter::CalcJitter(double) {}
// rotation taking one direction to another, known for the directions used below (decided in C01)
extern "C" void vc_turn(Q4* q, const V3& a, const V3& b) { double ip = dot3(a, b), c; if (ip > 0) c = 0.8; else c = 0.6; V3 x = cross3(a, b); for (int i = 0; i < 3; i++) (*q)[i] = x[i] / (2 * c); (*q)[3] = c; }
static void wheel(bool pointed) {
  no_settings(); g_made.n = 0; Common c; const char* s = "REACTION_WHEEL_2"; const char* j = "REACTION_WHEEL_JITTER_2"; common(c, s, true);
  double I = set_pos(s, "moment_of_inertia_kgm2", 1e-3, 1e-2), T = set_pos(s, "max_output_torque_Nm", 1e-3, 1e-2), rpm = set_pos(s, "max_angular_velocity_rpm", 5000, 6000), tau = set_pos(s, "time_constant_s", 0.1, 2), stop = set_pos(s, "stop_limit_angular_velocity_rad_s", 0.1, 1), w0 = set_real(s, "initial_angular_velocity_rad_s", -100, 100), w = set_pos(j, "structural_resonance_frequency_Hz", 100, 500), damping = set_pos(j, "damping_factor", 0.1, 0.2), band = set_pos(j, "bandwidth", 1e-3, 1e-2), dead = 0, step = 0.25; vc_assume(w0 <= rpm * (2 * M_PI / 60) && w0 >= -rpm * (2 * M_PI / 60)); long k = vc_int("dead time", 0, 1); if (k == 1) dead = 9.1; set_value(s, "dead_time_s", dead); V3 at = set_vec(s, "position_b_m"), axis; Q4 q; long way = 0; if (pointed) way = vc_int("way", 1, 2); if (way == 0) { set_text(s, "direction_determination_mode", "QUATERNION"); q = set_quat(s, "quaternion_b2c"); Setting& e = optional(s, "direction_b"); e.v[0] = 0.6; e.v[1] = 0.8; e.v[2] = 0.0; axis = spec_b2i(q, vec3(0, 0, 1)); }
  else { set_text(s, "direction_determination_mode", "DIRECTION"); Setting& o = optional(s, "quaternion_b2c"); o.v[0] = 0; o.v[1] = 1; o.v[2] = 0; o.v[3] = 0; if (way == 1) axis = vec3(0.96, 0, 0.28); else axis = vec3(0, 0.96, -0.28); Setting& e = set(s, "direction_b"); for (int i = 0; i < 3; i++) e.v[i] = axis[i]; }
  long order = 1; if (k == 1) order = 3; double f[3]; if (order == 3) set_int(s, "friction_order", 3); else set_int(s, "friction_order", 1); Setting& fr = set(s, "friction_coefficients"); for (int i = 0; i < 3; i++) { f[i] = any_real("friction", -1, 1); fr.v[i] = f[i]; }
  long fast = 1, fs = vc_int("fast prescaler", 0, 2), raw_fast = 1; if (fs == 1) raw_fast = 0; else if (fs == 2) { raw_fast = 3; fast = 3; } set_int(j, "fast_prescaler", raw_fast); bool drive = fs == 0, calc = fs != 1, log = fs == 2, resonance = way == 1; set(s, "initial_motor_drive_flag").b = drive; set(j, "jitter_calculation").b = calc; set(j, "jitter_logging").b = log; set(j, "considers_structural_resonance").b = resonance; set_int(j, "harmonics_degree", 12); set_text(j, "radial_force_harmonics_coefficient_file", "force file"); set_text(j, "radial_torque_harmonics_coefficient_file", "torque file");
  auto check = [&](const ReactionWheel& x) {
    check_common(c, x); vc_check("number", x.component_id_ == 2); vc_check("no torque of the wheel before the first update", none(x.GetOutputTorque_b_Nm()) && vc_near(x.target_acceleration_rad_s2_, 0)); vc_check("place of the wheel", near(x.position_b_m_, at)); V3 a = x.rotation_axis_b_; if (way == 0) { EQ3("axis of the wheel as mounted", a, axis); } else vc_check("axis of the wheel as pointed", near(a, axis));
    vc_check("rotor", vc_near(x.rotor_inertia_kgm2_, I) && vc_near(x.max_torque_Nm_, T) && vc_near(x.max_velocity_rpm_, rpm) && vc_near(x.velocity_limit_rpm_, rpm)); double h = step * (double)c.prescaler; vc_check("dead time and lag", x.acceleration_delay_buffer_.size() == (size_t)(dead / h) + 1 && vc_near(x.delayed_acceleration_rad_s2_.time_constant_s_, tau) && vc_near(x.delayed_acceleration_rad_s2_.time_step_s_, h)); vc_check("steps of the speed", vc_near(x.ode_angular_velocity_.GetStepWidth(), h) && vc_near(x.step_width_s_, h));
    const auto& y = x.coasting_friction_coefficients_; bool same = (long)y.size() == order; if (same) for (long i = 0; i < order; i++) if (!vc_near(y[i], f[i])) same = false; vc_check("friction", same && vc_near(x.stop_limit_angular_velocity_rad_s_, stop)); vc_check("start", x.drive_flag_ == drive && vc_near(x.angular_velocity_rad_s_, w0)); vc_check("jitter switches", x.is_calculated_jitter_ == calc && x.is_logged_jitter_ == log && x.needs_fast_update_ == calc && (long)x.fast_prescaler_ == fast);
    vc_check("jitter of the given files", g_made.n == 1 && g_made.force == 1 && g_made.torque == 2 && g_made.degree == 12); vc_check("jitter interval", vc_near(g_made.interval, (double)fast * step)); vc_check("jitter mounting as the wheel", near(g_made.q, x.quaternion_b2c_)); vc_check("resonance of the jitter", vc_near(g_made.frequency, w) && vc_near(g_made.damping, damping) && vc_near(g_made.band, band) && g_made.resonance == resonance); vc_check("the wheel has that jitter", vc_near(x.rw_jitter_.update_interval_s_, (double)fast * step));
  };
  if (c.port) { ReactionWheel x(InitReactionWheel(&c.clk, c.p, 2, "f", step)); check(x); } else { ReactionWheel x(InitReactionWheel(&c.clk, 2, "f", step)); check(x); }
}
PROP(wheel_mounted) { wheel(false); }
PROP(wheel_pointed) { wheel(true); }
