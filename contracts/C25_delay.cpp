// VC-SOURCES: components/base/component.cpp components/ports/power_port.cpp environment/global/clock_generator.cpp components/real/aocs/star_sensor.cpp math_physics/math/vector.cpp math_physics/math/quaternion.cpp
// VC-REPLACE: s2e::components::StarSensor::AllJudgement WITH vc_judge
#include "vc_noise.hpp"
#include "vc_env.hpp"
#include "setting_file_reader/initialize_file_access.hpp"
#include "components/real/aocs/star_sensor.hpp"
using namespace s2e; using namespace s2e::components;
template <class T> static T* raw() { return (T*)::operator new(sizeof(T)); }
extern "C" void vc_judge() {}   // decided by C25_star
namespace s2e::environment { V3 LocalCelestialInformation::GetPositionFromSpacecraft_b_m(const char*) const { return vec3(0, 0, 1e9); } }
static dynamics::Dynamics* g_dynamics; static environment::LocalEnvironment* g_env;
static void world() { g_dynamics = raw<dynamics::Dynamics>(); g_dynamics->attitude_ = raw<dynamics::attitude::Attitude>(); g_dynamics->attitude_->angular_velocity_b_rad_s_ = vec3(0, 0, 0); g_env = raw<environment::LocalEnvironment>(); g_env->celestial_information_ = raw<environment::LocalCelestialInformation>(); }
static const double D = 0.0174532925199432957;
PROP(noise) {
  world(); environment::ClockGenerator clk; Q4 b2c = any_unit_quat("mounting"), i2b = any_unit_quat("attitude"); double so = any_pos("across", 2, 3), ss = any_pos("about", 0.01, 1);
  StarSensor s(1, &clk, 0, b2c, so, ss, 1.0, 0, 1, 30 * D, 30 * D, 30 * D, 1, g_dynamics, g_env); g_dynamics->attitude_->quaternion_i2b_ = i2b;
  vc_check("identity before the first reading", s.GetMeasuredQuaternion_i2c()[3] == 1 && s.GetMeasuredQuaternion_i2c()[0] == 0 && s.GetMeasuredQuaternion_i2c()[1] == 0 && s.GetMeasuredQuaternion_i2c()[2] == 0);
  g_n = g_uniforms = 0; s.MainRoutine((int)vc_int("time", 0, 1000000));
  vc_check("one sample about the sight, one across it and a direction for the latter", g_n == 2 && own_sources(0, 2) && g_uniforms == 1);
  double a = ss * unit_of(ss) * 0.5, t = math::tau * g_uniform, b = so * unit_of(so) * 0.5;
  Q4 about(sin(a), 0, 0, cos(a)), across(0, cos(t) * sin(b), sin(t) * sin(b), cos(b));
  EQ4("true attitude of the sensor turned about the sight and about a random axis across it", s.GetMeasuredQuaternion_i2c(), spec_mul(spec_mul(spec_mul(i2b, b2c), about), across));
}
static bool same4(const Q4& a, const Q4& b) { for (int i = 0; i < 4; i++) { double e = a[i] - b[i]; if (e > 1e-9 || e < -1e-9) return false; } return true; }
// noise-free sensor: a reading for every interval, as old as the delay
static void delay(double step, unsigned D_, unsigned N, int steps) {
  world(); environment::ClockGenerator clk; StarSensor s(1, &clk, 0, Q4(0, 0, 0, 1), 0, 0, step, D_, N, 30 * D, 30 * D, 30 * D, 1, g_dynamics, g_env); g_quiet = true;
  static Q4 h[200]; Q4 last(0, 0, 0, 1);
  for (int k = 0; k < steps; k++) {
    h[k] = any_unit_quat("attitude"); g_dynamics->attitude_->quaternion_i2b_ = h[k]; s.MainRoutine(k);
    if (k % (int)N == 0) { if (k >= (int)D_) last = h[k - (int)D_]; else last = Q4(0, 0, 0, 1); }
    EQ4("reading as old as the delay, renewed once per interval", s.GetMeasuredQuaternion_i2c(), last);
  }
}
PROP(delay) {
  vc_assumption("star sensor delays of 0..7 samples and output intervals of 1..3 samples at seven step widths (bounded), histories over more than two turns of the delay buffer");
  switch (vc_int("configuration", 0, 9)) {
    case 0: delay(1, 1, 1, 12); break;
    case 1: delay(1, 2, 1, 16); break;
    case 2: delay(0.1, 1, 1, 60); break;
    case 3: delay(0.3, 2, 2, 40); break;
    case 4: delay(10, 1, 1, 12); break;
    case 5: delay(5, 3, 1, 20); break;
    case 6: delay(0.5, 0, 1, 8); break;
    case 7: delay(0.2, 3, 3, 100); break;
    case 8: delay(2, 7, 2, 40); break;
    default: delay(0.7, 5, 1, 50); break;
  }
}
