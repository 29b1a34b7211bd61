// VC-SOURCES: components/base/component.cpp components/ports/power_port.cpp environment/global/clock_generator.cpp components/real/aocs/magnetometer.cpp components/real/aocs/gyro_sensor.cpp components/real/aocs/mtq_magnetometer_interference.cpp math_physics/math/vector.cpp math_physics/math/quaternion.cpp
// VC-REPLACE: s2e::components::Sensor<3ul>::Clip WITH vc_clip
// VC-REPLACE: ~s2e::math::OrdinaryDifferentialEquation<[13].*>::operator\+\+ WITH vc_walk
#include "vc_noise.hpp"
#include "setting_file_reader/initialize_file_access.hpp"
#include "components/real/aocs/magnetometer.hpp"
#include "components/real/aocs/gyro_sensor.hpp"
#include "components/real/aocs/mtq_magnetometer_interference.hpp"
using namespace s2e; using namespace s2e::components; using s2e::math::Vector; using s2e::math::Matrix;
static int g_walks; extern "C" void* vc_walk(void* w) { g_walks++; return w; }
// within the ranges (C25_range decides the ranges)
extern "C" void vc_clip(V3* r, void*, const V3* v) { for (int i = 0; i < 3; i++) (*r)[i] = (*v)[i]; }
template <class T> static T* raw() { return (T*)::operator new(sizeof(T)); }
// settings of the interference model
static int g_degree; static double g_coef[4][9];
INIReader::INIReader(const std::string&) {}
namespace s2e::setting_file_reader {
IniAccess::IniAccess(const std::string f) : ini_reader_(f) {}
int IniAccess::ReadInt(const char*, const char*) { return g_degree; }
double IniAccess::ReadDouble(const char*, const char*) { return 0; }
void IniAccess::ReadQuaternion(const char*, const char*, math::Quaternion&) {}
template <> void IniAccess::ReadVector<9>(const char*, const char* k, math::Vector<9>& d) { int n = 0; while (k[n + 1]) n++; int g = k[n] - '0'; for (int i = 0; i < 9; i++) d[i] = g_coef[g & 3][i]; }
}
// sensor without range limits: its scale, bias, noise
struct Any { M33 S; V3 bias, sd, walk; Sensor<3>* s; };
static Any sensor() {
  bool sym = vc_is_symbolic(); Any a; a.S = any_mat("scale"); a.bias = any_vec("bias"); for (int i = 0; i < 3; i++) a.sd[i] = any_pos("white noise", 0.01 + 2 * i, 1 + 2 * i); a.walk = vec3(0, 0, 0);
  double big = 1e30; a.s = new Sensor<3>(a.S, Vector<3>(big), Vector<3>(2 * big), a.bias, a.sd, 0.1, Vector<3>(0.0), Vector<3>(1.0));
  if (sym) { a.walk = any_vec("walk"); for (int i = 0; i < 3; i++) a.s->random_walk_noise_c_.state_[i] = a.walk[i]; } return a;
}
static V3 disturbed(const Any& a, const V3& x) { V3 y = mv3(a.S, x); for (int i = 0; i < 3; i++) y[i] += a.bias[i] + a.walk[i] + a.sd[i] * unit_of(a.sd[i]); return y; }
PROP(magnetometer) {
  environment::ClockGenerator clk; Any a = sensor(); Q4 q = any_unit_quat("q"); auto* f = raw<environment::GeomagneticField>(); f->magnetic_field_b_nT_ = any_vec("field"); V3 b = f->magnetic_field_b_nT_; long k = vc_int("twice", 0, 1);
  if (!vc_is_symbolic()) k = 0;
  Magnetometer m(1, &clk, *a.s, 0, q, f); V3 x = spec_i2b(q, b);
  for (long r = 0; r <= k; r++) {
    g_n = g_walks = 0; m.MainRoutine((int)vc_int("time", 0, 1000000));
    V3 y = disturbed(a, x);
    EQ3("magnetometer reads the field in its own frame", m.GetMeasuredMagneticField_c_nT(), y);
    vc_check("a sample of noise of its own for every axis", g_n >= 3 && own_sources(0, 3));
    if (vc_is_symbolic()) vc_check("the walk makes one step per reading", g_n == 3 && g_walks == 1);
  }
}
PROP(gyro) {
  environment::ClockGenerator clk; Any a = sensor(); Q4 q = any_unit_quat("q"); auto* d = raw<dynamics::Dynamics>(); d->attitude_ = raw<dynamics::attitude::Attitude>(); d->attitude_->angular_velocity_b_rad_s_ = any_vec("rate");
  GyroSensor g(1, &clk, *a.s, 0, q, d); V3 x = spec_i2b(q, d->attitude_->angular_velocity_b_rad_s_);
  g_n = g_walks = 0; g.MainRoutine((int)vc_int("time", 0, 1000000));
  V3 y = disturbed(a, x);
  EQ3("gyroscope reads the rate in its own frame", g.GetMeasuredAngularVelocity_c_rad_s(), y);
  vc_check("a sample of noise of its own for every axis", g_n >= 3 && own_sources(0, 3));
  if (vc_is_symbolic()) vc_check("the walk makes one step per reading", g_n == 3 && g_walks == 1);
}
static V3 anyv(const char* s) { return vec3(any_real(s, -2, 2), any_real(s, -2, 2), any_real(s, -2, 2)); }
static V3 polynomial(int n, const V3& m) { V3 r = vec3(0, 0, 0); for (int g = 1; g <= n; g++) for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { double p = 1; for (int e = 0; e < g; e++) p *= m[j]; r[i] += g_coef[g][3 * i + j] * p; } return r; }
static void interference(int n) {
  environment::ClockGenerator clk; Any a = sensor(); auto* f = raw<environment::GeomagneticField>(); Magnetometer m(1, &clk, *a.s, 0, Q4(0, 0, 0, 1), f); auto* t = raw<Magnetorquer>();
  for (int g = 1; g <= n; g++) for (int i = 0; i < 9; i++) g_coef[g][i] = any_real("coefficient", -1, 1);
  g_degree = n; MtqMagnetometerInterference I("f", m, *t, 0);
  V3 base = m.GetConstantBiasNoise_c_nT(); EQ3("bias as configured before the first update", base, a.bias);
  for (int k = 0; k < 3; k++) {
    t->output_magnetic_moment_c_Am2_ = anyv("moment"); if (k == 1) { V3 e = anyv("other bias"); m.AddConstantBiasNoise_c_nT(e); base = add3(base, e); }
    I.UpdateInterference(); EQ3("bias is the own one plus the polynomial of the present moment", m.GetConstantBiasNoise_c_nT(), add3(base, polynomial(n, t->output_magnetic_moment_c_Am2_)));
  }
}
PROP(interference) { vc_assumption("bounded: interference polynomials up to the third degree"); long n = vc_int("degree", 0, 3); if (n == 0) interference(0); else if (n == 1) interference(1); else if (n == 2) interference(2); else interference(3); }
