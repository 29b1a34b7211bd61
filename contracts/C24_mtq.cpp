// VC-SOURCES: components/base/component.cpp components/ports/power_port.cpp environment/global/clock_generator.cpp components/real/aocs/magnetorquer.cpp math_physics/math/vector.cpp math_physics/math/quaternion.cpp
// VC-REPLACE: ~s2e::math::OrdinaryDifferentialEquation<[13].*>::operator\+\+ WITH vc_walk
#include "vc_noise.hpp"
#include "setting_file_reader/initialize_file_access.hpp"
#include "components/real/aocs/magnetorquer.hpp"
using namespace s2e; using namespace s2e::components;
static int g_walks; extern "C" void* vc_walk(void* w) { g_walks++; return w; }
template <class T> static T* raw() { return (T*)::operator new(sizeof(T)); }
INIReader::INIReader(const std::string&) {}
namespace s2e::setting_file_reader { IniAccess::IniAccess(const std::string f) : ini_reader_(f) {} int IniAccess::ReadInt(const char*, const char*) { return 1; } double IniAccess::ReadDouble(const char*, const char*) { return 0; } void IniAccess::ReadQuaternion(const char*, const char*, math::Quaternion&) {} }
// magnetorquer with scale, bias, random walk and noise; its geomagnetic field
struct Any { M33 S; V3 hi, lo, bias, sd, walk, b; Q4 q; environment::ClockGenerator clk; environment::GeomagneticField* f; Magnetorquer* m; };
static void make(Any& a) {
  a.S = any_mat("scale"); a.bias = any_vec("bias"); a.q = any_unit_quat("mounting"); a.walk = vec3(0, 0, 0);
  for (int i = 0; i < 3; i++) { a.sd[i] = any_pos("white noise", 0.01 + 2 * i, 1 + 2 * i); a.lo[i] = any_real("lower limit", -5, -1); a.hi[i] = any_real("upper limit", 1, 5); vc_assume(a.lo[i] < a.hi[i]); }
  a.f = raw<environment::GeomagneticField>(); a.f->magnetic_field_b_nT_ = a.b = any_vec("field"); g_n = 0;
  bool ported = vc_is_symbolic() ? vc_int("power port", 0, 1) == 1 : false;
  if (ported) a.m = new Magnetorquer(1, &a.clk, raw<PowerPort>(), 0, a.q, a.S, a.hi, a.lo, a.bias, 0.1, vec3(0, 0, 0), vec3(1, 1, 1), a.sd, a.f);
  else a.m = new Magnetorquer(1, &a.clk, 0, a.q, a.S, a.hi, a.lo, a.bias, 0.1, vec3(0, 0, 0), vec3(1, 1, 1), a.sd, a.f);
  if (vc_is_symbolic()) { a.walk = any_vec("walk"); for (int i = 0; i < 3; i++) a.m->random_walk_c_Am2_.state_[i] = a.walk[i]; }
}
static void updated(Any& a, const V3& c) {
  g_n = g_walks = 0; a.m->MainRoutine((int)vc_int("time", 0, 1000000));
  V3 x; for (int i = 0; i < 3; i++) x[i] = c[i] + a.bias[i] + a.walk[i] + a.sd[i] * unit_of(a.sd[i]);
  V3 y = mv3(a.S, x), yb = spec_b2i(a.q, y);
  EQ3("moment is the command with the errors of this step", a.m->GetOutputMagneticMoment_c_Am2(), y); EQ3("moment in the body frame", a.m->SetOutputMagneticMoment_b_Am2(), yb);
  EQ3S("torque of the moment in the geomagnetic field", a.m->GetOutputTorque_b_Nm(), scale3(1e-9, cross3(yb, a.b)), 1e-3);
  vc_check("a sample of noise of its own for every axis", g_n >= 3 && own_sources(0, 3)); vc_check("random walk advances once a step", g_walks == 1 || !vc_is_symbolic());
}
PROP(steps) {
  // commands within the limits; the command stays until the next one
  Any a; make(a); V3 c; for (int i = 0; i < 3; i++) { c[i] = any_real("command", -0.9, 0.9); vc_assume(c[i] <= a.hi[i] && c[i] >= a.lo[i]); }
  a.m->SetOutputMagneticMoment_c_Am2(c); for (int k = 0; k < 3; k++) { if (k == 2) { for (int i = 0; i < 3; i++) { c[i] = any_real("next command", -0.9, 0.9); vc_assume(c[i] <= a.hi[i] && c[i] >= a.lo[i]); } a.m->SetOutputMagneticMoment_c_Am2(c); } updated(a, c); }
  a.m->PowerOffRoutine(); EQ3("no torque without power", a.m->GetOutputTorque_b_Nm(), vec3(0, 0, 0)); EQ3("no moment without power", a.m->GetOutputMagneticMoment_c_Am2(), vec3(0, 0, 0)); EQ3("no moment without power", a.m->SetOutputMagneticMoment_b_Am2(), vec3(0, 0, 0));
}
PROP(limits) {
  Any a; make(a); V3 c = vec3(any_real("command", -10, 10), any_real("command", -10, 10), any_real("command", -10, 10)); a.m->SetOutputMagneticMoment_c_Am2(c);
  for (int i = 0; i < 3; i++) { if (c[i] > a.hi[i]) c[i] = a.hi[i]; else if (c[i] < a.lo[i]) c[i] = a.lo[i]; }
  updated(a, c);
}
