// VC-SOURCES: components/base/component.cpp components/ports/power_port.cpp environment/global/clock_generator.cpp components/ideal/force_generator.cpp components/ideal/torque_generator.cpp math_physics/math/vector.cpp math_physics/math/quaternion.cpp
// VC-REPLACE: s2e::dynamics::orbit::Orbit::CalcQuaternion_i2lvlh WITH vc_lvlh
// VC-REPLACE: ~s2e::math::Vector<3ul, double>::CalcNorm\(.* WITH vc_norm
#include "vc_noise.hpp"
#include "setting_file_reader/initialize_file_access.hpp"
#include "components/ideal/force_generator.hpp"
#include "components/ideal/torque_generator.hpp"
using namespace s2e; using namespace s2e::components;
template <class T> static T* raw() { return (T*)::operator new(sizeof(T)); }
INIReader::INIReader(const std::string&) {}
namespace s2e::setting_file_reader { IniAccess::IniAccess(const std::string f) : ini_reader_(f) {} int IniAccess::ReadInt(const char*, const char*) { return 1; } double IniAccess::ReadDouble(const char*, const char*) { return 0; } }
struct AnyOrbit : dynamics::orbit::Orbit { using Orbit::Orbit; void Propagate(const double, const double) override {} };
// orbit frame known by its rotation (C06 decides it); natively a frame of a circular orbit turned by it
static Q4 g_rtn; extern "C" void vc_lvlh(Q4* r, const void*) { *r = g_rtn; }
s2e::math::Quaternion s2e::dynamics::orbit::Orbit::CalcQuaternion_i2lvlh() const { return g_rtn; }
void s2e::dynamics::orbit::Orbit::TransformEciToEcef() {} void s2e::dynamics::orbit::Orbit::TransformEcefToGeodetic() {}
std::string s2e::dynamics::orbit::Orbit::GetLogHeader() const { return ""; } std::string s2e::dynamics::orbit::Orbit::GetLogValue() const { return ""; }
// lengths: the order is len times a unit vector u; the random direction; the axis perpendicular to both
static V3 g_u, g_x, g_axis; static double g_len, g_xlen, g_sin; static bool near(const V3& v, const V3& w) { return vc_near(v[0], w[0]) && vc_near(v[1], w[1]) && vc_near(v[2], w[2]); }
static double uf3(const V3& v) { double a[3] = {v[0], v[1], v[2]}; return vc_uf("norm", 3, a); }
extern "C" double vc_norm(const V3* v) {
  if (near(*v, scale3(g_len, g_u))) return g_len; double n = uf3(*v); vc_assume(n >= 0 && n * n == (*v)[0] * (*v)[0] + (*v)[1] * (*v)[1] + (*v)[2] * (*v)[2]); return n;
}
struct Any { double sm, sd; Q4 b; environment::ClockGenerator clk; dynamics::Dynamics* d; };
static void make(Any& a) {
  a.sm = any_pos("magnitude noise", 0.01, 0.02); a.sd = any_pos("direction noise", 0.05, 0.1); a.b = any_unit_quat("attitude"); g_rtn = any_unit_quat("orbit frame"); g_u = any_unit3("direction"); g_len = any_pos("magnitude", 0.5, 2); vc_assume(g_len > 1e-9);
  a.d = raw<dynamics::Dynamics>(); auto* at = raw<dynamics::attitude::Attitude>(); at->quaternion_i2b_ = a.b; *(void**)&a.d->attitude_ = at; *(void**)&a.d->orbit_ = raw<AnyOrbit>(); g_n = 0;
}
// what was ordered, with the errors drawn for it: magnitude and direction
static void delivered(const Any& a, const V3& out) {
  vc_check("errors from noise sources of their own", g_n == 5 && g_source[0] != 0 && g_source[4] != 0 && g_source[0] != g_source[4] && g_source[1] == g_source[0] && g_source[2] == g_source[0] && g_source[3] == g_source[0]);
  V3 x = vec3(g_unit[0], g_unit[1], g_unit[2]), e; double c, s, F = g_len + a.sm * g_unit[4], half = a.sd * g_unit[3] / 2; c = std::cos(half); s = std::sin(half);
  if (vc_is_symbolic()) { double n = uf3(x); vc_assume(n > 0); V3 k = cross3(g_u, scale3(1 / n, x)); double m = uf3(k); if (m < 2.220446049250313e-16) e = g_u; else e = scale3(1 / m, k); }
  else { V3 k = cross3(g_u, x); e = scale3(1 / norm3(k), k); }
  Q4 q; for (int i = 0; i < 3; i++) q[i] = e[i] * s; q[3] = c; EQ3("ordered vector with its errors of magnitude and direction", out, scale3(F, spec_i2b(q, g_u)));
  if (!vc_is_symbolic()) { vc_eq("ordered vector with its errors of magnitude and direction", norm3(out), std::fabs(F)); vc_eq("ordered vector with its errors of magnitude and direction", dot3(out, g_u), F * std::cos(2 * half)); }
}
PROP(force) {
  Any a; make(a); ForceGenerator g(1, &a.clk, a.sm, a.sd, a.d); V3 o = scale3(g_len, g_u); g.SetForce_b_N(o); long k = vc_int("updates before", 0, 1); for (long i = 0; i < k; i++) g.MainRoutine(0); g_n = 0; g.MainRoutine((int)vc_int("time", 0, 1000000));
  V3 b = g.GetGeneratedForce_b_N(); delivered(a, b); V3 i = spec_b2i(a.b, b); EQ3("force in the inertial frame", g.GetGeneratedForce_i_N(), i); EQ3("force in the orbit frame", g.GetGeneratedForce_rtn_N(), spec_i2b(g_rtn, i));
  g.PowerOffRoutine(); EQ3("nothing without power", g.GetGeneratedForce_b_N(), vec3(0, 0, 0)); EQ3("nothing without power", g.GetGeneratedForce_i_N(), vec3(0, 0, 0)); EQ3("nothing without power", g.GetGeneratedForce_rtn_N(), vec3(0, 0, 0));
}
PROP(orders) {
  // orders given in other frames; errors only when something is ordered
  Any a; make(a); ForceGenerator g(1, &a.clk, a.sm, a.sd, a.d); V3 f = any_vec("order"); g.SetForce_i_N(f); EQ3S("order in the inertial frame", g.ordered_force_b_N_, spec_i2b(a.b, f), 1e3);
  g.SetForce_rtn_N(f); EQ3S("order in the orbit frame", g.ordered_force_b_N_, spec_i2b(a.b, spec_b2i(g_rtn, f)), 1e3);
  g_u = vec3(0, 0, 0); g_len = 0; V3 z = vec3(0, 0, 0); g.SetForce_b_N(z); g_n = 0; g.MainRoutine(0); EQ3("no errors without an order", g.GetGeneratedForce_b_N(), z); vc_check("no errors without an order", g_n == 0);
  TorqueGenerator t(1, &a.clk, a.sm, a.sd, a.d); t.SetTorque_b_Nm(z); t.MainRoutine(0); EQ3("no errors without an order", t.GetGeneratedTorque_b_Nm(), z); vc_check("no errors without an order", g_n == 0);
}
PROP(torque) {
  Any a; make(a); TorqueGenerator g(1, &a.clk, a.sm, a.sd, a.d); V3 o = scale3(g_len, g_u); g.SetTorque_b_Nm(o); long k = vc_int("updates before", 0, 1); for (long i = 0; i < k; i++) g.MainRoutine(0); g_n = 0; g.MainRoutine((int)vc_int("time", 0, 1000000));
  delivered(a, g.GetGeneratedTorque_b_Nm()); g.PowerOffRoutine(); EQ3("nothing without power", g.GetGeneratedTorque_b_Nm(), vec3(0, 0, 0));
}
