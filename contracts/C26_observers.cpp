// VC-SOURCES: components/base/component.cpp components/ports/power_port.cpp environment/global/clock_generator.cpp components/ideal/orbit_observer.cpp components/ideal/attitude_observer.cpp components/ideal/angular_velocity_observer.cpp math_physics/math/vector.cpp math_physics/math/quaternion.cpp
// VC-REPLACE: s2e::components::Sensor<3ul>::Clip WITH vc_clip
// VC-REPLACE: ~s2e::math::OrdinaryDifferentialEquation<[13].*>::operator\+\+ WITH vc_walk
// VC-REPLACE: ~s2e::math::Vector<3ul, double>::CalcNorm\(.* WITH vc_norm
#include "vc_noise.hpp"
#include "setting_file_reader/initialize_file_access.hpp"
#include "components/ideal/orbit_observer.hpp"
#include "components/ideal/attitude_observer.hpp"
#include "components/ideal/angular_velocity_observer.hpp"
using namespace s2e; using namespace s2e::components; using s2e::math::Vector;
template <class T> static T* raw() { return (T*)::operator new(sizeof(T)); }
extern "C" void* vc_walk(void* w) { return w; } extern "C" void vc_clip(V3* r, void*, const V3* v) { for (int i = 0; i < 3; i++) (*r)[i] = (*v)[i]; }
INIReader::INIReader(const std::string&) {}
namespace s2e::setting_file_reader { IniAccess::IniAccess(const std::string f) : ini_reader_(f) {} int IniAccess::ReadInt(const char*, const char*) { return 1; } double IniAccess::ReadDouble(const char*, const char*) { return 0; } std::string IniAccess::ReadString(const char*, const char*) { return ""; } }
struct AnyOrbit : dynamics::orbit::Orbit { using Orbit::Orbit; void Propagate(const double, const double) override {} };
struct AnyAttitude : dynamics::attitude::Attitude { using Attitude::Attitude; void Propagate(const double) override {} };
static Q4 g_rtn; s2e::math::Quaternion s2e::dynamics::orbit::Orbit::CalcQuaternion_i2lvlh() const { return g_rtn; }
void s2e::dynamics::orbit::Orbit::TransformEciToEcef() {} void s2e::dynamics::orbit::Orbit::TransformEcefToGeodetic() {}
std::string s2e::dynamics::orbit::Orbit::GetLogHeader() const { return ""; } std::string s2e::dynamics::orbit::Orbit::GetLogValue() const { return ""; }
static double uf3(const V3& v) { double a[3] = {v[0], v[1], v[2]}; return vc_uf("norm", 3, a); }
extern "C" double vc_norm(const V3* v) { double n = uf3(*v); vc_assume(n > 0); return n; }
PROP(orbit) {
  // six errors of their own, in the frame configured, anew in every step
  environment::ClockGenerator clk; auto* o = raw<AnyOrbit>(); g_rtn = any_unit_quat("orbit frame"); Vector<6> sd; for (int i = 0; i < 6; i++) sd[i] = any_pos("deviation", 0.01 + 2 * i, 1 + 2 * i); bool rtn = vc_int("frame", 0, 1) == 1; g_n = 0;
  OrbitObserver ob(1, &clk, rtn ? NoiseFrame::kRtn : NoiseFrame::kInertial, sd, *o);
  for (int k = 0; k < 2; k++) {
    V3 r = o->spacecraft_position_i_m_ = any_vec("position"), v = o->spacecraft_velocity_i_m_s_ = any_vec("velocity"); g_n = 0; ob.MainRoutine((int)vc_int("time", 0, 1000000)); V3 a, b; for (int i = 0; i < 3; i++) { a[i] = sd[i] * unit_of(sd[i]); b[i] = sd[i + 3] * unit_of(sd[i + 3]); }
    vc_check("six noise sources of their own", g_n == 6 && own_sources(0, 6)); if (rtn) { a = spec_b2i(g_rtn, a); b = spec_b2i(g_rtn, b); }
    EQ3S("observed position", ob.GetPosition_i_m(), add3(r, a), 1e3); EQ3S("observed velocity", ob.GetVelocity_i_m_s(), add3(v, b), 1e3);
  }
  vc_check("frame of the errors by its name", SetNoiseFrame("INERTIAL") == NoiseFrame::kInertial && SetNoiseFrame("RTN") == NoiseFrame::kRtn);
}
PROP(attitude) {
  environment::ClockGenerator clk; auto* t = raw<AnyAttitude>(); double sd = any_pos("deviation", 0.05, 0.1); g_n = 0; AttitudeObserver ob(1, &clk, sd, *t);
  for (int k = 0; k < 2; k++) {
    Q4 q = t->quaternion_i2b_ = any_unit_quat("attitude"); g_n = 0; ob.MainRoutine((int)vc_int("time", 0, 1000000)); vc_check("angle and direction of the error from sources of their own", g_n == 4 && g_source[0] != 0 && g_source[3] != 0 && g_source[3] != g_source[0] && g_source[1] == g_source[0] && g_source[2] == g_source[0]);
    V3 x = vec3(g_unit[0], g_unit[1], g_unit[2]); double n = norm3(x), half = sd * g_unit[3] / 2; if (vc_is_symbolic()) n = uf3(x); Q4 e; for (int i = 0; i < 3; i++) e[i] = x[i] / n * std::sin(half); e[3] = std::cos(half);
    EQ4("observed attitude is turned by the error", ob.GetQuaternion_i2b(), spec_mul(e, q));
  }
}
PROP(rate) {
  environment::ClockGenerator clk; auto* t = raw<AnyAttitude>(); M33 S = any_mat("scale"); V3 bias = any_vec("bias"), sd; for (int i = 0; i < 3; i++) sd[i] = any_pos("deviation", 0.01 + 2 * i, 1 + 2 * i); double big = 1e30; Sensor<3> base(S, Vector<3>(big), Vector<3>(2 * big), bias, sd, 0.1, Vector<3>(0.0), Vector<3>(1.0));
  AngularVelocityObserver ob(1, &clk, base, *t);
  for (int k = 0; k < 2; k++) { V3 w = t->angular_velocity_b_rad_s_ = any_vec("rate"); g_n = 0; ob.MainRoutine((int)vc_int("time", 0, 1000000)); V3 y = mv3(S, w); for (int i = 0; i < 3; i++) y[i] += bias[i] + sd[i] * unit_of(sd[i]); EQ3S("observed rate", ob.GetAngularVelocity_b_rad_s(), y, 1e3); vc_check("a source of noise of its own for every axis", g_n >= 3 && own_sources(0, 3)); }
}
