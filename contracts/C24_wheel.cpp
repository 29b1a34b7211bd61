// VC-SOURCES: components/base/component.cpp components/ports/power_port.cpp environment/global/clock_generator.cpp components/real/aocs/reaction_wheel.cpp components/real/aocs/reaction_wheel_ode.cpp math_physics/math/vector.cpp math_physics/math/quaternion.cpp
// VC-REPLACE: s2e::control_utilities::FirstOrderLag::Update WITH vc_lag
#include "vc_s2e.hpp"
#include "setting_file_reader/initialize_file_access.hpp"
#include "components/real/aocs/reaction_wheel.hpp"
using namespace s2e; using namespace s2e::components;
template <class T> static T* raw() { return (T*)::operator new(sizeof(T)); }
INIReader::INIReader(const std::string&) {}
namespace s2e::setting_file_reader { IniAccess::IniAccess(const std::string f) : ini_reader_(f) {} int IniAccess::ReadInt(const char*, const char*) { return 1; } double IniAccess::ReadDouble(const char*, const char*) { return 0; } bool IniAccess::ReadBoolean(const char*, const char*) { return false; } bool IniAccess::ReadEnable(const char*, const char*) { return false; } std::string IniAccess::ReadString(const char*, const char*) { return ""; } void IniAccess::ReadQuaternion(const char*, const char*, math::Quaternion&) {} std::vector<double> IniAccess::ReadVectorDouble(const char*, const char*, const size_t) { return {}; } void IniAccess::ReadCsvDouble(std::vector<std::vector<double>>&, const size_t) {} }
// jitter given by its outputs (C24_jitter decides them)
static int g_jitters; static double g_jitter_speed;
ReactionWheelJitter::~ReactionWheelJitter() {}
ReactionWheelJitter::ReactionWheelJitter(std::vector<std::vector<double>>, std::vector<std::vector<double>>, const double, const math::Quaternion, const double, const double, const double, const bool) {}
void ReactionWheelJitter::CalcJitter(double w) { g_jitters++; g_jitter_speed = w; jitter_force_b_N_[0] += 1.0; }
// first-order lag known by what it is given (C24_lag decides it)
static double g_in, g_out; static int g_lags;
extern "C" double vc_lag(void*, double x) { g_in = x; g_lags++; return g_out; }
struct Any { double I, T, rpm, h, w0; Q4 q; V3 axis, at; environment::ClockGenerator clk; ReactionWheelJitter jitter; std::vector<double> friction; double stop; ReactionWheel* w; };
static const double RPM = 2 * M_PI / 60;
static void make(Any& a, bool drive, double h, double dead, bool jitter = false) {
  a.I = any_pos("inertia", 1e-3, 1e-2); a.T = any_pos("limit torque", 1e-3, 2e-3); a.rpm = any_pos("limit speed", 5000, 6000); a.h = h; a.q = any_unit_quat("mounting"); a.axis = spec_b2i(a.q, vec3(0, 0, 1)); a.at = any_vec("position");
  a.w0 = any_real("speed", -300, 300); if (vc_is_symbolic()) vc_assume(a.w0 <= a.rpm * RPM && a.w0 >= -a.rpm * RPM); a.stop = any_pos("stop", 0.1, 2);
  for (int i = 0; i < 2; i++) a.friction.push_back(any_pos("friction", 1e-3, 1e-2));
  bool ported = vc_is_symbolic() ? vc_int("power port", 0, 1) == 1 : false;
  if (ported) a.w = new ReactionWheel(1, &a.clk, raw<PowerPort>(), 0, h, a.I, a.T, a.rpm, a.q, a.at, dead, 0.0, a.friction, a.stop, jitter, false, 1, a.jitter, drive, a.w0);
  else a.w = new ReactionWheel(1, &a.clk, 0, h, a.I, a.T, a.rpm, a.q, a.at, dead, 0.0, a.friction, a.stop, jitter, false, 1, a.jitter, drive, a.w0);
}
static double clamped(double T, double m) { if (T >= m) return m; if (T <= -m) return -m; return T; }
// after an update the wheel turns at w, having turned at w0
static void turned(Any& a, double w0, double w) {
  vc_eq("speed of the wheel", a.w->GetAngularVelocity_rad_s(), w); vc_eq("speed in revolutions per minute", a.w->GetAngularVelocity_rpm(), w / RPM);
  EQ3("angular momentum along the axis", a.w->GetAngularMomentum_b_Nms(), scale3(a.I * w, a.axis));
  EQ3("torque takes from the body what the wheel gains", a.w->GetOutputTorque_b_Nm(), scale3(-a.I * (w - w0) / a.h, a.axis));
}
PROP(driven) {
  // the torque asked for reaches the wheel after the dead time, limited, through the lag, whatever was asked before and after
  long n = vc_int("steps of dead time", 1, 3); double dead = 0.1; if (n == 2) dead = 0.6; if (n == 3) dead = 1.2; 
  Any a; make(a, true, 0.5, dead); EQ3("angular momentum along the axis", a.w->GetAngularMomentum_b_Nms(), scale3(a.I * a.w0, a.axis));
  double asked[8], w = a.w0; if (vc_is_symbolic()) vc_assume(a.rpm * RPM > w + 100 && a.rpm * RPM > 100 - w);
  for (int k = 0; k < 5; k++) {
    double T; if (k > 1) { T = any_real("torque", -9e-4, 9e-4); vc_assume(T < a.T && T > -a.T); if (vc_is_symbolic()) vc_assume((T > 0) == (k == 2)); } else T = any_real("torque", -4e-3, 4e-3);
    asked[k] = clamped(T, a.T) / a.I; if (k % 2) a.w->SetTargetTorque_b_Nm(-T); else a.w->SetTargetTorque_rw_Nm(T);
    g_out = any_real("lagged", -4, 4); vc_assume(g_out <= 4 && g_out >= -4); g_lags = 0; double before = w; if (!vc_is_symbolic()) g_out = k >= n ? asked[k - n] : 0;
    a.w->MainRoutine((int)vc_int("time", 0, 1000000));
    if (vc_is_symbolic()) { vc_check("one lag step an update", g_lags == 1); vc_eq("limited torque arrives after the dead time", g_in, k >= n ? asked[k - n] : 0.0); }
    w = w + g_out * a.h; turned(a, before, w);
  }
  a.w->PowerOffRoutine(); EQ3("no torque without power", a.w->GetOutputTorque_b_Nm(), vec3(0, 0, 0)); vc_eq("speed kept without power", a.w->GetAngularVelocity_rad_s(), w); vc_check("drive is off after a loss of power", !a.w->GetDriveFlag());
}
PROP(coasting) {
  Any a; make(a, true, 0.5, 0.6); if (vc_is_symbolic()) vc_assume(a.rpm * RPM > a.w0 + 100 && a.rpm * RPM > 100 - a.w0);
  double T = any_real("torque", -1e-3, 1e-3); g_out = 0; a.w->SetTargetTorque_rw_Nm(T); long driven = vc_int("updates driven", 1, 3); if (!vc_is_symbolic() && driven > 2) driven = 2; for (long k = 0; k < driven; k++) a.w->MainRoutine(0); a.w->SetDriveFlag(false); double w0 = a.w0, m = w0; if (w0 < 0) m = -w0;
  double f = a.friction[0] + a.friction[1] * m; vc_assume(f <= 20); a.w->MainRoutine((int)vc_int("time", 0, 1000000)); double w = w0 - f * a.h; if (w0 <= 0) w = w0 + f * a.h; if (m < a.stop) w = 0; turned(a, w0, w);
  // driven again: what was asked before does not come through
  a.w->SetDriveFlag(true); a.w->SetTargetTorque_rw_Nm(0); for (int k = 0; k < 3; k++) { g_in = 1; a.w->MainRoutine(0); if (vc_is_symbolic()) vc_check("torque asked before coasting is dropped", g_in == 0); if (!vc_is_symbolic()) vc_eq("torque asked before coasting is dropped", a.w->GetAngularVelocity_rad_s(), w); }
}
PROP(limit) {
  // no more than one step beyond the limit, and no acceleration outwards from there
  Any a; make(a, true, 0.5, 0.1); double L = a.rpm * RPM, l0 = any_pos("earlier speed limit", 100, 8000), l = any_pos("speed limit", 100, 8000); if (vc_int("set before", 0, 1)) a.w->SetVelocityLimit_rpm(l0); a.w->SetVelocityLimit_rpm(l); if (l < a.rpm) L = l * RPM;
  g_out = any_real("acceleration", -40, 40); if (!vc_is_symbolic()) g_out = a.T / a.I; double g = g_out, w0 = a.w0; a.w->SetTargetTorque_rw_Nm(a.T); if (!vc_is_symbolic()) a.w->acceleration_delay_buffer_[0] = g;
  a.w->MainRoutine((int)vc_int("time", 0, 1000000)); double w = a.w->GetAngularVelocity_rad_s();
  if (w0 > L && g > 0) vc_eq("no acceleration beyond the limit", w, w0);
  else if (w0 < -L && g < 0) vc_eq("no acceleration beyond the limit", w, w0);
  else if (w0 + g * a.h <= L && w0 + g * a.h >= -L) vc_eq("within the limit the wheel follows", w, w0 + g * a.h);
  else if (g > 0 && w0 <= L && w0 >= -L) vc_check("at most a step beyond the limit", w <= L + g * a.h / 2 && w >= w0);
  else if (g < 0 && w0 <= L && w0 >= -L) vc_check("at most a step beyond the limit", w >= -L + g * a.h / 2 && w <= w0);
  EQ3("torque takes from the body what the wheel gains", a.w->GetOutputTorque_b_Nm(), scale3(-a.I * (w - w0) / a.h, a.axis));
}
PROP(shaken) {
  // the jitter of a wheel is its own and acts at its place
  Any a; make(a, true, 0.5, 0.1, true); a.w->rw_jitter_.jitter_force_b_N_ = any_vec("jitter force"); a.w->rw_jitter_.jitter_torque_b_Nm_ = any_vec("jitter torque"); V3 F = a.w->rw_jitter_.jitter_force_b_N_, M = a.w->rw_jitter_.jitter_torque_b_Nm_;
  ReactionWheel other(1, &a.clk, 1, 0.5, a.I, a.T, a.rpm, a.q, a.at, 0.1, 0.0, a.friction, a.stop, true, false, 1, a.jitter, true, 0); other.FastUpdate();
  EQ3("jitter of another wheel does not matter", a.w->rw_jitter_.GetJitterForce_b_N(), F);
  EQ3("jitter acts at the place of the wheel", a.w->GetOutputTorque_b_Nm(), sub3(scale3(-1, cross3(a.at, F)), M));
  g_jitters = 0; a.w->FastUpdate(); vc_check("jitter follows the speed", g_jitters == 1 && g_jitter_speed == a.w0); vc_check("jitter follows the speed", a.w->GetNeedsFastUpdate());
}
