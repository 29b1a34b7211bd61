// VC-SOURCES: components/base/component.cpp components/ports/power_port.cpp environment/global/clock_generator.cpp components/real/propulsion/simple_thruster.cpp math_physics/math/vector.cpp math_physics/math/quaternion.cpp
// VC-REPLACE: s2e::control_utilities::FirstOrderLag::Update WITH vc_lag
// VC-REPLACE: s2e::math::Quaternion::FrameConversion WITH vc_turn
// VC-REPLACE: ~s2e::math::Vector<3ul, double>::CalcNorm\(.* WITH vc_norm
// VC-REPLACE: rand WITH vc_rand
#include "vc_noise.hpp"
#include "setting_file_reader/initialize_file_access.hpp"
#include "components/real/propulsion/simple_thruster.hpp"
using namespace s2e; using namespace s2e::components;
template <class T> static T* raw() { return (T*)::operator new(sizeof(T)); }
INIReader::INIReader(const std::string&) {}
namespace s2e::setting_file_reader { IniAccess::IniAccess(const std::string f) : ini_reader_(f) {} int IniAccess::ReadInt(const char*, const char*) { return 1; } double IniAccess::ReadDouble(const char*, const char*) { return 0; } }
static V3 g_u, g_e; static double g_len; static int g_turns; static bool g_axis; static Q4 g_err; static double g_in, g_out; static int g_lags;
static bool near(const V3& v, const V3& w) { return vc_near(v[0], w[0]) && vc_near(v[1], w[1]) && vc_near(v[2], w[2]); }
static bool is(const V3& v, const V3& w) { double a[3] = {v[0], v[1], v[2]}, b[3] = {w[0], w[1], w[2]}; return vc_same(a, b, 3); }
extern "C" double vc_lag(void*, double x) { g_in = x; g_lags++; return g_out; }
// the configured direction has the length g_len; the other vectors whose length is asked are unit vectors
extern "C" double vc_norm(const V3* v) { if (is(*v, scale3(g_len, g_u))) return g_len; vc_check("axes of rotations are unit vectors", near(*v, g_u) || is(*v, g_e)); return 1; }
extern "C" int vc_rand() { return (int)vc_int("random", 0, 2147483647); }
// first: some unit axis (C02: turning keeps the length); second: the error rotation
extern "C" void vc_turn(V3* r, const Q4* q, const V3* v) {
  if (g_turns++ == 0) { vc_eq("axes of rotations are unit vectors", (*v)[0] * (*v)[0] + (*v)[1] * (*v)[1] + (*v)[2] * (*v)[2], 1); *r = g_e; return; }
  g_err = *q; EQ3("error turns the configured direction", *v, g_u); *r = spec_i2b(*q, *v);
}
struct Any { double max, sd, sa; V3 at, cg; environment::ClockGenerator clk; spacecraft::Structure* s; SimpleThruster* t; };
static void make(Any& a, double dead, double h, double sa) {
  a.max = any_pos("thrust", 0.1, 2); a.sd = any_pos("thrust noise", 0.01, 0.02); a.sa = sa; a.at = any_vec("position"); a.cg = any_vec("centre of gravity"); g_u = any_unit3("direction"); g_e = any_unit3("axis"); g_len = any_pos("length of the direction", 0.5, 2); g_n = 0; g_lags = 0;
  a.s = raw<spacecraft::Structure>(); auto* k = raw<spacecraft::KinematicsParameters>(); k->center_of_gravity_b_m_ = a.cg; *(void**)&a.s->kinematics_parameters_ = k; bool ported = vc_is_symbolic() ? vc_int("power port", 0, 1) == 1 : false;
  if (ported) a.t = new SimpleThruster(1, &a.clk, raw<PowerPort>(), 0, a.at, scale3(g_len, g_u), a.max, a.sd, sa, dead, 0.0, h, a.s, nullptr);
  else a.t = new SimpleThruster(1, &a.clk, 0, a.at, scale3(g_len, g_u), a.max, a.sd, sa, dead, 0.0, h, a.s, nullptr);
}
PROP(thrust) {
  // thrust by the delayed duty; none before the dead time and after a stop
  long n = vc_int("steps of dead time", 1, 3); double dead = 0.1; if (n == 2) dead = 0.6; if (n == 3) dead = 1.2;
  Any a; make(a, dead, 0.5, 0); double asked[8];
  for (int k = 0; k < 5; k++) {
    double d = 0; if (k != 1) d = any_real("duty", 0.1, 1); vc_assume(d >= 0 && d <= 1); asked[k] = d; a.t->SetDuty(d); g_n = g_lags = 0;
    if (k == 3) { a.cg = any_vec("centre of gravity later"); ((spacecraft::KinematicsParameters*)&a.s->GetKinematicsParameters())->center_of_gravity_b_m_ = a.cg; }
    double in = k >= n ? asked[k - n] : 0.0; g_out = 0; if (k >= n) { g_out = any_real("lagged", 0.1, 1); vc_assume(g_out == 0 || g_out * a.max > 1e-9); } if (!vc_is_symbolic()) g_out = in;
    a.t->MainRoutine((int)vc_int("time", 0, 1000000));
    if (vc_is_symbolic()) { vc_check("one lag step an update", g_lags == 1); vc_eq("duty arrives after the dead time", g_in, in); }
    double F = g_out * a.max; vc_assume(F >= 0); if (g_out == 0) vc_check("no noise without thrust", g_n == 0); else { vc_check("thrust noise from a source of its own", g_n == 1 && g_source[0] != 0 && g_deviation[0] == a.sd); F += a.sd * g_unit[0]; }
    EQ3("thrust along the configured direction", a.t->GetOutputThrust_b_N(), scale3(F, g_u)); EQ3("torque about the centre of gravity", a.t->GetOutputTorque_b_Nm(), cross3(sub3(a.at, a.cg), scale3(F, g_u)));
  }
  a.t->PowerOffRoutine(); EQ3("no thrust without power", a.t->GetOutputThrust_b_N(), vec3(0, 0, 0)); EQ3("no torque without power", a.t->GetOutputTorque_b_Nm(), vec3(0, 0, 0));
}
PROP(tilt) {
  // with direction noise: turned by the sampled angle about some axis
  Any a; make(a, 0.1, 0.5, any_pos("direction noise", 0.03, 0.1)); vc_assume(a.sa > 1e-6 && a.sd != a.sa); a.t->SetDuty(1); g_out = any_real("lagged", 0.1, 1); if (!vc_is_symbolic()) g_out = 1; vc_assume(g_out * a.max > 1e-9); g_turns = 0; a.t->MainRoutine(0);
  if (!vc_is_symbolic()) { a.t->MainRoutine(0); g_n = 0; a.t->MainRoutine(0); }
  vc_check("magnitude and direction have noise sources of their own", g_n == 2 && own_sources(0, 2)); double F = g_out * a.max + a.sd * unit_of(a.sd), half = a.sa * unit_of(a.sa) / 2, c = std::cos(half), s = std::sin(half);
   if (!vc_is_symbolic()) {
    V3 f = a.t->GetOutputThrust_b_N(); vc_eq("thrust along the turned direction", norm3(f), std::fabs(F)); vc_check("error is a turn by the sampled angle", dot3(f, g_u) >= std::fabs(F) * (std::cos(2 * half) - 1e-12) && F > 0); EQ3("torque about the centre of gravity", a.t->GetOutputTorque_b_Nm(), cross3(sub3(a.at, a.cg), f)); return;
  }
  for (int i = 0; i < 3; i++) vc_eq("error is a turn by the sampled angle", g_err[i], g_e[i] * s); vc_eq("error is a turn by the sampled angle", g_err[3], c);
  EQ3("thrust along the turned direction", a.t->GetOutputThrust_b_N(), scale3(F, spec_i2b(g_err, g_u))); EQ3("torque about the centre of gravity", a.t->GetOutputTorque_b_Nm(), cross3(sub3(a.at, a.cg), a.t->GetOutputThrust_b_N()));
}
