// VC-SOURCES: components/base/component.cpp components/ports/power_port.cpp environment/global/clock_generator.cpp components/real/aocs/sun_sensor.cpp math_physics/math/vector.cpp math_physics/math/quaternion.cpp
// VC-REPLACE: s2e::math::Quaternion::FrameConversion WITH vc_turn
// VC-REPLACE: ~s2e::math::Vector<3ul, double>::CalcNorm\(.* WITH vc_norm
// VC-REPLACE: acos WITH vc_acos
// VC-REPLACE: cos WITH vc_cos
// VC-REPLACE: atan2 WITH vc_atan2
// VC-REPLACE: tan WITH vc_tan
#include "vc_noise.hpp"
#include "setting_file_reader/initialize_file_access.hpp"
#include "components/real/aocs/sun_sensor.hpp"
using namespace s2e; using namespace s2e::components;
template <class T> static T* raw() { return (T*)::operator new(sizeof(T)); }
static V3 g_sun, g_dir; static double g_dist, g_angle, g_alpha, g_beta, g_norm; static int g_look; static bool g_name = true;
namespace s2e::environment { V3 LocalCelestialInformation::GetPositionFromSpacecraft_b_m(const char* n) const { g_look++; g_name = g_name && n[0] == 'S' && n[1] == 'U' && n[2] == 'N' && n[3] == 0; return g_sun; } }
// the direction of the Sun in the frame of the sensor (C02 decides the turning), its length and its angles
static Q4 g_mount; static bool is(const V3& v, const V3& w) { double a[3] = {v[0], v[1], v[2]}, b[3] = {w[0], w[1], w[2]}; return vc_same(a, b, 3); }
extern "C" void vc_turn(V3* r, const Q4* q, const V3* v) { vc_check("direction turned into the frame of the sensor", (*q)[0] == g_mount[0] && (*q)[1] == g_mount[1] && (*q)[2] == g_mount[2] && (*q)[3] == g_mount[3]); EQ3("direction of the Sun", *v, scale3(1 / g_dist, g_sun)); *r = g_dir; }
extern "C" double vc_norm(const V3* v) { if (is(*v, g_sun)) return g_dist; if (is(*v, g_dir)) return 1; double a[3] = {(*v)[0], (*v)[1], (*v)[2]}; g_norm = vc_uf("norm", 3, a); vc_assume(g_norm > 0); return g_norm; }
extern "C" double vc_acos(double x) { vc_eq("angle from the sight of the sensor", x, g_dir[2]); return g_angle; }
extern "C" double vc_cos(double x) { if (vc_near(x, g_angle)) return g_dir[2]; vc_check("illuminance is the flux on the surface, none from behind", false); return 0; }
extern "C" double vc_atan2(double y, double x) {
  vc_eq("angles of the direction in the two planes", x, g_dir[2]); double a[1] = {y};
  if (vc_same(a, &g_dir[0], 1)) return g_alpha; if (vc_same(a, &g_dir[1], 1)) return g_beta;
  vc_check("angles of the direction in the two planes", false); return 0;
}
static double tangent(double x) { if (!vc_is_symbolic()) return std::tan(x); double a[1] = {x}; return vc_uf("tan", 1, a); }
extern "C" double vc_tan(double x) { double a[1] = {x}; return vc_uf("tan", 1, a); }
static double fold(double x) { if (x > M_PI / 2) return M_PI - x; if (x < -M_PI / 2) return -M_PI - x; return x; }
static double sqrt3(double a, double b, double c) { if (!vc_is_symbolic()) return std::sqrt(a * a + b * b + c * c); double x[3] = {a, b, c}; return vc_uf("norm", 3, x); }
PROP(sun) {
  bool sym = vc_is_symbolic(); environment::ClockGenerator clk; g_mount = any_unit_quat("mounting"); V3 dir; double det = any_real("field of view", 0.1, 2), sr = any_pos("white noise", 0.01, 0.1), sb = any_pos("bias noise", 0.2, 0.3), thr = any_real("threshold", 0, 100), P = any_pos("pressure", 4e-6, 5e-6), sh = vc_real_in("shadow", 0, 1), S0 = any_pos("solar constant", 1300, 1400);
  auto* env = raw<environment::SolarRadiationPressureEnvironment>(); env->solar_radiation_pressure_N_m2_ = P; env->shadow_coefficient_ = sh; env->solar_constant_W_m2_ = S0;
  g_n = 0; SunSensor s(1, &clk, 0, g_mount, det, sr, sb, thr, env, (environment::LocalCelestialInformation*)&clk);
  vc_check("a bias of its own for both angles", g_n == 2 && g_source[0] != 0 && g_source[1] != 0); double b[2];
  for (int i = 0; i < 2; i++) b[i] = sb * g_unit[i];
  bool detected = false;
  for (int k = 0; k < 2; k++) {
    double angle, al, be; V3 u = any_unit3("sun"); double d = any_pos("distance", 1e10, 2e11);
    if (sym) { g_sun = any_vec("sun position"); g_dir = dir = u; g_dist = d; g_angle = angle = vc_real_in("angle", 0, M_PI); vc_assume((angle > M_PI / 2) == (dir[2] < 0)); g_alpha = al = vc_real_in("alpha", -M_PI, M_PI); g_beta = be = vc_real_in("beta", -M_PI, M_PI); }
    else { dir = spec_i2b(g_mount, u); g_sun = scale3(d, u); angle = std::acos(std::max(-1.0, std::min(1.0, dir[2]))); al = std::atan2(dir[0], dir[2]); be = std::atan2(dir[1], dir[2]); }
    g_n = g_look = 0; s.MainRoutine((int)vc_int("time", 0, 1000000)); vc_check("the Sun is looked for", g_name && g_look > 0);
    double lit = P * 299792458.0 * sh * dir[2]; if (angle > M_PI / 2) lit = 0;
    vc_eqs("illuminance is the flux on the surface, none from behind", s.GetSolarIlluminance_W_m2(), lit, 2000);
    double low = thr / 100.0 * S0; if (!sym && (std::fabs(lit - low) < 1e-6 || std::fabs(angle - det) < 1e-9)) return;
    detected = lit >= low && angle < det; vc_check("detected when inside the field of view with enough light now", s.GetSunDetectedFlag() == detected);
    V3 m = s.GetMeasuredSunDirection_c();
    if (!detected) { EQ3("no direction without detection", m, vec3(0, 0, 0)); vc_check("no direction without detection", s.GetSunAngleAlpha_rad() == 0 && s.GetSunAngleBeta_rad() == 0); if (k == 0) continue; return; }
    vc_check("noise of its own for both angles", g_n == 2 && own_sources(0, 2));
    for (int i = 0; i < 2; i++) { double e = b[i] + sr * g_unit[i]; vc_assume(e < 1.5 && e > -1.5); }
    double x = fold(al + b[0] + sr * g_unit[0]), y = fold(be + b[1] + sr * g_unit[1]);
    vc_eq("measured angle in the first plane", s.GetSunAngleAlpha_rad(), x); vc_eq("measured angle in the second plane", s.GetSunAngleBeta_rad(), y);
    double tx = tangent(x), ty = tangent(y), n = sqrt3(tx, ty, 1); EQ3("measured direction has the measured angles and length one", m, vec3(tx / n, ty / n, 1 / n)); return;
  }
}
