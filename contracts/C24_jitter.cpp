// VC-SOURCES: components/real/aocs/reaction_wheel_jitter.cpp math_physics/math/vector.cpp math_physics/math/quaternion.cpp
// VC-REPLACE: ~std::random_device::random_device.* WITH vc_device
// VC-REPLACE: ~std::random_device::_M_.* WITH vc_device_value
// VC-REPLACE: ~std::random_device::~random_device.* WITH vc_device
// VC-REPLACE: ~.*std::uniform_real_distribution<double>::operator\(\).* WITH vc_phase
// VC-REPLACE: sin WITH vc_sin
// VC-REPLACE: cos WITH vc_cos
// VC-REPLACE: tan WITH vc_tan
#include "vc_s2e.hpp"
#include "components/real/aocs/reaction_wheel_jitter.hpp"
using namespace s2e; using namespace s2e::components;
extern "C" void vc_device(void*) {}
extern "C" unsigned vc_device_value(void*) { return 1; }
static int g_phases; static double g_phase[8];
extern "C" double vc_phase(void*, void*) { double p = vc_real_in("phase", 0, 2 * M_PI); if (g_phases < 8) g_phase[g_phases] = p; g_phases++; return p; }
static double uf(const char* n, double x) { double a[1] = {x}; return vc_uf(n, 1, a); }
extern "C" double vc_sin(double x) { return uf("sin", x); } extern "C" double vc_cos(double x) { return uf("cos", x); }
static double g_tan; static bool g_warp; extern "C" double vc_tan(double x) { double a[1] = {x}; return g_tan = vc_uf("tan", 1, a); }
typedef std::vector<std::vector<double>> Table;
static Table table(const char* n, int rows) { Table t; for (int i = 0; i < rows; i++) { std::vector<double> r; r.push_back(any_real("harmonic", 0.5, 5)); r.push_back(any_real(n, 0.1, 2)); t.push_back(r); } return t; }
static double S(double x) { return vc_is_symbolic() ? vc_sin(x) : std::sin(x); } static double C(double x) { return vc_is_symbolic() ? vc_cos(x) : std::cos(x); }
PROP(harmonics) {
  // every harmonic turns with the wheel from its phase, with an amplitude growing with the square of the speed
  long nf = vc_int("force harmonics", 0, 2), nt = vc_int("torque harmonics", 0, 2); int a = 0, b = 0; if (nf == 1) a = 1; if (nf == 2) a = 2; if (nt == 1) b = 1; if (nt == 2) b = 2;
  Table F = table("force", a), M = table("torque", b); double h = any_pos("interval", 0.001, 0.01); Q4 q = any_unit_quat("mounting"); g_phases = 0;
  ReactionWheelJitter j(F, M, h, q, 100, 0.1, 0.2, false); if (!vc_is_symbolic()) { for (int i = 0; i < a; i++) g_phase[i] = j.jitter_force_rotation_phase_[i]; for (int i = 0; i < b; i++) g_phase[a + i] = j.jitter_torque_rotation_phase_[i]; g_phases = a + b; }
  vc_check("a phase for every harmonic", g_phases == a + b);
  for (int k = 0; k < 3; k++) {
    double w = any_real("speed", -300, 300); V3 f = vec3(0, 0, 0), m = vec3(0, 0, 0); j.CalcJitter(w);
    for (int i = 0; i < a; i++) { g_phase[i] += F[i][0] * w * h; f[0] += F[i][1] * w * w * S(g_phase[i]); f[1] += F[i][1] * w * w * C(g_phase[i]); }
    for (int i = 0; i < b; i++) { double& p = g_phase[a + i]; p += M[i][0] * w * h; m[0] += M[i][1] * w * w * S(p); m[1] += M[i][1] * w * w * C(p); }
    EQ3S("force of the harmonics", j.GetJitterForce_c_N(), f, 1e5); EQ3S("torque of the harmonics", j.GetJitterTorque_c_Nm(), m, 1e5); EQ3S("force in the body frame", j.GetJitterForce_b_N(), spec_b2i(q, f), 1e5); EQ3S("torque in the body frame", j.GetJitterTorque_b_Nm(), spec_b2i(q, m), 1e5);
  }
}
PROP(resonance) {
  // structural resonance: bilinear transform, warped at the resonance, of (s^2 + 2 z w s + w^2) / (s^2 + 2 z b w s + w^2)
  Table F = table("force", 1), M = table("torque", 1); double h = any_pos("interval", 0.0005, 0.001), f0 = any_pos("frequency", 10, 100), z = any_pos("damping", 0.05, 0.2), bw = any_pos("bandwidth", 1, 3); Q4 q = any_unit_quat("mounting"); g_phases = 0;
  ReactionWheelJitter j(F, M, h, q, f0, z, bw, true); double T = std::tan(M_PI * f0 * h); if (vc_is_symbolic()) { T = g_tan; double x = uf("tan", 2 * M_PI * f0 * h / 2); vc_eq("warped at the resonance", T, x); }
  double W = 2 * T; double c[6] = {4 + 4 * bw * z * W + W * W, -8 + 2 * W * W, 4 - 4 * bw * z * W + W * W, 4 + 4 * z * W + W * W, -8 + 2 * W * W, 4 - 4 * z * W + W * W}; vc_assume(T > 0 && c[0] > 0);
  ReactionWheelJitter p(F, M, h, q, f0, z, bw, false); p.jitter_force_rotation_phase_ = j.jitter_force_rotation_phase_; p.jitter_torque_rotation_phase_ = j.jitter_torque_rotation_phase_;
  V3 x[3], y[3], u[3], v[3]; for (int i = 0; i < 3; i++) x[i] = y[i] = u[i] = v[i] = vec3(0, 0, 0);
  for (int k = 0; k < 3; k++) {
    double w = any_real("speed", -300, 300); p.CalcJitter(w); j.CalcJitter(w); for (int i = 2; i > 0; i--) { x[i] = x[i - 1]; y[i] = y[i - 1]; u[i] = u[i - 1]; v[i] = v[i - 1]; }
    x[0] = p.GetJitterForce_c_N(); u[0] = p.GetJitterTorque_c_Nm(); y[0] = j.GetJitterForce_c_N(); v[0] = j.GetJitterTorque_c_Nm();
    for (int i = 0; i < 3; i++) {
      vc_eqs("force through the resonance", y[0][i], (-c[1] * y[1][i] - c[2] * y[2][i] + c[3] * x[0][i] + c[4] * x[1][i] + c[5] * x[2][i]) / c[0], 1e6);
      vc_eqs("torque through the resonance", v[0][i], (-c[1] * v[1][i] - c[2] * v[2][i] + c[3] * u[0][i] + c[4] * u[1][i] + c[5] * u[2][i]) / c[0], 1e6);
    }
    EQ3S("force in the body frame", j.GetJitterForce_b_N(), spec_b2i(q, y[0]), 1e6); EQ3S("torque in the body frame", j.GetJitterTorque_b_Nm(), spec_b2i(q, v[0]), 1e6);
  }
}
