// VC-SOURCES: math_physics/math/interpolation.cpp math_physics/orbit/interpolation_orbit.cpp math_physics/math/vector.cpp
// VC-REPLACE: s2e::math::Interpolation::FindNearestPoint WITH vc_nearest
// VC-REPLACE: sin WITH vc_sin
#include "vc_s2e.hpp"
#include "math_physics/math/interpolation.hpp"
#include "math_physics/orbit/interpolation_orbit.hpp"
using namespace s2e; using math::Interpolation;
// The sample taken as the nearest one must not matter for what a polynomial (or a trigonometric polynomial) gives: any sample
static long g_nearest;
extern "C" unsigned long vc_nearest(const Interpolation*, double) { return (unsigned long)g_nearest; }
// half angles: times and the period enter as the sine and cosine of half the angle, sin(a - b) = sin a cos b - cos a sin b
static int g_count = 0; static double g_x, g_period, g_node[6], g_sx, g_cx, g_sn[6], g_cn[6]; static bool g_unknown;
extern "C" double vc_sin(double a) {
  for (int i = 0; i < g_count; i++) { if (vc_near(a, g_period * (g_x - g_node[i]) / 2)) return g_sx * g_cn[i] - g_cx * g_sn[i]; for (int j = 0; j < g_count; j++) if (vc_near(a, g_period * (g_node[i] - g_node[j]) / 2)) return g_sn[i] * g_cn[j] - g_cn[i] * g_sn[j]; } g_unknown = true; return 0;
}
static void nodes(int n) { g_count = n; double t = any_real("first", -10, 10); for (int i = 0; i < n; i++) { g_node[i] = t; t += any_pos("gap", 0.1, 2); } g_x = any_real("time", -12, 20); g_nearest = vc_int("nearest", 0, n - 1); }
template <int N> static void polynomial() {
  nodes(N); double c[N]; for (int i = 0; i < N; i++) c[i] = any_real("coefficient", -1, 1); std::vector<double> x, y; auto p = [&](double t) { double s = 0; for (int i = N - 1; i >= 0; i--) s = s * t + c[i]; return s; };
  for (int i = 0; i < N; i++) { x.push_back(g_node[i]); y.push_back(p(g_node[i])); } Interpolation f(x, y); vc_eq("polynomial through the samples", f.CalcPolynomial(g_x), p(g_x)); vc_check("samples kept", f.GetDegree() == N && f.GetIndependentVariables()[N - 1] == g_node[N - 1]);
}
PROP(polynomial2) { polynomial<2>(); }
PROP(polynomial3) { polynomial<3>(); }
PROP(polynomial4) { polynomial<4>(); }
PROP(polynomial5) { polynomial<5>(); }
// N samples of a trigonometric polynomial with M harmonics, written as a form of degree 2 M in sine and cosine of the half angle
template <int N, int M> static void trigonometric() {
  nodes(N); g_period = any_pos("rate", 0.05, 0.2); g_unknown = false; double c[2 * M + 1]; for (int i = 0; i <= 2 * M; i++) c[i] = any_real("coefficient", -1, 1); if (vc_is_symbolic()) { g_sx = any_real("sine", -1, 1); g_cx = any_real("cosine", -1, 1); for (int i = 0; i < N; i++) { g_sn[i] = any_real("sine", -1, 1); g_cn[i] = any_real("cosine", -1, 1); } for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) if (i != j) vc_assume(g_sn[i] * g_cn[j] - g_cn[i] * g_sn[j] != 0); }
  else { g_sx = std::sin(g_period * g_x / 2); g_cx = std::cos(g_period * g_x / 2); for (int i = 0; i < N; i++) { g_sn[i] = std::sin(g_period * g_node[i] / 2); g_cn[i] = std::cos(g_period * g_node[i] / 2); } }
  auto p = [&](double s, double k) { double v = 0; for (int i = 0; i <= 2 * M; i++) { double t = c[i]; for (int j = 0; j < i; j++) t *= s; for (int j = i; j < 2 * M; j++) t *= k; v += t; } return v; };
  std::vector<double> x, y; for (int i = 0; i < N; i++) { x.push_back(g_node[i]); y.push_back(p(g_sn[i], g_cn[i])); } Interpolation f(x, y); double v = f.CalcTrigonometric(g_x, g_period); vc_check("angles between times at the characteristic period", !g_unknown); vc_eq("trigonometric polynomial through the samples", v, p(g_sx, g_cx));
}
PROP(trigonometric2) { trigonometric<2, 0>(); }
PROP(trigonometric3) { trigonometric<3, 1>(); }
PROP(trigonometric4) { trigonometric<4, 1>(); }
PROP(trigonometric5) { trigonometric<5, 2>(); }
PROP(trigonometric6) { trigonometric<6, 2>(); }
