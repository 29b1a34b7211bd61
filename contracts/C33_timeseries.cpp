// VC-SOURCES: dynamics/orbit/time_series_file_orbit_propagation.cpp math_physics/math/interpolation.cpp math_physics/orbit/interpolation_orbit.cpp math_physics/math/vector.cpp
// VC-REPLACE: s2e::orbit::InterpolationOrbit::CalcPositionWithPolynomial WITH vc_polynomial
// VC-REPLACE: s2e::orbit::InterpolationOrbit::CalcPositionWithTrigonometric WITH vc_trigonometric
#include "vc_s2e.hpp"
#include "setting_file_reader/initialize_file_access.hpp"
#include "dynamics/orbit/time_series_file_orbit_propagation.hpp"
#include "math_physics/math/constants.hpp"
using namespace s2e; using s2e::orbit::InterpolationOrbit; using s2e::dynamics::orbit::TimeSeriesFileOrbitPropagation;
static const int M = 5; static int g_n; static double g_row[M][7], g_now, g_period; static V3 g_result[M][2]; static int g_window[2]; static bool g_wrong; static bool g_trigonometric[2]; static int g_turned;
INIReader::INIReader(const std::string&) {}
namespace s2e::setting_file_reader { IniAccess::IniAccess(const std::string f) : ini_reader_(f) {} void IniAccess::ReadCsvDoubleWithHeader(std::vector<std::vector<double>>& d, const size_t columns, const size_t rows, const size_t) { if (columns != 7 || rows != 1) g_wrong = true; d.clear(); for (int i = 0; i < M; i++) { std::vector<double> r(7); for (int k = 0; k < 7; k++) r[k] = g_row[i][k]; d.push_back(r); } } }
namespace s2e::dynamics::orbit { void Orbit::TransformEciToEcef() { if (g_turned == 0) g_turned = 1; } void Orbit::TransformEcefToGeodetic() { if (g_turned == 1) g_turned = 2; } std::string Orbit::GetLogHeader() const { return ""; } std::string Orbit::GetLogValue() const { return ""; } s2e::math::Quaternion Orbit::CalcQuaternion_i2lvlh() const { return s2e::math::Quaternion(0, 0, 0, 1); } }
// the samples an interpolation works on: consecutive rows of the file, times relative to the time asked for
static void interpolate(V3* out, const InterpolationOrbit* o, double t, bool trigonometric, double rate) {
  std::vector<double> l = o->GetTimeList(); if (l.size() != (size_t)g_n) g_wrong = true; if (trigonometric && !vc_near(rate, math::tau / g_period)) g_wrong = true; int found = -1, what = 0; 
  for (int k = 0; k + g_n <= M; k++) for (int w = 0; w < 2; w++) { bool ok = true; for (int i = 0; i < g_n; i++) { if (!vc_near(l[i] - t, g_row[k + i][0] - g_now)) ok = false; for (int a = 0; a < 3; a++) if (!vc_near(o->GetPositionDataList(a)[i], g_row[k + i][1 + 3 * w + a])) ok = false; } if (ok) { found = k; what = w; } }
  if (found < 0) { g_wrong = true; new (out) V3(0.0); return; } g_window[what] = found; g_trigonometric[what] = trigonometric; new (out) V3(g_result[found][what]);
}
extern "C" void vc_polynomial(V3* out, const InterpolationOrbit* o, double t) { interpolate(out, o, t, false, 0); }
extern "C" void vc_trigonometric(V3* out, const InterpolationOrbit* o, double t, double rate) { interpolate(out, o, t, true, rate); }
static void check(const TimeSeriesFileOrbitPropagation& o, int method, bool now_known) {
  V3 p = o.GetPosition_i_m(), v = o.GetVelocity_i_m_s(); const double e = vc_is_symbolic() ? 0 : 1e-3;
  if (g_now < g_row[0][0] - e) { for (int a = 0; a < 3; a++) { vc_eq("before the file: the first row", p[a], g_row[0][1 + a]); vc_eq("before the file: the first row", v[a], g_row[0][4 + a]); } return; }
  if (g_now > g_row[M - 1][0] + e) { for (int a = 0; a < 3; a++) { vc_eq("after the file: the last row", p[a], g_row[M - 1][1 + a]); vc_eq("after the file: the last row", v[a], g_row[M - 1][4 + a]); } return; }
  if (vc_is_symbolic()) { vc_check("interpolated from consecutive rows of the file", !g_wrong && g_window[0] >= 0 && g_window[0] == g_window[1]); int k = g_window[0]; if (k < 0) return; vc_check("the rows surround the time", g_row[k][0] <= g_now && g_now <= g_row[k + g_n - 1][0]); vc_check("configured method", g_trigonometric[0] == (method == 1) && g_trigonometric[1] == (method == 1)); for (int a = 0; a < 3; a++) { vc_eq("interpolated position", p[a], g_result[k][0][a]); vc_eq("interpolated velocity", v[a], g_result[k][1][a]); } vc_check("turned to the Earth-fixed frame and to geodetic coordinates", g_turned == 2); return; }
  bool ok = false; for (int k = 0; k + g_n <= M; k++) { if (g_row[k][0] > g_now + e || g_row[k + g_n - 1][0] < g_now - e) continue; bool same = true; for (int a = 0; a < 6; a++) { std::vector<double> x, y; for (int i = 0; i < g_n; i++) { x.push_back(g_row[k + i][0] - g_row[0][0]); y.push_back(g_row[k + i][1 + a]); } math::Interpolation f(x, y); double q = g_now - g_row[0][0], r = method == 1 ? f.CalcTrigonometric(q, math::tau / g_period) : f.CalcPolynomial(q); if (std::fabs(r - (a < 3 ? p[a] : v[a - 3])) > 1e-2 * (1 + std::fabs(r))) same = false; } if (same) ok = true; }
  if (std::fabs(g_now - g_row[0][0]) > 2 * e && std::fabs(g_now - g_row[M - 1][0]) > 2 * e) vc_check("interpolated from consecutive rows of the file", ok);
}
static void begin(double now) { g_now = now; g_window[0] = g_window[1] = -1; g_turned = 0; }
template <int N> static void series() {
  g_n = N; g_wrong = false; double t = any_real("first time", 1e8, 2e8); for (int i = 0; i < M; i++) { g_row[i][0] = t; t += any_pos("gap", 5, 20); for (int k = 1; k < 7; k++) g_row[i][k] = any_real("sample", -100, 100); } for (int k = 0; k < M; k++) for (int w = 0; w < 2; w++) g_result[k][w] = any_vec("interpolated"); vc_assume(g_row[0][0] >= 0);
  g_period = any_pos("period", 300, 500); double now = g_row[0][0] + any_real("begin", -10, 80); int method = (int)vc_int("method", 0, 2); if (!vc_is_symbolic()) std::cout.setstate(std::ios::failbit), std::cerr.setstate(std::ios::failbit);
  begin(now); auto* o = new TimeSeriesFileOrbitPropagation(nullptr, "f", N, method, g_period, 2451545.0 + now / 86400.0); check(*o, method, true); vc_check("not propagated without request", !o->GetIsCalcEnabled()); o->SetIsCalcEnabled(true);
  now += any_pos("step", 1, 60); begin(now); o->Propagate(0, 2451545.0 + now / 86400.0); check(*o, method, true);
}
PROP(series2) { series<2>(); }
PROP(series3) { series<3>(); }
PROP(series4) { series<4>(); }
