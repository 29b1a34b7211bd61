// VC-SOURCES: math_physics/math/interpolation.cpp math_physics/orbit/interpolation_orbit.cpp math_physics/math/vector.cpp
#include "vc_s2e.hpp"
#include "math_physics/math/interpolation.hpp"
#include "math_physics/orbit/interpolation_orbit.hpp"
using namespace s2e; using math::Interpolation;
template <int N> static void samples() {
  std::vector<double> x, y; double t = any_real("first", -10, 10); for (int i = 0; i < N; i++) { x.push_back(t); y.push_back(any_real("sample", -5, 5)); t += any_pos("gap", 0.1, 2); } Interpolation f(x, y);
  // the nearest sample
  double q = any_real("time", -12, 20); size_t k = f.FindNearestPoint(q); double d = std::fabs(q - x[k]); vc_check("index of a sample", k < N); for (int i = 0; i < N; i++) vc_check("nearest sample", d <= std::fabs(q - x[i]) + 1e-12);
}
template <int N> static void at_sample() {
  std::vector<double> x, y; double t = any_real("first", -10, 10); for (int i = 0; i < N; i++) { x.push_back(t); y.push_back(any_real("sample", -5, 5)); t += any_pos("gap", 0.1, 2); } Interpolation f(x, y); long k = vc_int("index", 0, N - 1);
  vc_eq("passes through every sample", f.CalcPolynomial(x[k]), y[k]);
}
template <int N> static void trigonometric_at_sample() {
  std::vector<double> x, y; double t = any_real("first", -10, 10), w = any_pos("rate", 0.05, 0.2); for (int i = 0; i < N; i++) { x.push_back(t); y.push_back(any_real("sample", -5, 5)); t += any_pos("gap", 0.1, 2); } for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) if (i != j) vc_assume(std::sin(w * (x[i] - x[j]) / 2.0) != 0);
  Interpolation f(x, y); long k = vc_int("index", 0, N - 1); vc_eq("passes through every sample", f.CalcTrigonometric(x[k], w), y[k]);
}
PROP(nearest2) { samples<2>(); }
PROP(nearest3) { samples<3>(); }
PROP(nearest4) { samples<4>(); }
PROP(at2) { at_sample<2>(); }
PROP(at4) { at_sample<4>(); }
PROP(turn2) { trigonometric_at_sample<2>(); }
PROP(turn3) { trigonometric_at_sample<3>(); }
PROP(turn4) { trigonometric_at_sample<4>(); }
PROP(window) {
  // the window always holds the last samples in strictly increasing order of time, on all three axes alike
  const int N = 3; orbit::InterpolationOrbit o(N); vc_check("degree", o.GetDegree() == N); double T[3 + N] = {-1, -1, -1}; V3 P[3 + N]; for (int i = 0; i < N; i++) P[i] = vec3(0, 0, 0); int n = N;
  for (int s = 0; s < 3; s++) {
    double t = any_real("time of the sample", -2, 6); V3 p = any_vec("position of the sample"); bool later = t > T[n - 1]; bool r = o.PushAndPopData(t, p); vc_check("only later samples taken", r == later); if (later) { T[n] = t; P[n] = p; n++; }
    std::vector<double> l = o.GetTimeList(); vc_check("size of the window", l.size() == N); bool ok = true; for (int i = 0; i < N; i++) { if (l[i] != T[n - N + i]) ok = false; for (int a = 0; a < 3; a++) { if (o.GetPositionDataList(a)[i] != P[n - N + i][a]) ok = false; } } vc_check("last samples, oldest first", ok);
  }
}
PROP(axes) {
  const int N = 3; orbit::InterpolationOrbit o(N); std::vector<double> x, y[3]; double t = any_real("first", 0, 10); vc_assume(t > -1); for (int i = 0; i < N; i++) { V3 p = any_vec("position"); o.PushAndPopData(t, p); x.push_back(t); for (int a = 0; a < 3; a++) y[a].push_back(p[a]); t += any_pos("gap", 0.1, 2); }
  double q = any_real("time", 0, 20), w = any_pos("rate", 0.05, 0.2); long e = vc_int("method", 0, 1); for (int a = 0; a < 3; a++) { Interpolation f(x, y[a]); if (e == 0) vc_eq("polynomial on each axis", o.CalcPositionWithPolynomial(q)[a], f.CalcPolynomial(q)); else vc_eq("trigonometric on each axis", o.CalcPositionWithTrigonometric(q, w)[a], f.CalcTrigonometric(q, w)); }
}
