// VC-SOURCES: math_physics/math/vector.cpp
// VC-REPLACE: ~s2e::math::OrdinaryDifferentialEquation<[13].*>::operator\+\+ WITH vc_walk
#include "vc_noise.hpp"
#include <iostream>
#include <ostream>
#include "components/base/sensor.hpp"
using namespace s2e; using namespace s2e::components; using s2e::math::Vector; using s2e::math::Matrix;
static int g_walks; extern "C" void* vc_walk(void* w) { g_walks++; return w; }
// limits in effect for the configured ones, and the reading for the disturbed value
static double pos(double x) { if (x < 0) return -x; return x; }
static void limits(double* c, double* z) { if (*c < 0 || *z < 0) { *c = pos(*c); *z = pos(*z); } if (*c > *z) *z = 2 * *c; }
static double reading(double y, double c, double z) { if (pos(y) >= z) return 0; if (y >= c) return c; if (y <= -c) return -c; return y; }
PROP(range) {
  bool sym = vc_is_symbolic(); if (!sym) std::cout.setstate(std::ios::failbit); double c = any_real("constant", -2, 2), z = any_real("zero", -2, 4), b = any_real("bias", -2, 2), s = any_real("scale", -2, 2), sd = any_pos("white noise", 0.01, 1), x = any_real("true", -2, 2), w = sym ? any_real("walk", -1, 1) : 0;
  Sensor<1> S(Matrix<1, 1>(s), Vector<1>(c), Vector<1>(z), Vector<1>(b), Vector<1>(sd), 0.1, Vector<1>(0.0), Vector<1>(1.0));
  if (sym) S.random_walk_noise_c_.state_[0] = w;
  g_n = g_walks = 0; Vector<1> y = S.Measure(Vector<1>(x)); vc_check("one sample of noise of its own", g_n >= 1 && own_sources(0, 1)); limits(&c, &z);
  double v = s * x + b + w + sd * unit_of(sd);
  vc_eq("reading is the disturbed value within the ranges", y[0], reading(v, c, z)); vc_check("reading never exceeds the larger limit", pos(y[0]) <= z);
  if (sym) vc_check("the walk makes one step per reading", g_walks == 1);
}
// every axis has limits of its own
PROP(axes) {
  bool sym = vc_is_symbolic(); if (!sym) std::cout.setstate(std::ios::failbit); double c[3], z[3]; Vector<3> C, Z, sd, b = any_vec_in("bias", -1, 1), x = any_vec_in("true", -5, 5), w = vec3(0, 0, 0); M33 I(0.0);
  for (int i = 0; i < 3; i++) { C[i] = c[i] = any_pos("constant", 0.1, 4); Z[i] = z[i] = any_pos("zero", 4, 8); vc_assume(c[i] < z[i]); sd[i] = any_pos("white noise", 0.01 + 2 * i, 1 + 2 * i); I[i][i] = 1; }
  Sensor<3> S(I, C, Z, b, sd, 0.1, Vector<3>(0.0), Vector<3>(1.0)); if (sym) for (int i = 0; i < 3; i++) S.random_walk_noise_c_.state_[i] = w[i] = any_real("walk", -1, 1);
  g_n = 0; Vector<3> y = S.Measure(x); long i = vc_int("axis", 0, 2);
  if (i == 0) vc_eq("reading is the disturbed value within the ranges", y[0], reading(x[0] + b[0] + w[0] + sd[0] * unit_of(sd[0]), c[0], z[0]));
  if (i == 1) vc_eq("reading is the disturbed value within the ranges", y[1], reading(x[1] + b[1] + w[1] + sd[1] * unit_of(sd[1]), c[1], z[1]));
  if (i == 2) vc_eq("reading is the disturbed value within the ranges", y[2], reading(x[2] + b[2] + w[2] + sd[2] * unit_of(sd[2]), c[2], z[2]));
}
