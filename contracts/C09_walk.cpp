// VC-SOURCES: math_physics/randomization/normal_randomization.cpp math_physics/randomization/minimal_standard_linear_congruential_generator.cpp math_physics/randomization/minimal_standard_linear_congruential_generator_with_shuffle.cpp math_physics/randomization/global_randomization.cpp
// VC-REPLACE: s2e::randomization::MinimalStandardLcg::operator double() WITH vc_lcg
// VC-REPLACE: s2e::randomization::NormalRand::operator double() WITH vc_normal
#include "vc_s2e.hpp"
#include "math_physics/randomization/random_walk.hpp"
using namespace s2e::randomization; using namespace s2e::math;
static double gv_noise[3]; static NormalRand* gv_source[3]; static int gv_n = 0;
extern "C" double vc_lcg(MinimalStandardLcg* g) { g->seed_ = (long)(16807ul * (unsigned long)g->seed_ % 2147483647ul); return (double)g->seed_ / 2147483647.0; }
// contract of the noise source: any real number
extern "C" double vc_normal(NormalRand* r) { double v = any_real("noise", -10, 10); if (gv_n < 3) { gv_noise[gv_n] = v; gv_source[gv_n] = r; } gv_n++; return v; }
static Vector<3> pv(const char* n, double lo, double hi) { Vector<3> v; for (int i = 0; i < 3; i++) v[i] = vc_real_in(n, lo, hi); return v; }
PROP(random_walk) {
  Vector<3> sd = pv("sd", 0.1, 10), limit = pv("limit", 0.1, 10), x = pv("x", -30, 30), rhs(0.0);
  double dt = vc_real_in("dt", 0.001, 10), t = any_real("t", -1000, 1000);
  RandomWalk<3> w(dt, sd, limit);
  vc_check("step width kept", w.GetStepWidth() == dt);
  NormalRand copy[3] = {w.normal_randomizer_[0], w.normal_randomizer_[1], w.normal_randomizer_[2]};
  w.DerivativeFunction(t, x, rhs);
  if (!vc_is_symbolic()) for (int i = 0; i < 3; i++) { gv_noise[i] = copy[i]; gv_source[i] = &w.normal_randomizer_[i]; gv_n = 3; }
  vc_check("one noise sample per axis", gv_n == 3);
  for (int i = 0; i < 3; i++) {
    vc_check("each axis has its own noise source with its own deviation and no bias", gv_source[i] == &w.normal_randomizer_[i] && w.normal_randomizer_[i].GetStandardDeviation() == sd[i] && w.normal_randomizer_[i].GetAverage() == 0);
    vc_check("inside the limits the walk follows the noise", !(x[i] <= limit[i] && x[i] >= -limit[i]) || rhs[i] == gv_noise[i]);
    vc_check("above the limit the walk only goes down", x[i] <= limit[i] || rhs[i] == -vc_abs(gv_noise[i]));
    vc_check("below the limit the walk only goes up", x[i] >= -limit[i] || rhs[i] == vc_abs(gv_noise[i]));
  }
  vc_check("axes draw from generators with different seeds", w.normal_randomizer_[0].randomizer_.minimal_lcg_.seed_ != w.normal_randomizer_[1].randomizer_.minimal_lcg_.seed_ && w.normal_randomizer_[1].randomizer_.minimal_lcg_.seed_ != w.normal_randomizer_[2].randomizer_.minimal_lcg_.seed_);
}
