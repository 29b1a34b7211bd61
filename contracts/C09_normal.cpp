// VC-SOURCES: math_physics/randomization/normal_randomization.cpp math_physics/randomization/minimal_standard_linear_congruential_generator.cpp math_physics/randomization/minimal_standard_linear_congruential_generator_with_shuffle.cpp math_physics/randomization/global_randomization.cpp
// VC-REPLACE: s2e::randomization::MinimalStandardLcgWithShuffle::operator double() WITH vc_uniform
// VC-REPLACE: s2e::randomization::MinimalStandardLcg::operator double() WITH vc_lcg
// VC-LOOP: s2e::randomization::NormalRand::operator double WITH vc_inv_polar
#include "vc_s2e.hpp"
#include "math_physics/randomization/normal_randomization.hpp"
using namespace s2e::randomization;
static double gv_a = 0, gv_b = 0; static int gv_drawn = 0;   // ghost: the last two uniform draws
// contract of the uniform generator: any number strictly between zero and one
extern "C" double vc_uniform(MinimalStandardLcgWithShuffle*) { double u = vc_real_in("u", 0, 1); vc_assume(u > 0 && u < 1); gv_a = gv_b; gv_b = u; gv_drawn = 1; return u; }
// contract of the base generator (see lcg_step)
extern "C" double vc_lcg(MinimalStandardLcg* g) { g->seed_ = (long)(16807ul * (unsigned long)g->seed_ % 2147483647ul); return (double)g->seed_ / 2147483647.0; }
extern "C" void vc_inv_polar(const double*, int) { vc_inv((gv_drawn == 0) | (gv_drawn == 1)); }
// Box-Muller (polar form): a pair of values whose squared length is chi-squared distributed and whose direction is that of the accepted draw, scaled and shifted
PROP(normal_pair) {
  double mean = any_real("mean", -100, 100), sd = vc_real_in("sd", 0, 100);
  long seed = vc_int("seed", 1, 2147483646);
  NormalRand r(mean, sd, seed);
  if (vc_bool("parameters set later")) { r.SetParameters(1, 2); r.SetParameters(mean, sd, seed); }
  if (!vc_is_symbolic()) {   // natively: the uniform draws are reproduced from a second generator with the same seed
    MinimalStandardLcgWithShuffle u(seed);
    double a, b, q; do { a = 2 * (double)u - 1; b = 2 * (double)u - 1; q = a * a + b * b; } while (q >= 1 || q < 2.3e-16);
    gv_a = (a + 1) / 2; gv_b = (b + 1) / 2;
  }
  double y2 = r; gv_drawn = 0; double a = 2 * gv_a - 1, b = 2 * gv_b - 1, q = a * a + b * b;
  double y1 = r;
  vc_check("the draw is taken from inside the unit disc, away from its centre", q < 1 && q > 2e-16);
  double f = sqrt(-2 * log(q) / q);
  vc_eqs("first value is mean plus deviation times the second coordinate", y2, mean + sd * b * f, 1e3);
  vc_eqs("second value is mean plus deviation times the first coordinate", y1, mean + sd * a * f, 1e3);
  vc_check("second value needs no further draw", gv_drawn == 0);
  vc_check("both values are used once", r.is_empty_);
}
