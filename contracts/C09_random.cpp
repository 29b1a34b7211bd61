// VC-SOURCES: math_physics/randomization/minimal_standard_linear_congruential_generator.cpp math_physics/randomization/global_randomization.cpp
#include "vc_s2e.hpp"
#include "math_physics/randomization/minimal_standard_linear_congruential_generator.hpp"
#include "math_physics/randomization/global_randomization.hpp"
using namespace s2e::randomization;
static const long kM = 2147483647;
// one step of the generator is exactly the Park-Miller recurrence; the state never degenerates to zero
PROP(lcg_step) {
  long s = vc_int("seed", 1, kM - 1);
  MinimalStandardLcg g(s);
  double x = g;
  vc_check("state follows the minimal standard recurrence", g.seed_ == 16807 * s % kM);
  vc_check("state stays in the full-period range", g.seed_ >= 1 && g.seed_ < kM);
  vc_eq("output is the state as a fraction of the modulus", x * 2147483647.0, (double)g.seed_);
  vc_check("output lies strictly between zero and one", x > 0 && x < 1);
}
// every allowed initial seed, negative ones and the built-in one included, enters the full-period range with its first step
PROP(lcg_any_seed) {
  vc_option("allow-throw");
  long s = vc_int("seed", -kM + 1, kM - 1); bool again = vc_bool("by Initialize");
  MinimalStandardLcg g(again ? 1 : s);
  if (again) g.Initialize(s);
  vc_check("a generator never starts from seed zero", s != 0);
  double x = g;
  vc_check("first state is congruent to the recurrence", g.seed_ == (16807 * s % kM + kM) % kM);
  vc_check("first state lies in the full-period range", g.seed_ >= 1 && g.seed_ < kM && x > 0 && x < 1);
}
PROP(lcg_default) {
  MinimalStandardLcg g; double x = g;
  vc_check("default generator enters the full-period range", g.seed_ >= 1 && g.seed_ < kM && g.seed_ == 16807L * 0xdeadbeefL % kM && x > 0);
}
// seeds derived for the individual noise sources are never zero and always start a full-period sequence
PROP(make_seed) {
  long s = vc_int("global seed", 1, kM - 1);
  GlobalRandomization g; g.SetSeed(s);
  long a = g.MakeSeed();
  vc_check("derived seed is usable", a != 0 && (a == 0xdeadbeefL || (a > -kM && a < kM)));
  vc_check("each derived seed uses up one step of the global generator", g.base_randomizer_.seed_ == 16807 * s % kM);
  double x = (double)g.base_randomizer_.seed_ / 2147483647.0 - 0.5;   // derived seed: the fraction around one half, scaled to 32 bits
  if (a != 0xdeadbeefL) vc_check("derived seed is the global fraction scaled to 32 bits", (double)a - x * 4294967295.0 < 1.001 && x * 4294967295.0 - (double)a < 1.001);
}
