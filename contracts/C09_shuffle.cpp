// VC-SOURCES: math_physics/randomization/minimal_standard_linear_congruential_generator.cpp math_physics/randomization/minimal_standard_linear_congruential_generator_with_shuffle.cpp
// VC-REPLACE: s2e::randomization::MinimalStandardLcg::operator double() WITH vc_lcg
#include "vc_s2e.hpp"
#include "math_physics/randomization/minimal_standard_linear_congruential_generator_with_shuffle.hpp"
using namespace s2e::randomization;
static const long kM = 2147483647;
// contract of the base generator (see lcg_step)
extern "C" double vc_lcg(MinimalStandardLcg* g) { g->seed_ = (long)(16807ul * (unsigned long)g->seed_ % 2147483647ul); return (double)g->seed_ / 2147483647.0; }
// the shuffled generator: the value handed out selects the table entry to be handed out next; the used entry is renewed
PROP(shuffle_step) {
  MinimalStandardLcgWithShuffle g(1);
  long s = vc_int("state", 1, kM - 1); size_t p = 0; while (p < 31 && vc_bool("next position")) p++;
  g.minimal_lcg_.Initialize(s); g.table_position_ = p;
  double v[32]; for (int i = 0; i < 32; i++) { v[i] = vc_real_in("entry", 4e-10, 0.9999999996); g.mixing_table_[i] = v[i]; }
  double out = g;
  vc_check("the selected entry is handed out", out == v[p]);
  MinimalStandardLcg next(s); double n = next;
  vc_eq("the used entry is replaced by the next base value", g.mixing_table_[p], n);
  bool kept = true; for (size_t i = 0; i < 32; i++) if (i != p) kept = kept & (g.mixing_table_[i] == v[i]);
  vc_check("other entries are kept", kept);
  vc_check("the next entry is selected by the value handed out", g.table_position_ == (size_t)(out * 2147483647.0) % 32);
  vc_check("position stays in the table", g.table_position_ < 32);
}
PROP(shuffle_seed) {
  long s = vc_int("seed", 1, kM - 1);
  MinimalStandardLcgWithShuffle g(s), h; double t = 0; for (int i = 0; i < 3; i++) t = h;
  h.InitSeed(s);
  bool same = g.table_position_ == 0 && h.table_position_ == 0 && g.minimal_lcg_.seed_ == h.minimal_lcg_.seed_;
  for (int i = 0; i < 32; i++) { same = same & (g.mixing_table_[i] == h.mixing_table_[i]); }
  vc_check("the same seed reproduces the same generator, whatever was drawn before", same);
}
