// noise sources known by their seed: every object seeded by the simulator's seed generator gets a number of its own, and every draw is
// recorded with the number of its source and the unit sample it used (the generators themselves are decided by C09). Sources never
// seeded share the number 0. Define VC_NOISE_UNIFORM to the range [0, 1) for the uniform generator.
#ifndef VC_NOISE_HPP_
#define VC_NOISE_HPP_
#include "vc_s2e.hpp"
#include "math_physics/randomization/global_randomization.hpp"
#include "math_physics/randomization/normal_randomization.hpp"
static long g_seeds; static int g_n; static long g_source[64]; static double g_unit[64], g_deviation[64]; static bool g_quiet;
static double g_uniform; static int g_uniforms;
namespace s2e::randomization {
MinimalStandardLcg::MinimalStandardLcg() {} MinimalStandardLcg::MinimalStandardLcg(const long) {}
void MinimalStandardLcg::Initialize(const long) {}
MinimalStandardLcg::operator double() { return 0.5; }
MinimalStandardLcgWithShuffle::MinimalStandardLcgWithShuffle() : table_position_(0) {}
MinimalStandardLcgWithShuffle::MinimalStandardLcgWithShuffle(const long s) : table_position_((size_t)s) {}
void MinimalStandardLcgWithShuffle::InitSeed(const long s) { table_position_ = (size_t)s; }
MinimalStandardLcgWithShuffle::operator double() { g_uniforms++; return g_uniform = vc_real_in("uniform", 0, 1); }
GlobalRandomization::GlobalRandomization() {}
GlobalRandomization global_randomization;
void GlobalRandomization::SetSeed(const long) {}
long GlobalRandomization::MakeSeed() { return ++g_seeds; }
}
s2e::randomization::NormalRand::NormalRand() : average_(0.0), standard_deviation_(1.0), holder_(0.0), is_empty_(true) {}
s2e::randomization::NormalRand::NormalRand(double a, double s) : average_(a), standard_deviation_(s), holder_(0.0), is_empty_(true) {}
s2e::randomization::NormalRand::NormalRand(double a, double s, long seed) throw() : average_(a), standard_deviation_(s), randomizer_(seed), holder_(0.0), is_empty_(true) {}
s2e::randomization::NormalRand::operator double() {
  double v = g_quiet ? 0 : any_real("noise sample", -3, 3); if (g_n < 64) { g_source[g_n] = (long)randomizer_.table_position_; g_unit[g_n] = v; g_deviation[g_n] = standard_deviation_; } g_n++;
  return average_ + standard_deviation_ * v;
}
// the draws from..to-1 come from sources with seeds of their own
static bool own_sources(int from, int to) { for (int i = from; i < to; i++) { if (g_source[i] == 0) return false; for (int j = from; j < i; j++) if (g_source[i] == g_source[j]) return false; } return true; }
// the sample drawn with the given deviation (deviations are arbitrary, so they tell the sources apart)
static double unit_of(double sd) { for (int i = 0; i < g_n && i < 64; i++) if (vc_same(&g_deviation[i], &sd, 1)) return g_unit[i]; vc_check("every configured deviation is used", false); return 0; }
#endif
