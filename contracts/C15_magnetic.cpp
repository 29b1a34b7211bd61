// VC-SOURCES: disturbances/magnetic_disturbance.cpp environment/local/geomagnetic_field.cpp simulation/spacecraft/structure/residual_magnetic_moment.cpp math_physics/math/vector.cpp math_physics/math/quaternion.cpp math_physics/randomization/global_randomization.cpp math_physics/randomization/normal_randomization.cpp math_physics/randomization/minimal_standard_linear_congruential_generator.cpp math_physics/randomization/minimal_standard_linear_congruential_generator_with_shuffle.cpp
// VC-REPLACE: s2e::randomization::NormalRand::operator double() WITH vc_normal
// VC-REPLACE: s2e::randomization::MinimalStandardLcg::operator double() WITH vc_lcg
// VC-REPLACE: ~.*s2e::math::OrdinaryDifferentialEquation<3.*>::Update\(\) WITH vc_walk
#include "vc_s2e.hpp"
#include "vc_env.hpp"
#include "disturbances/magnetic_disturbance.hpp"
#include "math_physics/randomization/random_walk.hpp"
using namespace s2e; using namespace s2e::math; using namespace s2e::environment; using namespace s2e::disturbances; using namespace s2e::randomization;
int CelestialInformation::CalcBodyIdFromName(const char* n) const { return vc_env::id_of(n); }
extern "C" int IgrfCalc(double, double, double, double, double, double*) { return 0; }
extern "C" void set_file_path(const char*) {}
extern "C" double vc_lcg(MinimalStandardLcg* g) { g->seed_ = (long)(16807ul * (unsigned long)g->seed_ % 2147483647ul); return (double)g->seed_ / 2147483647.0; }
// contracts of the noise sources (C09): any sample, and the standard deviation, mean and limit they were made with
static double g_noise[3], g_sd, g_limit; static int g_n = 0, g_walks = 0; static bool g_own = true; typedef OrdinaryDifferentialEquation<3> Ode;
extern "C" double vc_normal(NormalRand* r) { double v = any_real("noise", -10, 10); if (g_n < 3) g_noise[g_n] = v; g_n++; g_own = g_own && r->standard_deviation_ == g_sd && r->average_ == 0; return v; }
static double g_walk_sd, g_walked[3];
extern "C" void vc_walk(Ode* k) { RandomWalk<3>* w = (RandomWalk<3>*)k; g_walks++; for (int i = 0; i < 3; i++) { g_own = g_own && w->limit_[i] == g_limit && w->normal_randomizer_[i].standard_deviation_ == g_walk_sd; w->state_[i] = g_walked[i] = any_real("walked", -10, 10); } }
PROP(magnetic) {
  double sd[2], lim[2], wn[2]; V3 c[2], B[2]; spacecraft::ResidualMagneticMoment* m[2]; MagneticDisturbance* g[2];
  for (int k = 0; k < 2; k++) {
    c[k] = any_vec_in("constant moment", -1, 1); sd[k] = any_pos("walk", 0.1, 1); lim[k] = any_pos("limit", 0.1, 1); wn[k] = any_pos("noise", 0.1, 1); B[k] = any_vec_in("field", -5e4, 5e4);
    if (!vc_is_symbolic() && k) { wn[0] = 0; sd[0] = 0; }   // natively the first one is noise-free
  }
  for (int k = 0; k < 2; k++) { m[k] = new spacecraft::ResidualMagneticMoment(c[k], sd[k], lim[k], wn[k]); g[k] = new MagneticDisturbance(*m[k], true); }
  LocalEnvironment* l = (LocalEnvironment*)::operator new(sizeof(LocalEnvironment)); GeomagneticField* f = (GeomagneticField*)::operator new(sizeof(GeomagneticField)); l->geomagnetic_field_ = f;
  Vector<3> walk[2]; walk[0] = walk[1] = Vector<3>(0.0);
  for (int step = 0; step < 2; step++) for (int k = 1; k >= 0; k--) {   // two spacecraft, two steps, the second one first
    f->magnetic_field_b_nT_ = B[k]; f->magnetic_field_i_nT_ = any_vec("inertial field");
    g_n = g_walks = 0; g_own = true; g_sd = wn[k]; g_limit = lim[k]; g_walk_sd = sd[k];
    g[k]->UpdateIfEnabled(*l, *(const dynamics::Dynamics*)l);
    V3 M = g[k]->rmm_b_Am2_;
    if (vc_is_symbolic()) {
      vc_check("each spacecraft's moment fluctuates by its own noise, walk and limit", g_own && g_n == 3 && g_walks == 1);
      for (int i = 0; i < 3; i++) vc_eq("the moment is constant plus random walk plus noise", M[i], c[k][i] + walk[k][i] + g_noise[i]);
      for (int i = 0; i < 3; i++) walk[k][i] = g_walked[i];
    } else if (k == 0) EQ3("the moment is constant plus random walk plus noise", M, c[0]);
    EQ3S("magnetic torque is moment times field", g[k]->GetTorque_b_Nm(), scale3(1e-9, cross3(M, B[k])), 1e-3);
    EQ3("the magnetic disturbance acts by its torque only", g[k]->GetForce_b_N(), vec3(0, 0, 0)); vc_check("the magnetic disturbance follows the attitude", g[k]->IsAttitudeDependent());
  }
}
