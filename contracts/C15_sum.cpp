// VC-SOURCES: disturbances/disturbances.cpp math_physics/math/vector.cpp
#include "vc_s2e.hpp"
#include "vc_env.hpp"
#include "disturbances/disturbances.hpp"
#include "disturbances/disturbance.hpp"
#include "environment/global/simulation_time.hpp"
using namespace s2e; using namespace s2e::math; using namespace s2e::environment; using namespace s2e::disturbances;
static int g_updates[3]; static bool g_same = true; static const LocalEnvironment* g_l; static const dynamics::Dynamics* g_d; static V3 g_f[3], g_t[3], g_a[3];
namespace { struct Any : Disturbance {
  int k; Any(int k, bool on, bool att) : Disturbance(on, att), k(k) {}
  void Update(const LocalEnvironment& l, const dynamics::Dynamics& d) override { g_updates[k]++; g_same = g_same && &l == g_l && &d == g_d; force_b_N_ = g_f[k]; torque_b_Nm_ = g_t[k]; acceleration_i_m_s2_ = g_a[k]; }
  std::string GetLogHeader() const override { return ""; } std::string GetLogValue() const override { return ""; }
}; }
int CelestialInformation::CalcBodyIdFromName(const char* n) const { return vc_env::id_of(n); }
void Disturbances::InitializeInstances(const simulation::SimulationConfiguration*, const int, const spacecraft::Structure*, const GlobalEnvironment*) {}
PROP(total) {
  vc_assumption("three disturbances (bounded)");
  Disturbances* s = (Disturbances*)::operator new(sizeof(Disturbances)); new (&s->disturbances_list_) std::vector<Disturbance*>(); SimulationTime* t = (SimulationTime*)::operator new(sizeof(SimulationTime));
  bool orbit = vc_bool("orbit update"), att = vc_bool("attitude update"); t->orbit_update_flag_ = orbit; t->attitude_update_flag_ = att; g_l = (LocalEnvironment*)s; g_d = (dynamics::Dynamics*)t;
  s->total_force_b_N_ = any_vec("last total"); s->total_torque_b_Nm_ = any_vec("last total"); s->total_acceleration_i_m_s2_ = any_vec("last total"); g_same = true;
  bool on[3], dep[3]; V3 F = vec3(0, 0, 0), T = F, A = F;
  for (int k = 0; k < 3; k++) {
    on[k] = vc_bool("enabled"); dep[k] = vc_bool("depends on attitude"); Any* d = new Any(k, on[k], dep[k]); V3 f = any_vec("force"), q = any_vec("torque"), a = any_vec("acceleration"); d->force_b_N_ = f; d->torque_b_Nm_ = q; d->acceleration_i_m_s2_ = a; d->acceleration_b_m_s2_ = any_vec("body acceleration");
    g_f[k] = any_vec("new force"); g_t[k] = any_vec("new torque"); g_a[k] = any_vec("new acceleration"); g_updates[k] = 0; s->disturbances_list_.push_back(d);
    bool due = orbit || (att && dep[k]);   // position-only ones wait for the orbit
    V3 z = vec3(0, 0, 0); F = add3(F, !due ? f : on[k] ? g_f[k] : z); T = add3(T, !due ? q : on[k] ? g_t[k] : z); A = add3(A, !due ? a : on[k] ? g_a[k] : z);
  }
  s->Update(*g_l, *g_d, t);
  for (int k = 0; k < 3; k++) vc_check("each disturbance is recalculated exactly when its inputs have been updated", g_updates[k] == ((orbit || (att && dep[k])) && on[k] ? 1 : 0));
  vc_check("disturbances see this spacecraft's environment and motion", g_same);
  EQ3("total force is the sum over the enabled disturbances", s->GetForce_b_N(), F); EQ3("total torque is the sum over the enabled disturbances", s->GetTorque_b_Nm(), T); EQ3("total acceleration is the sum over the enabled disturbances", s->GetAcceleration_i_m_s2(), A);
}
