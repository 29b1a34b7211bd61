// VC-SOURCES: dynamics/orbit/relative_orbit.cpp dynamics/orbit/orbit.cpp math_physics/orbit/relative_orbit_models.cpp simulation/multiple_spacecraft/relative_information.cpp math_physics/math/vector.cpp math_physics/math/quaternion.cpp math_physics/geodesy/geodetic_position.cpp math_physics/orbit/sgp4/sgp4ext.cpp
// VC-REPLACE: s2e::dynamics::orbit::Orbit::CalcQuaternion_i2lvlh WITH vc_lvlh
// VC-REPLACE: ~std::map<unsigned long const, s2e::dynamics::Dynamics const\*.*::at\(.* WITH vc_at
// VC-REPLACE: ~.*s2e::math::OrdinaryDifferentialEquation<6.*>::Update\(\) WITH vc_step
// VC-REPLACE: s2e::dynamics::orbit::Orbit::TransformEciToEcef WITH vc_ecef
// VC-REPLACE: s2e::dynamics::orbit::Orbit::TransformEcefToGeodetic WITH vc_geodetic
// VC-REPLACE: s2e::orbit::CalcHcwStm WITH vc_stm
// VC-REPLACE: s2e::orbit::CalcHillSystemMatrix WITH vc_hill
// VC-LOOP: s2e::dynamics::orbit::RelativeOrbit::PropagateRk4 WITH vc_inv_propagate
#include "vc_s2e.hpp"
#include "vc_env.hpp"
#include "dynamics/orbit/relative_orbit.hpp"
#include "math_physics/orbit/relative_orbit_models.hpp"
using namespace s2e; using namespace s2e::math; using namespace s2e::environment; using namespace s2e::dynamics; using namespace s2e::dynamics::orbit; using namespace s2e::simulation;
int CelestialInformation::CalcBodyIdFromName(const char* n) const { return vc_env::id_of(n); }
namespace { struct AnyOrbit : Orbit { using Orbit::Orbit; void Propagate(const double, const double) override {} }; }
typedef OrdinaryDifferentialEquation<6> Ode; typedef Matrix<6, 6> M66; typedef Vector<6> V6;
static const int N = 2; static const Dynamics* g_d[N]; static AnyOrbit* g_ref; static Q4 g_f; static int g_lvlh = 0, g_ecef = 0, g_geo = 0; static V3 g_r, g_v;
extern "C" const Dynamics** vc_at(void*, const size_t* id) { vc_check("the reference spacecraft is looked up", *id == 1); return &g_d[*id]; }
extern "C" void vc_lvlh(Q4* r, const Orbit* o) { if (o == g_ref) { *r = g_f; g_lvlh++; } }
extern "C" void vc_ecef(Orbit* o) { g_ecef++; g_r = o->spacecraft_position_i_m_; g_v = o->spacecraft_velocity_i_m_s_; }
extern "C" void vc_geodetic(Orbit*) { g_geo = g_ecef; }
// the two models (contracts in C14_models): some matrix for that radius, gravity constant and elapsed time
static double g_stm_r, g_stm_mu, g_stm_t, g_hill_r, g_hill_mu; static M66 g_stm, g_hill; static int g_stms = 0, g_hills = 0;
static M66 any66(const char* n) { M66 m; for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) m[i][j] = any_real(n, -1, 1); return m; }
extern "C" void vc_stm(M66* r, double R, double mu, double t) { g_stms++; g_stm_r = R; g_stm_mu = mu; g_stm_t = t; g_stm = any66("stm"); *r = g_stm; }
extern "C" void vc_hill(M66* r, double R, double mu) { g_hills++; g_hill_r = R; g_hill_mu = mu; g_hill = any66("hill"); *r = g_hill; }
// contract of one integration step (C10)
static RelativeOrbit* g_o; static double g_h, g_end, g_start, g_state[6], g_last[6]; static int gv_contiguous = 1, gv_full = 1, gv_any = 0, gv_first = 1; static double gv_t = 0, gv_dt = 0;
extern "C" void vc_step(Ode* k) {
  gv_contiguous = gv_contiguous & (k->independent_variable_ == gv_t);
  gv_full = gv_full & ((gv_any == 0) | (gv_dt == g_h));
  for (int i = 0; i < 6; i++) gv_first = gv_first & ((gv_any == 1) | (k->state_[i] == g_state[i]));
  gv_any = 1; gv_dt = k->step_width_s_; gv_t = gv_t + k->step_width_s_;
  k->independent_variable_ += k->step_width_s_;
  for (int i = 0; i < 6; i++) k->state_[i] = g_last[i] = vc_real("stepped");
}
extern "C" void vc_inv_propagate(const double*, int) {
  vc_inv(gv_contiguous == 1); vc_inv(gv_full == 1); vc_inv(gv_first == 1); vc_inv((gv_any == 0) | (gv_any == 1)); vc_inv((gv_any == 0) | (gv_dt == g_h));
  vc_inv(g_o->propagation_time_s_ == gv_t); vc_inv(((Ode*)g_o)->independent_variable_ == gv_t); vc_inv(((Ode*)g_o)->step_width_s_ == g_h); vc_inv(gv_t < g_end); vc_inv((gv_any == 1) | (gv_t == g_start));
  for (int i = 0; i < 6; i++) vc_inv((gv_any == 1) | (((Ode*)g_o)->state_[i] == g_state[i]));
}
static V3 g_rr, g_rv; static double g_R;
static void place_reference() {
  if (vc_is_symbolic()) g_f = any_unit_quat("frame");
  V3 X = any_unit3("X"); g_R = any_pos("radius", 6.8e6, 4e7); g_rr = scale3(g_R, X); g_rv = any_vec_in("reference velocity", -8e3, 8e3);
  if (!vc_is_symbolic()) { Q4 f = any_unit_quat("f"); g_rr = spec_b2i(f, vec3(g_R, 0, 0)); g_rv = spec_b2i(f, vec3(10, 7e3, 0)); }
  g_ref->spacecraft_position_i_m_ = g_rr; g_ref->spacecraft_velocity_i_m_s_ = g_rv; if (!vc_is_symbolic()) g_f = g_ref->CalcQuaternion_i2lvlh();
}
static RelativeInformation* make_info(CelestialInformation* c) {
  RelativeInformation* info = new RelativeInformation(); g_ref = new AnyOrbit(c);
  for (int i = 0; i < N; i++) { Dynamics* d = (Dynamics*)::operator new(sizeof(Dynamics)); d->orbit_ = g_ref; d->attitude_ = 0; g_d[i] = d; if (!vc_is_symbolic()) info->RegisterDynamicsInfo(i, d); }
  place_reference(); return info;
}
static CelestialInformation* env() { CelestialInformation* c = vc_env::global(); c->earth_rotation_->dcm_j2000_to_ecef_ = MakeIdentityMatrix<3>(); return c; }
static void check_inertial(RelativeOrbit& o, const V3& p, const V3& w) {
  EQ3S("position is the reference plus the relative position turned from its orbit frame", o.GetPosition_i_m(), add3(g_rr, spec_b2i(g_f, p)), 1e6); EQ3S("velocity is the reference plus the relative velocity turned from its orbit frame", o.GetVelocity_i_m_s(), add3(g_rv, spec_b2i(g_f, w)), 1e3);
  EQ3("the Earth-fixed and geodetic position follow", vc_is_symbolic() ? g_r : o.GetPosition_i_m(), o.GetPosition_i_m());
  if (vc_is_symbolic()) { vc_check("the Earth-fixed and geodetic position follow", g_ecef == 1 && g_geo == 1); EQ3("the Earth-fixed and geodetic position follow", g_v, o.GetVelocity_i_m_s()); }
}
PROP(stm) {
  CelestialInformation* c = env(); RelativeInformation* info = make_info(c); double mu = any_pos("mu", 3.9e14, 4e14), h = any_pos("h", 0.1, 20); V3 p = any_vec_in("p", -100, 100), w = any_vec_in("w", -0.1, 0.1); g_ecef = g_stms = 0;
  RelativeOrbit o(c, mu, h, 1, p, w, RelativeOrbit::kStm, s2e::orbit::RelativeOrbitModel::kHill, s2e::orbit::StmModel::kHcw, info);
  check_inertial(o, p, w); if (vc_is_symbolic()) { g_r = o.GetPosition_i_m(); g_v = o.GetVelocity_i_m_s(); }
  V3 r0 = o.GetPosition_i_m(); double t = any_real("t", 0, 1e4); bool on = vc_bool("enabled"); o.SetIsCalcEnabled(on); place_reference(); g_ecef = 0;
  for (int i = 0; i < 6; i++) vc_check("motion starts from the given relative state", o.initial_state_[i] == (i < 3 ? p[i] : w[i - 3]));
  if (vc_bool("second call")) o.Propagate(any_real("earlier", 0, 1e4), 0);   // any earlier call
  g_stms = 0; g_ecef = 0; V3 rb = o.GetPosition_i_m(); o.Propagate(t, 0);
  if (!on) { EQ3("a disabled orbit stays where it is", o.GetPosition_i_m(), r0); return; }
  M66 m = vc_is_symbolic() ? g_stm : s2e::orbit::CalcHcwStm(g_R, mu, t); V6 y; for (int i = 0; i < 6; i++) { double s = 0; for (int j = 0; j < 6; j++) s += m[i][j] * (j < 3 ? p[j] : w[j - 3]); y[i] = s; }
  if (vc_is_symbolic()) { vc_check("the transition matrix belongs to the reference orbit and the elapsed time", g_stms == 1 && g_stm_mu == mu && g_stm_t == t); vc_eq("the transition matrix belongs to the reference orbit and the elapsed time", g_stm_r, g_R); }
  check_inertial(o, vec3(y[0], y[1], y[2]), vec3(y[3], y[4], y[5]));
  for (int i = 0; i < 3; i++) { vc_eqs("relative state is the transition matrix times the initial one", o.relative_position_lvlh_m_[i], y[i], 1e3); vc_eqs("relative state is the transition matrix times the initial one", o.relative_velocity_lvlh_m_s_[i], y[i + 3], 1e3); }
}
PROP(rk4) {
  CelestialInformation* c = env(); RelativeInformation* info = make_info(c); double mu = any_pos("mu", 3.9e14, 4e14), h = any_pos("h", 0.1, 20); V3 p = any_vec_in("p", -100, 100), w = any_vec_in("w", -0.1, 0.1); g_ecef = g_hills = 0;
  RelativeOrbit o(c, mu, h, 1, p, w, RelativeOrbit::kRk4, s2e::orbit::RelativeOrbitModel::kHill, s2e::orbit::StmModel::kHcw, info); Ode* k = &o;
  check_inertial(o, p, w); if (vc_is_symbolic()) { vc_check("Hill's equations belong to the reference orbit", g_hills == 1 && g_hill_mu == mu); vc_eq("Hill's equations belong to the reference orbit", g_hill_r, g_R); }
  for (int i = 0; i < 6; i++) vc_check("motion starts from the given relative state", k->state_[i] == (i < 3 ? p[i] : w[i - 3]));
  vc_check("motion starts from the given relative state", k->independent_variable_ == 0 && o.propagation_time_s_ == 0);
  M66 A = vc_is_symbolic() ? g_hill : s2e::orbit::CalcHillSystemMatrix(g_R, mu); V6 x, d; for (int i = 0; i < 6; i++) x[i] = any_real("x", -100, 100);
  o.DerivativeFunction(any_real("any time", 0, 1e4), x, d); for (int i = 0; i < 6; i++) { double s = 0; for (int j = 0; j < 6; j++) s += A[i][j] * x[j]; vc_eqs("the state changes by Hill's equations", d[i], s, 10); }
  double t0 = any_real("t0", 0, 1e4), dt = any_pos("dt", 0.1, 100), t1 = t0 + dt; o.SetIsCalcEnabled(true); place_reference(); g_ecef = 0;
  k->independent_variable_ = o.propagation_time_s_ = t0; k->step_width_s_ = any_pos("width left by the previous call", 0.1, 20); V3 pp = any_vec_in("pp", -100, 100), ww = any_vec_in("ww", -0.1, 0.1); for (int i = 0; i < 3; i++) { k->state_[i] = g_state[i] = pp[i]; k->state_[i + 3] = g_state[i + 3] = ww[i]; }
  if (!vc_is_symbolic()) {
    Ode* b = new RelativeOrbit(o); o.Propagate(t1, 0);
    double t = t0; b->SetStepWidth(h); while (t1 - t - h > 1e-6) { b->Update(); t += h; } b->SetStepWidth(t1 - t); b->Update();
    check_inertial(o, vec3(b->state_[0], b->state_[1], b->state_[2]), vec3(b->state_[3], b->state_[4], b->state_[5])); vc_check("propagation ends exactly at the requested time", o.propagation_time_s_ == t1); return;
  }
  vc_assume(dt > 1e-5); g_o = &o; g_h = h; g_end = t1; g_start = gv_t = t0; gv_any = 0;
  vc_loop_field(&o.propagation_time_s_, 8); vc_loop_field(&k->independent_variable_, 8); vc_loop_field(&k->state_, 48); vc_loop_field(g_last, 48);
  o.Propagate(t1, 0);
  vc_check("steps are contiguous", gv_contiguous == 1); vc_check("every step but the last has the step width", gv_full == 1); vc_check("the first step starts from the current state", gv_first == 1 && gv_any == 1);
  vc_eq("steps end at the requested time", gv_t, t1); vc_check("no step runs backwards or beyond the step width", gv_dt > 0 && gv_dt <= h + 1e-6); vc_check("propagation ends exactly at the requested time", o.propagation_time_s_ == t1);
  for (int i = 0; i < 3; i++) vc_check("the new relative state comes from the integrator", o.relative_position_lvlh_m_[i] == g_last[i] && o.relative_velocity_lvlh_m_s_[i] == g_last[i + 3]);
  check_inertial(o, vec3(g_last[0], g_last[1], g_last[2]), vec3(g_last[3], g_last[4], g_last[5]));
}
