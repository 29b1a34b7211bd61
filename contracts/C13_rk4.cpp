// VC-SOURCES: dynamics/orbit/orbit.cpp dynamics/orbit/rk4_orbit_propagation.cpp math_physics/math/vector.cpp math_physics/math/quaternion.cpp math_physics/geodesy/geodetic_position.cpp math_physics/orbit/sgp4/sgp4ext.cpp
// VC-REPLACE: ~.*s2e::math::OrdinaryDifferentialEquation<6.*>::Update\(\) WITH vc_step
// VC-REPLACE: s2e::dynamics::orbit::Orbit::TransformEciToEcef WITH vc_ecef
// VC-REPLACE: s2e::dynamics::orbit::Orbit::TransformEcefToGeodetic WITH vc_geodetic
// VC-LOOP: s2e::dynamics::orbit::Rk4OrbitPropagation::Propagate WITH vc_inv_propagate
#include "vc_s2e.hpp"
#include "vc_env.hpp"
#include "dynamics/orbit/rk4_orbit_propagation.hpp"
using namespace s2e; using namespace s2e::math; using namespace s2e::environment; using namespace s2e::dynamics::orbit;
int CelestialInformation::CalcBodyIdFromName(const char* n) const { return vc_env::id_of(n); }
static CelestialInformation* env() { CelestialInformation* c = vc_env::global(); c->earth_rotation_->dcm_j2000_to_ecef_ = MakeIdentityMatrix<3>(); return c; }
typedef OrdinaryDifferentialEquation<6> Ode;
static Rk4OrbitPropagation* g_o; static double g_h, g_end, g_start, g_state[6], g_last[6]; static V3 g_r, g_v; static int g_ecef = 0, g_geo = 0;
static int gv_contiguous = 1, gv_full = 1, gv_any = 0, gv_first = 1, gv_acc = 1; static double gv_t = 0, gv_dt = 0; static V3 g_acc;
// contracts of the frame conversions (C06, C05): follow the inertial state they find
extern "C" void vc_ecef(Orbit* o) { g_ecef++; g_r = o->spacecraft_position_i_m_; g_v = o->spacecraft_velocity_i_m_s_; }
extern "C" void vc_geodetic(Orbit*) { g_geo = g_ecef; }
// contract of one integration step (C10): any new state; the time advances by the step width
extern "C" void vc_step(Ode* k) {
  gv_contiguous = gv_contiguous & (k->independent_variable_ == gv_t);
  gv_full = gv_full & ((gv_any == 0) | (gv_dt == g_h));
  for (int i = 0; i < 6; i++) gv_first = gv_first & ((gv_any == 1) | (k->state_[i] == g_state[i]));
  for (int i = 0; i < 3; i++) gv_acc = gv_acc & (g_o->spacecraft_acceleration_i_m_s2_[i] == g_acc[i]);
  gv_any = 1; gv_dt = k->step_width_s_; gv_t = gv_t + k->step_width_s_;
  k->independent_variable_ += k->step_width_s_;
  for (int i = 0; i < 6; i++) k->state_[i] = g_last[i] = vc_real("stepped");
}
extern "C" void vc_inv_propagate(const double*, int) {
  vc_inv(gv_contiguous == 1); vc_inv(gv_full == 1); vc_inv(gv_first == 1); vc_inv(gv_acc == 1); vc_inv((gv_any == 0) | (gv_any == 1)); vc_inv((gv_any == 0) | (gv_dt == g_h));
  vc_inv(g_o->propagation_time_s_ == gv_t); vc_inv(((Ode*)g_o)->independent_variable_ == gv_t); vc_inv(((Ode*)g_o)->step_width_s_ == g_h); vc_inv(gv_t < g_end); vc_inv((gv_any == 1) | (gv_t == g_start));
  for (int i = 0; i < 6; i++) vc_inv((gv_any == 1) | (((Ode*)g_o)->state_[i] == g_state[i]));
}
static V3 apos(const char* n) { return scale3(any_pos("radius", 6.7e6, 4e7), any_unit3(n)); }
static V3 avel(const char* n) { return any_vec_in(n, -8e3, 8e3); }
// a low orbit for the native runs
static void aorbit(double mu, V3& r, V3& v) {
  if (vc_is_symbolic()) { r = any_vec("r"); v = any_vec("v"); return; }
  Q4 f = any_unit_quat("orbit"); double R = vc_real_in("radius", 6.8e6, 1e7); r = spec_b2i(f, vec3(R, 0, 0)); v = spec_b2i(f, vec3(vc_real_in("vx", -100, 100), std::sqrt(mu / R) * vc_real_in("speed", 1, 1.05), 0));
}
PROP(right_hand_side) {
  V3 u = any_unit3("u"), v = avel("v"), a = any_vec_in("a", -1e-2, 1e-2); double R = any_pos("radius", 6.7e6, 4e7), mu = any_pos("mu", 1e14, 1e15);
  Rk4OrbitPropagation o(env(), mu, 1.0, apos("r0"), avel("v0"), 0.0);
  o.SetAcceleration_i_m_s2(a); Vector<6> x, d; for (int i = 0; i < 3; i++) { x[i] = R * u[i]; x[i + 3] = v[i]; }
  o.DerivativeFunction(any_real("t", 0, 1e5), x, d);
  EQ3("position changes with the velocity", vec3(d[0], d[1], d[2]), v);
  EQ3("velocity changes by gravity and the disturbing acceleration", vec3(d[3], d[4], d[5]), add3(scale3(-mu / (R * R), u), a));
}
PROP(initial) {
  V3 r = apos("r"), v = avel("v"); double t0 = any_real("t0", 0, 100), h = any_pos("h", 0.1, 60), mu = any_pos("mu", 1e14, 1e15);
  g_ecef = 0; Rk4OrbitPropagation o(env(), mu, h, r, v, t0); Ode* k = &o;
  EQ3("starts from the given position", o.GetPosition_i_m(), r); EQ3("starts from the given velocity", o.GetVelocity_i_m_s(), v);
  for (int i = 0; i < 3; i++) vc_check("the integrator starts from the given state", k->state_[i] == r[i] && k->state_[i + 3] == v[i] && o.spacecraft_acceleration_i_m_s2_[i] == 0);
  vc_check("the integrator starts at the given time", k->independent_variable_ == t0 && k->step_width_s_ == h);
  if (vc_is_symbolic()) { vc_check("the Earth-fixed and geodetic position follow", g_ecef == 1 && g_geo == 1); EQ3("the Earth-fixed and geodetic position follow", g_r, r); EQ3("the Earth-fixed and geodetic position follow", g_v, v); }
}
PROP(propagate) {
  V3 r, v, a = any_vec_in("a", -1e-2, 1e-2); double mu = any_pos("mu", 3.9e14, 4e14); aorbit(mu, r, v); double h = any_pos("h", 1, 20), t0 = any_real("t0", 0, 1e4), dt = any_pos("dt", 0.1, 100), t1 = t0 + dt;
  CelestialInformation* c = env();
  Rk4OrbitPropagation o(c, mu, h, r, v, t0); Ode* k = &o; o.propagation_time_s_ = t0; o.SetAcceleration_i_m_s2(a);
  if (vc_bool("disabled")) {
    if (vc_is_symbolic()) { gv_any = 0; g_o = &o; }
    o.SetIsCalcEnabled(false); o.Propagate(t1, 0);
    vc_check("a disabled orbit stays where it is", gv_any == 0 && o.propagation_time_s_ == t0); EQ3("a disabled orbit stays where it is", o.GetPosition_i_m(), r); EQ3("a disabled orbit stays where it is", o.GetVelocity_i_m_s(), v); return;
  }
  o.SetIsCalcEnabled(true); k->step_width_s_ = any_pos("width left by the previous call", 0.1, 20);
  if (!vc_is_symbolic()) {
    Rk4OrbitPropagation b(c, mu, h, r, v, t0); Ode* kb = &b; b.SetAcceleration_i_m_s2(a);
    o.Propagate(t1, 0);
    double t = t0; while (t1 - t - h > 1e-6) { kb->Update(); t += h; } kb->SetStepWidth(t1 - t); kb->Update();
    for (int i = 0; i < 3; i++) { vc_eqs("every step but the last has the step width", o.GetPosition_i_m()[i], kb->state_[i], 1e6); vc_eqs("the new state comes from the integrator", o.GetVelocity_i_m_s()[i], kb->state_[i + 3], 1e3); }
    vc_check("propagation ends exactly at the requested time", o.propagation_time_s_ == t1);
    return;
  }
  vc_assume(dt > 1e-5);
  g_o = &o; g_h = h; g_end = t1; g_start = gv_t = t0; gv_any = 0; g_acc = a; g_ecef = 0; for (int i = 0; i < 3; i++) { g_state[i] = r[i]; g_state[i + 3] = v[i]; }
  vc_loop_field(&o.propagation_time_s_, 8); vc_loop_field(&k->independent_variable_, 8); vc_loop_field(&k->state_, 48); vc_loop_field(g_last, 48);
  o.Propagate(t1, 0);
  vc_check("steps are contiguous", gv_contiguous == 1); vc_check("every step but the last has the step width", gv_full == 1); vc_check("the first step starts from the current state", gv_first == 1 && gv_any == 1);
  vc_check("the disturbing acceleration acts over the whole interval", gv_acc == 1);
  vc_eq("steps end at the requested time", gv_t, t1); vc_check("no step runs backwards or beyond the step width", gv_dt > 0 && gv_dt <= h + 1e-6);
  vc_check("propagation ends exactly at the requested time", o.propagation_time_s_ == t1);
  for (int i = 0; i < 3; i++) vc_check("the new state comes from the integrator", o.GetPosition_i_m()[i] == g_last[i] && o.GetVelocity_i_m_s()[i] == g_last[i + 3]);
  vc_check("the Earth-fixed and geodetic position follow", g_ecef == 1 && g_geo == 1); EQ3("the Earth-fixed and geodetic position follow", g_r, o.GetPosition_i_m()); EQ3("the Earth-fixed and geodetic position follow", g_v, o.GetVelocity_i_m_s());
}
