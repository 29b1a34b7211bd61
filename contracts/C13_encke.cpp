// VC-SOURCES: dynamics/orbit/orbit.cpp dynamics/orbit/rk4_orbit_propagation.cpp dynamics/orbit/encke_orbit_propagation.cpp dynamics/orbit/kepler_orbit_propagation.cpp math_physics/orbit/kepler_orbit.cpp math_physics/orbit/orbital_elements.cpp math_physics/math/s2e_math.cpp math_physics/math/vector.cpp math_physics/math/quaternion.cpp math_physics/geodesy/geodetic_position.cpp math_physics/orbit/sgp4/sgp4ext.cpp
// VC-REPLACE: ~.*s2e::math::OrdinaryDifferentialEquation<6.*>::Update\(\) WITH vc_step
// VC-REPLACE: s2e::dynamics::orbit::Orbit::TransformEciToEcef WITH vc_ecef
// VC-REPLACE: s2e::dynamics::orbit::Orbit::TransformEcefToGeodetic WITH vc_geodetic
// VC-REPLACE: ~s2e::orbit::OrbitalElements::OrbitalElements\(double, double, s2e.* WITH vc_elements
// VC-REPLACE: s2e::orbit::KeplerOrbit::CalcOrbit WITH vc_calc_orbit
// VC-LOOP: s2e::dynamics::orbit::EnckeOrbitPropagation::Propagate WITH vc_inv_propagate
#include "vc_orbit.hpp"
#include "vc_env.hpp"
#include "dynamics/orbit/encke_orbit_propagation.hpp"
#include "dynamics/orbit/kepler_orbit_propagation.hpp"
#include "dynamics/orbit/rk4_orbit_propagation.hpp"
using namespace s2e; using namespace s2e::math; using namespace s2e::environment; using namespace s2e::dynamics::orbit;
int CelestialInformation::CalcBodyIdFromName(const char* n) const { return vc_env::id_of(n); }
static CelestialInformation* env() { CelestialInformation* c = vc_env::global(); c->earth_rotation_->dcm_j2000_to_ecef_ = MakeIdentityMatrix<3>(); return c; }
typedef OrdinaryDifferentialEquation<6> Ode;
static EnckeOrbitPropagation* g_o; static double g_h, g_end, g_start, g_state[6], g_last[6]; static V3 g_r, g_v; static int g_ecef = 0, g_geo = 0;
static int gv_contiguous = 1, gv_full = 1, gv_any = 0, gv_first = 1, gv_acc = 1, gv_ref = 1; static double gv_t = 0, gv_dt = 0, gv_t0 = 0; static V3 g_acc;
// contracts of the frame conversions (C06, C05): follow the inertial state they find
extern "C" void vc_ecef(Orbit* o) { g_ecef++; g_r = o->spacecraft_position_i_m_; g_v = o->spacecraft_velocity_i_m_s_; }
extern "C" void vc_geodetic(Orbit*) { g_geo = g_ecef; }
// contract of the elements of a state (C03) and of the Kepler orbit of elements (C04): the orbit through that state at that date
static int g_elements = 0; static V3 g_er, g_ev; static double g_emu, g_ejd, g_ea; static int g_calcs = 0; static double g_cjd, g_ca; static V3 g_cr, g_cv;
extern "C" void vc_elements(s2e::orbit::OrbitalElements* e, double mu, double jd, V3* r, V3* v) {
  g_elements++; g_emu = mu; g_ejd = jd; g_er = *r; g_ev = *v; g_ea = vc_real("a"); vc_assume(g_ea > 0);
  e->semi_major_axis_m_ = g_ea; e->eccentricity_ = 0; e->inclination_rad_ = 0; e->raan_rad_ = 0; e->arg_perigee_rad_ = 0; e->epoch_jday_ = jd;
}
extern "C" void vc_calc_orbit(s2e::orbit::KeplerOrbit* k, double jd) {
  g_calcs++; g_cjd = jd; g_ca = k->oe_.semi_major_axis_m_; g_cr = any_vec("reference r"); g_cv = any_vec("reference v"); k->position_i_m_ = g_cr; k->velocity_i_m_s_ = g_cv;
}
// contract of one integration step (C10): any new state; the time advances by the step width
extern "C" void vc_step(Ode* k) {
  gv_contiguous = gv_contiguous & (k->independent_variable_ == gv_t - gv_t0);
  gv_full = gv_full & ((gv_any == 0) | (gv_dt == g_h));
  for (int i = 0; i < 6; i++) gv_first = gv_first & ((gv_any == 1) | (k->state_[i] == g_state[i]));
  for (int i = 0; i < 3; i++) { gv_acc = gv_acc & (g_o->spacecraft_acceleration_i_m_s2_[i] == g_acc[i]); gv_ref = gv_ref & (g_o->reference_position_i_m_[i] == g_cr[i]) & (g_o->reference_velocity_i_m_s_[i] == g_cv[i]); }
  gv_any = 1; gv_dt = k->step_width_s_; gv_t = gv_t + k->step_width_s_;
  k->independent_variable_ += k->step_width_s_;
  for (int i = 0; i < 6; i++) k->state_[i] = g_last[i] = vc_real("stepped");
}
extern "C" void vc_inv_propagate(const double*, int) {
  vc_inv(gv_contiguous == 1); vc_inv(gv_full == 1); vc_inv(gv_first == 1); vc_inv(gv_acc == 1); vc_inv(gv_ref == 1); vc_inv((gv_any == 0) | (gv_any == 1)); vc_inv((gv_any == 0) | (gv_dt == g_h));
  vc_inv(g_o->propagation_time_s_ == gv_t); vc_inv(((Ode*)g_o)->independent_variable_ == gv_t - gv_t0); vc_inv(((Ode*)g_o)->step_width_s_ == g_h); vc_inv(gv_t < g_end); vc_inv((gv_any == 1) | (gv_t == g_start));
  for (int i = 0; i < 6; i++) vc_inv((gv_any == 1) | (((Ode*)g_o)->state_[i] == g_state[i]));
}
static V3 apos(const char* n) { return scale3(any_pos("radius", 6.7e6, 4e7), any_unit3(n)); }
static V3 avel(const char* n) { return any_vec_in(n, -8e3, 8e3); }
// a low orbit for the native runs
static void aorbit(double mu, V3& r, V3& v) {
  if (vc_is_symbolic()) { r = any_vec("r"); v = any_vec("v"); return; }
  Q4 f = any_unit_quat("orbit"); double R = vc_real_in("radius", 6.8e6, 1e7); r = spec_b2i(f, vec3(R, 0, 0)); v = spec_b2i(f, vec3(vc_real_in("vx", -100, 100), std::sqrt(mu / R) * vc_real_in("speed", 1, 1.05), 0));
}
// difference of the two-body accelerations of the spacecraft and of its reference, plus the disturbance
PROP(right_hand_side) {
  V3 us = any_unit3("spacecraft"), ur = any_unit3("reference"), dv = avel("dv"), a = any_vec_in("a", -1e-2, 1e-2); double S = any_pos("S", 6.7e6, 4e7), R = any_pos("R", 6.7e6, 4e7), mu = any_pos("mu", 1e14, 1e15);
  V3 r0, v0; aorbit(mu, r0, v0); EnckeOrbitPropagation o(env(), mu, 1.0, 2459000.5, r0, v0, 1e-4);
  V3 s = scale3(S, us), r = scale3(R, ur); o.spacecraft_position_i_m_ = s; o.reference_position_i_m_ = r; o.SetAcceleration_i_m_s2(a);
  Vector<6> x, d; for (int i = 0; i < 3; i++) { x[i] = s[i] - r[i]; x[i + 3] = dv[i]; }
  o.DerivativeFunction(any_real("t", 0, 1e5), x, d);
  EQ3("position difference changes with the velocity difference", vec3(d[0], d[1], d[2]), dv);
  EQ3S("velocity difference changes by the difference of gravity and the disturbing acceleration", vec3(d[3], d[4], d[5]), add3(sub3(scale3(-mu / (S * S), us), scale3(-mu / (R * R), ur)), a), mu / (R * R) + mu / (S * S));
}
PROP(initial) {
  double mu = any_pos("mu", 3e14, 5e14), h = any_pos("h", 0.1, 60), jd = any_real("jd", 2.4e6, 2.5e6), tol = any_pos("tolerance", 1e-6, 1e-2); V3 r, v; aorbit(mu, r, v);
  g_ecef = g_elements = 0; EnckeOrbitPropagation o(env(), mu, h, jd, r, v, tol); Ode* k = &o;
  EQ3("starts from the given position", o.GetPosition_i_m(), r); EQ3("starts from the given velocity", o.GetVelocity_i_m_s(), v);
  for (int i = 0; i < 3; i++) vc_check("the difference starts at zero", k->state_[i] == 0 && k->state_[i + 3] == 0 && o.difference_position_i_m_[i] == 0 && o.difference_velocity_i_m_s_[i] == 0 && o.spacecraft_acceleration_i_m_s2_[i] == 0);
  vc_check("settings are kept", o.error_tolerance_ == tol && o.propagation_step_s_ == h && o.gravity_constant_m3_s2_ == mu && o.propagation_time_s_ == 0);
  if (vc_is_symbolic()) {
    vc_check("the reference orbit passes through the given state", g_elements == 1 && g_emu == mu && g_ejd == jd && o.reference_kepler_orbit.oe_.semi_major_axis_m_ == g_ea && o.reference_kepler_orbit.gravity_constant_m3_s2_ == mu);
    EQ3("the reference orbit passes through the given state", g_er, r); EQ3("the reference orbit passes through the given state", g_ev, v);
    vc_check("the Earth-fixed and geodetic position follow", g_ecef == 1 && g_geo == 1); EQ3("the Earth-fixed and geodetic position follow", g_r, r);
  }
}
PROP(propagate) {
  double mu = any_pos("mu", 3.9e14, 4e14), h = any_pos("h", 1, 20), t0 = any_real("t0", 0, 1e4), dt = any_pos("dt", 0.1, 100), t1 = t0 + dt, jd = any_real("jd", 2.4e6, 2.5e6), tol = any_pos("tolerance", 1e-9, 1e-2); V3 r, v, a = any_vec_in("a", -1e-2, 1e-2); aorbit(mu, r, v);
  EnckeOrbitPropagation o(env(), mu, h, jd, r, v, tol); Ode* k = &o;
  o.propagation_time_s_ = t0; o.SetAcceleration_i_m_s2(a);
  if (vc_bool("disabled")) {
    if (vc_is_symbolic()) { gv_any = 0; g_o = &o; }
    o.SetIsCalcEnabled(false); o.Propagate(t1, jd + dt / 86400);
    vc_check("a disabled orbit stays where it is", gv_any == 0 && o.propagation_time_s_ == t0); EQ3("a disabled orbit stays where it is", o.GetPosition_i_m(), r); EQ3("a disabled orbit stays where it is", o.GetVelocity_i_m_s(), v); return;
  }
  o.SetIsCalcEnabled(true);
  if (!vc_is_symbolic()) {  // several calls against direct integration: rectification does not move the spacecraft
    Rk4OrbitPropagation b(env(), mu, h, r, v, 0); b.propagation_time_s_ = t0; b.SetIsCalcEnabled(true); double t = t0, e = 0;
    for (int n = 0; n < 20; n++) { t += dt / 20; o.SetAcceleration_i_m_s2(a); b.SetAcceleration_i_m_s2(a); o.Propagate(t, jd + (t - t0) / 86400); b.Propagate(t, 0); double x = norm3(sub3(o.GetPosition_i_m(), b.GetPosition_i_m())); if (x > e) e = x; }
    vc_check("replacing the reference orbit does not move the spacecraft", e < 100 + 2 * norm3(v) * 5e-5);
    vc_check("propagation ends exactly at the requested time", o.propagation_time_s_ == t); return;
  }
  vc_assume(dt > 1e-5);
  // an arbitrary state between two calls: spacecraft = reference + difference
  double jd1 = any_real("jd1", 2.4e6, 2.5e6), tau = any_real("integration time", 0, 1e4); V3 d0 = any_vec("d"), e0 = any_vec("e"), r0 = any_vec("reference"), w0 = any_vec("reference velocity");
  o.reference_position_i_m_ = r0; o.reference_velocity_i_m_s_ = w0; o.difference_position_i_m_ = d0; o.difference_velocity_i_m_s_ = e0; o.spacecraft_position_i_m_ = add3(r0, d0); o.spacecraft_velocity_i_m_s_ = add3(w0, e0);
  for (int i = 0; i < 3; i++) { k->state_[i] = g_state[i] = d0[i]; k->state_[i + 3] = g_state[i + 3] = e0[i]; }
  k->independent_variable_ = tau; k->step_width_s_ = any_pos("width left by the previous call", 0.1, 20); double a0 = o.reference_kepler_orbit.oe_.semi_major_axis_m_;
  g_o = &o; g_h = h; g_end = t1; g_start = gv_t = t0; gv_t0 = t0 - tau; gv_any = 0; g_acc = a; g_ecef = g_elements = g_calcs = 0;
  vc_loop_field(&o.propagation_time_s_, 8); vc_loop_field(&k->independent_variable_, 8); vc_loop_field(&k->state_, 48); vc_loop_field(g_last, 48);
  o.Propagate(t1, jd1);
  vc_check("steps are contiguous", gv_contiguous == 1); vc_check("every step but the last has the step width", gv_full == 1); vc_check("the first step starts from the current difference", gv_first == 1 && gv_any == 1);
  vc_check("the disturbing acceleration acts over the whole interval", gv_acc == 1); vc_check("the reference orbit is the Kepler orbit at the current date", gv_ref == 1 && g_calcs == 1 && g_cjd == jd1 && g_ca == a0);
  vc_eq("steps end at the requested time", gv_t, t1); vc_check("no step runs backwards or beyond the step width", gv_dt > 0 && gv_dt <= h + 1e-6);
  vc_check("propagation ends exactly at the requested time", o.propagation_time_s_ == t1);
  V3 p, w; for (int i = 0; i < 3; i++) { p[i] = g_cr[i] + g_last[i]; w[i] = g_cv[i] + g_last[i + 3]; }
  EQ3("replacing the reference orbit does not move the spacecraft", o.GetPosition_i_m(), p); EQ3("replacing the reference orbit does not change the velocity", o.GetVelocity_i_m_s(), w);
  EQ3("spacecraft is reference plus difference", o.GetPosition_i_m(), add3(o.reference_position_i_m_, o.difference_position_i_m_)); EQ3("spacecraft is reference plus difference", o.GetVelocity_i_m_s(), add3(o.reference_velocity_i_m_s_, o.difference_velocity_i_m_s_));
  for (int i = 0; i < 3; i++) vc_check("the integrator holds the difference", k->state_[i] == o.difference_position_i_m_[i] && k->state_[i + 3] == o.difference_velocity_i_m_s_[i]);
  vc_check("the Earth-fixed and geodetic position follow", g_ecef >= 1 && g_geo == g_ecef); EQ3("the Earth-fixed and geodetic position follow", g_r, o.GetPosition_i_m()); EQ3("the Earth-fixed and geodetic position follow", g_v, o.GetVelocity_i_m_s());
  vc_check("at most one new reference orbit", g_elements <= 1);
  if (g_elements == 1) { vc_check("a new reference orbit passes through the current state", g_ejd == jd1 && g_emu == mu && o.reference_kepler_orbit.oe_.semi_major_axis_m_ == g_ea); EQ3("a new reference orbit passes through the current state", g_er, p); EQ3("a new reference orbit passes through the current state", g_ev, w); }
  else vc_check("otherwise the reference orbit is kept", o.reference_kepler_orbit.oe_.semi_major_axis_m_ == a0);
}
PROP(kepler) {
  double mu = any_pos("mu", 3e14, 5e14), jd = any_real("jd", 2.4e6, 2.5e6), jd1 = jd + any_real("days", 0, 10); double A = any_pos("a", 7e6, 4e7);
  g_calcs = g_ecef = 0; s2e::orbit::KeplerOrbit q(mu, s2e::orbit::OrbitalElements(jd, A, 0.01, 1.0, 2.0, 3.0)), q0 = q, q1 = q; KeplerOrbitPropagation o(env(), jd, q); Orbit& b = o;
  if (vc_is_symbolic()) { vc_check("Kepler orbit at the current date", g_calcs == 1 && g_cjd == jd && g_ca == A); EQ3("Kepler orbit at the current date", b.GetPosition_i_m(), g_cr); EQ3("Kepler orbit at the current date", b.GetVelocity_i_m_s(), g_cv); }
  else { q0.CalcOrbit(jd); EQ3("Kepler orbit at the current date", b.GetPosition_i_m(), q0.GetPosition_i_m()); }
  V3 r = b.GetPosition_i_m(), v = b.GetVelocity_i_m_s(); bool on = vc_bool("enabled"); b.SetIsCalcEnabled(on); b.Propagate(any_real("t", 0, 100), jd1);
  if (!on) { EQ3("a disabled orbit stays where it is", b.GetPosition_i_m(), r); EQ3("a disabled orbit stays where it is", b.GetVelocity_i_m_s(), v); return; }
  if (vc_is_symbolic()) { vc_check("Kepler orbit at the current date", g_calcs == 2 && g_cjd == jd1 && g_ca == A); EQ3("Kepler orbit at the current date", b.GetPosition_i_m(), g_cr); EQ3("Kepler orbit at the current date", b.GetVelocity_i_m_s(), g_cv); vc_check("the Earth-fixed and geodetic position follow", g_ecef == 2 && g_geo == 2); EQ3("the Earth-fixed and geodetic position follow", g_r, g_cr); }
  else { q1.CalcOrbit(jd1); EQ3("Kepler orbit at the current date", b.GetPosition_i_m(), q1.GetPosition_i_m()); }
}
