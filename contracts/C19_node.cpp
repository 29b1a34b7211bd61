// VC-SOURCES: dynamics/thermal/node.cpp math_physics/math/vector.cpp
// VC-REPLACE: ~s2e::math::Vector<3ul, double>::CalcNorm\(.* WITH vc_norm
// VC-REPLACE: ~.*s2e::math::InnerProduct<3.* WITH vc_inner
// VC-REPLACE: acos WITH vc_acos
// VC-REPLACE: asin WITH vc_asin
// VC-REPLACE: tan WITH vc_tan
#include "vc_s2e.hpp"
#include "dynamics/thermal/node.hpp"
#include "environment/global/physical_constants.hpp"
using namespace s2e; using namespace s2e::dynamics::thermal;
static bool near(const V3& v, const V3& w) { return vc_near(v[0], w[0]) && vc_near(v[1], w[1]) && vc_near(v[2], w[2]); }
// direction of the Earth, its distance, angle of the face from it, apparent radius of the Earth; half way between Sun and sky above the Earth
static V3 g_earth, g_half; static double g_distance, g_half_norm, g_cos, g_lambda, g_edge, g_omega, g_phi, g_sine, g_alpha, g_tan; static bool g_lost;
extern "C" double vc_norm(const V3* v) { if (near(*v, g_earth)) return g_distance; if (near(*v, g_half)) return g_half_norm; double a[3] = {(*v)[0], (*v)[1], (*v)[2]}; double n = vc_uf("norm", 3, a); vc_assume(n > 0); return n; }
extern "C" double vc_acos(double x) { if (vc_near(x, g_cos)) return g_lambda; if (vc_near(x, g_edge)) return g_omega; if (x == g_cos) return g_lambda; vc_eq("view of the Earth", x, g_edge); return g_omega; }
extern "C" double vc_asin(double x) { double r = environment::earth_equatorial_radius_m / g_distance; if (vc_near(x, r)) return g_phi; if (vc_near(x, g_sine)) return g_alpha; if (x == r) return g_phi; vc_eq("view of the Earth", x, g_sine); return g_alpha; }
extern "C" double vc_tan(double x) { vc_eq("view of the Earth", x, g_lambda); return g_tan; }
// cosine of the angle between the sky above the Earth and half way to the Sun; other products as they are
static double g_day; static V3 g_up, g_up2, g_way, g_way2;
static bool up(const V3& v) { return near(v, g_up) || near(v, g_up2); } static bool way(const V3& v) { return near(v, g_way) || near(v, g_way2); }
extern "C" double vc_inner(const V3* a, const V3* b) { if ((up(*a) && way(*b)) || (up(*b) && way(*a))) return g_day; return (*a)[0] * (*b)[0] + (*a)[1] * (*b)[1] + (*a)[2] * (*b)[2]; }
struct Any { double area, alpha, epsilon; V3 n, e, s; double H, b, F; };
static Node make(Any& a) {
  bool sym = vc_is_symbolic(); a.area = any_pos("area", 0.01, 1); a.alpha = vc_real_in("alpha", 0, 1); a.epsilon = vc_real_in("epsilon", 0, 1); a.n = any_unit3("normal"); a.s = any_unit3("Sun"); double R = environment::earth_equatorial_radius_m; g_distance = any_pos("distance", 1.02 * R, 3 * R); vc_assume(g_distance > R);
  long special = vc_int("face exactly to the Earth", 0, 9); if (sym) a.e = any_vec("Earth"); else { V3 u = any_unit3("Earth direction"); if (special == 0) a.n = u; a.e = scale3(g_distance, u); } g_earth = a.e; V3 u;
  for (int i = 0; i < 3; i++) u[i] = a.e[i] * (1 / g_distance); g_cos = u[0] * a.n[0] + u[1] * a.n[1] + u[2] * a.n[2]; g_half = sub3(a.s, u); g_half_norm = sym ? any_pos("half way", 1, 2) : norm3(g_half); vc_assume(g_half_norm > 1e-3); g_day = sym ? vc_real_in("day side", -1, 1) : -dot3(u, g_half) / g_half_norm;
  for (int i = 0; i < 3; i++) { g_up[i] = -u[i]; g_up2[i] = -(a.e[i] / g_distance); g_way[i] = g_half[i] * (1 / g_half_norm); g_way2[i] = g_half[i] / g_half_norm; }
  if (sym) { vc_assume(g_cos <= 1 && g_cos >= -1); g_lambda = vc_real_in("angle of the face", 0, M_PI); g_phi = vc_real_in("apparent radius", 0, M_PI / 2); g_omega = vc_real_in("omega", 0, M_PI); g_alpha = vc_real_in("alpha angle", -M_PI / 2, M_PI / 2); g_tan = vc_real("tangent"); vc_assume(g_tan != 0); }
  else { double c = std::max(-1.0, std::min(1.0, g_cos)); g_lambda = std::acos(c); g_phi = std::asin(R / g_distance); g_tan = std::tan(g_lambda); }
  double H = a.H = g_distance / R, sl = std::sin(g_lambda), cl = std::cos(g_lambda), b = std::sqrt(H * H - 1); if (sym) vc_assume(sl > 0); g_edge = -b / g_tan; g_sine = b / (H * sl);
  if (!sym) { g_omega = std::acos(std::max(-1.0, std::min(1.0, g_edge))); g_alpha = std::asin(std::min(1.0, g_sine)); }
  // fraction of the face's sky filled by the Earth: all of it above the face's horizon, part, none; far away a quarter of the squared radius
  if (g_distance - R < 1732e3) { if (g_lambda <= M_PI / 2 - g_phi) a.F = cl / H / H; else if (g_lambda <= M_PI / 2 + g_phi) a.F = 0.5 - g_alpha / M_PI + (cl * g_omega - b * std::sqrt(1 - H * cl * (H * cl))) / (M_PI * H * H); else a.F = 0; }
  else { if (g_lambda < M_PI / 2) a.F = 0.25 / H / H; else a.F = 0; }
  if (!sym) { vc_assume(std::fabs(g_lambda - M_PI / 2 + g_phi) > 1e-6 && std::fabs(g_lambda - M_PI / 2 - g_phi) > 1e-6); vc_assume(std::fabs(g_lambda - M_PI / 2) > 1e-9 || g_distance - R < 1732e3); }
  return Node(0, "face", NodeType::kDiffusive, 0, 300, 100, a.alpha, a.epsilon, a.area, a.n);
}
PROP(sun) {
  Any a; Node n = make(a); double flux = any_pos("flux", 100, 1400), c = dot3(a.s, a.n), w = n.CalcSolarRadiation_W(a.s, flux);
  if (c > 0) vc_eq("sunlight on the face", w, flux * a.area * a.alpha * c); else vc_eq("no sunlight on the back", w, 0); vc_eq("sunlight on the face", n.GetSolarRadiation_W(), w);
}
PROP(infrared) { Any a; Node n = make(a); double flux = any_pos("flux", 100, 400), w = n.CalcEarthInfraredRadiation_W(a.e, flux); vc_eq("infrared light of the Earth on the face", w, flux * a.area * a.epsilon * a.F); vc_eq("infrared light of the Earth on the face", n.GetEarthInfraredRadiation_W(), w); }
PROP(albedo) {
  Any a; Node n = make(a); double flux = any_pos("flux", 100, 400), w = n.CalcAlbedoRadiation_W(a.e, a.s, flux); double c = g_day;
  if (c > 0) vc_eq("reflected light of the Earth on the face", w, flux * a.area * a.alpha * a.F * c * c * c); else vc_eq("no reflected light from the night side", w, 0); vc_eq("reflected light of the Earth on the face", n.GetAlbedoRadiation_W(), w);
}
