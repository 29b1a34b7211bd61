// VC-SOURCES: disturbances/surface_force.cpp disturbances/air_drag.cpp simulation/spacecraft/structure/surface.cpp math_physics/math/vector.cpp math_physics/math/quaternion.cpp
// VC-REPLACE: erf WITH vc_erf
// VC-REPLACE: exp WITH vc_exp
#include "vc_s2e.hpp"
#include "vc_env.hpp"
#include "disturbances/air_drag.hpp"
using namespace s2e; using namespace s2e::math; using namespace s2e::environment; using namespace s2e::disturbances; using namespace s2e::spacecraft;
int CelestialInformation::CalcBodyIdFromName(const char* n) const { return vc_env::id_of(n); }
LocalEnvironment::~LocalEnvironment() {}
extern "C" double vc_erf(double x) { return vc_uf("erf", 1, &x); }
extern "C" double vc_exp(double x) { return vc_uf("exp", 1, &x); }
static double pressure(double x) { return x * exp(-x * x) + sqrt(s2e::math::pi) * (0.5 + x * x) * (1 + erf(x)); }
static double flux(double x) { return exp(-x * x) + sqrt(s2e::math::pi) * x * (1 + erf(x)); }
// free-molecular force of one surface (Schaaf and Chambre) of the flow -V (c n + w t)
PROP(drag_surface) {
  Q4 f = any_unit_quat("frame"); V3 n = spec_b2i(f, vec3(1, 0, 0)), t = spec_b2i(f, vec3(0, 1, 0)); double a[2]; vc_unit("incidence", a, 2); double c = a[0], w = a[1]; if (w < 0) return;   // sine of the angle from the normal
  if (!vc_is_symbolic() && c < 1e-9 && c > -1e-9) return;   // rounding decides which side is lit
  double m = norm3(n); if (!vc_is_symbolic()) n = scale3(1 / m, n);
  V3 r = any_vec_in("position", -1, 1), cg = any_vec_in("cg", -1, 1); double A = any_pos("area", 0.1, 1), sg = any_real("specularity", 0, 1), Tw = any_pos("wall temperature", 200, 400), Tm = any_pos("gas temperature", 200, 1500), M = any_pos("molecular weight", 1, 40), rho = any_pos("density", 1e-14, 1e-10), V = any_pos("speed", 1e3, 9e3);
  std::vector<Surface> list; list.push_back(Surface(r, n, A, vc_real("R"), vc_real("S"), sg)); AirDrag d(list, cg, Tw, Tm, M, true); d.force_b_N_ = any_vec("last"); d.torque_b_Nm_ = any_vec("last"); d.cn_[0] = vc_real("last"); d.ct_[0] = vc_real("last");
  V3 v = scale3(V, add3(scale3(c, n), scale3(w, t))); d.CalcTorqueForce(v, rho);
  double S = sqrt(M * 1e-3 / 6.02214076e23 * V * V / (2 * 1.380649e-23 * Tw));   // speed ratio of a molecule of that weight
  double diffuse = 1 - sg, cn = ((2 - diffuse) / sqrt(s2e::math::pi) * pressure(S * c) + diffuse / 2 * sqrt(Tw / Tm) * flux(S * c)) / (S * S), ct = diffuse * S * w * flux(S * c) / (sqrt(s2e::math::pi) * S * S), k = 0.5 * rho * V * V * A;
  V3 F = vec3(0, 0, 0); if (c > 0) F = scale3(-k, add3(scale3(cn, n), scale3(ct, t)));
  EQ3S("free-molecular drag force of a surface", d.GetForce_b_N(), F, k); EQ3S("torque of the drag about the centre of gravity", d.GetTorque_b_Nm(), cross3(sub3(r, cg), F), k);
}
