// VC-SOURCES: disturbances/geopotential.cpp disturbances/lunar_gravity_field.cpp math_physics/gravity/gravity_potential.cpp math_physics/math/vector.cpp environment/local/local_celestial_information.cpp
// VC-REPLACE: s2e::disturbances::Geopotential::ReadCoefficientsEgm96 WITH vc_egm
// VC-REPLACE: s2e::disturbances::LunarGravityField::ReadCoefficientsGrgm1200a WITH vc_grgm
#include <fstream>
#include <unistd.h>
#include "vc_s2e.hpp"
#include "vc_env.hpp"
#include "disturbances/geopotential.hpp"
#include "disturbances/lunar_gravity_field.hpp"
using namespace s2e; using namespace s2e::math; using namespace s2e::environment; using namespace s2e::disturbances;
int CelestialInformation::CalcBodyIdFromName(const char* n) const { return vc_env::id_of(n); }
extern "C" void bodc2n_c(int, int, char* n, int* f) { n[0] = 0; *f = 1; }
LocalEnvironment::~LocalEnvironment() {}
// the coefficient file: missing, or fills the coefficients up to the degree
static bool gv_file; static double gv_c;
extern "C" bool vc_egm(Geopotential* g, std::string f) { if (!gv_file) return false; g->c_[g->degree_][g->degree_] = gv_c; return true; }
extern "C" bool vc_grgm(LunarGravityField* g, std::string f) { if (!gv_file) return false; g->reference_radius_km_ = 1738; g->gravity_constants_km3_s2_ = 4903; g->c_[g->degree_][g->degree_] = gv_c; return true; }
static std::string temporary() { if (vc_is_symbolic()) return "file"; return "/tmp/vc_gravity_" + std::to_string(getpid()); }
template <class G> static void degree(G& g, const gravity::GravityPotential& p, int d, int limit) {
  size_t e = d < 2 || !gv_file ? 0 : d > limit ? limit : d;
  vc_check("the potential has the requested degree, up to the model's limit and only with its coefficients", p.degree_ == e);
  vc_check("coefficients exist up to the degree", p.c_.size() > e && p.s_.size() > e && p.c_[e].size() > e && p.s_[e].size() > e);
  vc_check("the main term is left to the orbit", p.c_[0][0] == 0 && p.s_[0][0] == 0);
  vc_check("the file's coefficients are used", e < 2 || p.c_[e][e] == gv_c);
}
PROP(geopotential_degree) {
  vc_assumption("degrees 0 to 4 and above the limit (bounded)"); vc_option("loop-limit=10000000");
  int d = 0; while (d < 5 && vc_bool("more")) d++; if (d == 5) d = 365; gv_file = vc_bool("file"); gv_c = any_real("c", -1, 1); std::string path = temporary();
  if (!vc_is_symbolic()) { std::ofstream f(path); gv_file = gv_file && d < 100; if (gv_file) { f.precision(17); for (int n = 2; n <= d; n++) for (int m = 0; m <= n; m++) f << "  " << n << "  " << m << " " << (n == d && m == d ? gv_c : n + 0.1 * m) << " " << 0.5 << " 0.0 0.0\n"; } else path = "/nonexistent"; }
  Geopotential g(d, path, true); degree(g, g.geopotential_, d, 360); if (!vc_is_symbolic()) { bool ok = true; if (gv_file && d >= 2) for (int n = 2; n <= d; n++) for (int m = 0; m <= n; m++) ok &= g.geopotential_.s_[n][m] == 0.5 && (n == d && m == d || vc_abs(g.geopotential_.c_[n][m] - n - 0.1 * m) < 1e-9); vc_check("the file's coefficients are used", ok); unlink(temporary().c_str()); }
}
PROP(lunar_degree) {
  vc_assumption("degrees 0 to 4 (bounded)");
  int d = 0; while (d < 4 && vc_bool("more")) d++; gv_file = vc_bool("file"); gv_c = any_real("c", -1, 1); std::string path = temporary();
  if (!vc_is_symbolic()) { std::ofstream f(path); if (gv_file) { f.precision(17); f << "1738.0, 4903, 0, 1200, 1200, 1, 0, 0\n"; for (int n = 1; n <= d; n++) for (int m = 0; m <= n; m++) f << n << ", " << m << ", " << (n == d && m == d ? gv_c : n + 0.1 * m) << ", " << 0.5 << ", 0.0, 0.0\n"; } else path = "/nonexistent"; }
  LunarGravityField g(d, path, true); degree(g, g.lunar_potential_, d, 1200); if (!vc_is_symbolic()) unlink(temporary().c_str());
  if (gv_file && d >= 2) { vc_eq("the file's radius and gravity constant are used", g.lunar_potential_.center_body_radius_m_, 1738e3); vc_eq("the file's radius and gravity constant are used", g.lunar_potential_.gravity_constants_m3_s2_ , 4903e9); }
}
