// VC-SOURCES: math_physics/geomagnetic/igrf.cpp math_physics/orbit/sgp4/sgp4ext.cpp
// VC-REPLACE: sin WITH vc_sin
// VC-REPLACE: cos WITH vc_cos
#define VC_ANGLE_LABEL "northward field is the gradient of the potential"
#include "vc_igrf.hpp"
static void run(int N, bool drift, bool polar) {
  g_n = 0; double ext[3] = {0, 0, 0}, Bx, By, Bz, F, E[3];
  for (int n = 1; n <= N; n++) for (int m = 0; m <= n; m++) { A[m][n] = any_real("g", -1, 1); D[m][n] = drift ? any_real("g change", -1, 1) : 0; if (m) { A[n][m - 1] = any_real("h", -1, 1); D[n][m - 1] = drift ? any_real("h change", -1, 1) : 0; } }
  double a = 6371.2, r = vc_real_in("r", 6400, 50000), t0 = 2020, year = drift ? vc_real_in("year", 2000, 2040) : 2020, col = polar ? any_real("colatitude", 0.01, 0.17) : any_real("colatitude", 0.2, 2.9), lon = any_real("longitude", -3, 3), s, c, sl, cl;
  if (polar && vc_bool("south")) col = M_PI - col;
  angle("colatitude", col, &s, &c); angle("longitude", lon, &sl, &cl); if (vc_is_symbolic()) { vc_assume(s > 0.0000002); if (polar) vc_assume(s <= 0.175); else vc_assume(s > 0.175); }
  field(6378.137, 298.25722, a, N); tcoef(A, D, t0, 0, ext); tyear(year); mfldc(col * 180 / M_PI, lon * 180 / M_PI, r, &Bx, &By, &Bz, &F);
  expected(N, year - t0, c, s, cl, sl, a / r, E);
  vc_eqs("northward field is the gradient of the potential", Bx, E[0], 100); vc_eqs("eastward field is the gradient of the potential", By, E[1], 100); vc_eqs("downward field is the gradient of the potential", Bz, E[2], 100);
  vc_eqs("total field", F, sqrt(Bx * Bx + By * By + Bz * Bz), 100);
}
static int degree(int max) { int d = 1; while (d < max && vc_bool("higher degree")) d++; return d; }
PROP(field_low_latitude) { vc_assumption("degree at most 13 at arbitrary places (bounded)"); run(degree(13), vc_bool("secular variation"), false); }
PROP(field_polar) { vc_assumption("degree at most 13 at arbitrary polar places (bounded)"); run(degree(13), vc_bool("secular variation"), true); }
