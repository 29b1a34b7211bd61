// VC-SOURCES: math_physics/orbit/kepler_orbit.cpp math_physics/orbit/orbital_elements.cpp math_physics/math/s2e_math.cpp
#include "vc_orbit.hpp"
#include "math_physics/orbit/kepler_orbit.hpp"
using namespace s2e::orbit;
PROP(kepler_newton_step) {
  KeplerOrbit o; double e = vc_real_in("e", 0, 0.9999), M = any_real("M", 0, 6.2831853);
  double u1 = M + e * sin(M) / (1 - e * cos(M));
  double u2 = u1 - (u1 - e * sin(u1) - M) / (1 - e * cos(u1));
  vc_eq("first iterate is a Newton step from the mean anomaly", o.SolveKeplerNewtonMethod(e, M, 0.0, 1), u1);
  vc_eq("second iterate is a Newton step from the first", o.SolveKeplerNewtonMethod(e, M, 0.0, 2), u2);
}
