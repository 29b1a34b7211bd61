// VC-SOURCES: math_physics/math/quaternion.cpp math_physics/math/vector.cpp
// VC-REPLACE: s2e::math::Quaternion::ConvertToDcm WITH vc_to_dcm
#include "vc_s2e.hpp"
using namespace s2e::math;
static double g_c[3], g_s[3];
// contract of ConvertToDcm (C01_quaternion: quat_dcm_is_rotation): a rotation matrix; every rotation matrix off gimbal lock
// is a 3-2-1 matrix with cos(pitch) > 0
extern "C" M33 vc_to_dcm(const Q4*) {
  double c0 = g_c[0], c1 = g_c[1], c2 = g_c[2], s0 = g_s[0], s1 = g_s[1], s2 = g_s[2]; M33 m;
  m[0][0] = c1 * c2; m[0][1] = c1 * s2; m[0][2] = -s1;
  m[1][0] = s0 * s1 * c2 - c0 * s2; m[1][1] = s0 * s1 * s2 + c0 * c2; m[1][2] = s0 * c1;
  m[2][0] = c0 * s1 * c2 + s0 * s2; m[2][1] = c0 * s1 * s2 - s0 * c2; m[2][2] = c0 * c1;
  return m;
}
PROP(quaternion_to_euler) {
  Q4 q = any_unit_quat("q");
  if (vc_is_symbolic()) {
    for (int i = 0; i < 3; i++) { double a = vc_real("angle"); g_c[i] = cos(a); g_s[i] = sin(a); }
    vc_assume(g_c[1] > 0.0);
    vc_assumption("every rotation matrix away from gimbal lock is the 3-2-1 matrix of some angles with cos(pitch) > 0");
  } else {
    M33 m = q.ConvertToDcm(); double c = sqrt(1 - m[0][2] * m[0][2]); vc_assume(c > 1e-3);
    g_s[1] = -m[0][2]; g_c[1] = c; g_s[0] = m[1][2] / c; g_c[0] = m[2][2] / c; g_s[2] = m[0][1] / c; g_c[2] = m[0][0] / c;
  }
  V3 e = q.ConvertToEuler();
  for (int i = 0; i < 3; i++) { vc_eq("sine of the Euler angle", sin(e[i]), g_s[i]); vc_eq("cosine of the Euler angle", cos(e[i]), g_c[i]); }
  vc_check("pitch within +-90 deg", cos(e[1]) >= 0);
}
