// VC-SOURCES: math_physics/math/quaternion.cpp math_physics/math/vector.cpp
// VC-REPLACE: s2e::math::Quaternion::ConvertFromDcm WITH vc_from_dcm
#include "vc_s2e.hpp"
using namespace s2e::math;
// contract of ConvertFromDcm (proved in C01_quaternion, quat_from_dcm_round_trip):
// requires dcm to be the dcm of some unit quaternion (the witness), ensures a unit quaternion with that dcm
static Q4 g_witness(0, 0, 0, 1);
extern "C" Q4 vc_from_dcm(const M33 dcm) {
  M33 w = g_witness.ConvertToDcm();
  EQ33("argument of ConvertFromDcm is a rotation", dcm, w);
  Q4 r = any_unit_quat("from_dcm");
  M33 m = r.ConvertToDcm();
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) vc_assume(m[i][j] == dcm[i][j]);
  return r;
}
static M33 euler_matrix(double c0, double s0, double c1, double s1, double c2, double s2) {
  M33 m;
  m[0][0] = c1 * c2; m[0][1] = c1 * s2; m[0][2] = -s1;
  m[1][0] = s0 * s1 * c2 - c0 * s2; m[1][1] = s0 * s1 * s2 + c0 * c2; m[1][2] = s0 * c1;
  m[2][0] = c0 * s1 * c2 + s0 * s2; m[2][1] = c0 * s1 * s2 - s0 * c2; m[2][2] = c0 * c1;
  return m;
}
PROP(euler_to_quaternion) {
  V3 h = any_vec_in("half", -4, 4);
  V3 e = scale3(2, h);
  g_witness = spec_mul(spec_mul(Q4(0, 0, sin(h[2]), cos(h[2])), Q4(0, sin(h[1]), 0, cos(h[1]))), Q4(sin(h[0]), 0, 0, cos(h[0])));
  Q4 q = Q4::ConvertFromEuler(e);
  EQ33("Euler angles give the 3-2-1 rotation", q.ConvertToDcm(), euler_matrix(cos(e[0]), sin(e[0]), cos(e[1]), sin(e[1]), cos(e[2]), sin(e[2])));
}
