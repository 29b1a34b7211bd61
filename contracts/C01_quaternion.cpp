// VC-REPLACE: acos WITH vc_acos
// VC-SOURCES: math_physics/math/quaternion.cpp math_physics/math/vector.cpp
#include "vc_s2e.hpp"
using namespace s2e::math;

PROP(quat_product_is_hamilton) {
  Q4 p = any_quat("p"), q = any_quat("q");
  EQ4("quaternion product is the Hamilton product", p * q, spec_mul(p, q));
  V3 v = any_vec("v");
  EQ4("quaternion times vector is the Hamilton product with a pure quaternion", p * v, spec_mul(p, Q4(v[0], v[1], v[2], 0.0)));
  Q4 s = p + q, d = p - q, k = 2.5 * p;
  for (int i = 0; i < 4; i++) { vc_eq("sum", s[i], p[i] + q[i]); vc_eq("difference", d[i], p[i] - q[i]); vc_eq("scaling", k[i], 2.5 * p[i]); }
}
PROP(quat_product_associative_norm) {
  Q4 p = any_quat("p"), q = any_quat("q"), r = any_quat("r");
  EQ4("product associative", (p * q) * r, p * (q * r));
  vc_eq("norm multiplicative", qnorm2(p * q), qnorm2(p) * qnorm2(q));
  Q4 c = p.Conjugate();
  Q4 pc = p * c;
  EQ4("q times conjugate is the squared norm", pc, Q4(0, 0, 0, qnorm2(p)));
}
PROP(quat_frame_conversion) {
  Q4 q = any_unit_quat("q"); V3 v = any_vec("v");
  V3 b = q.FrameConversion(v);
  EQ3("frame conversion is the rotation", b, spec_i2b(q, v));
  vc_eq("frame conversion keeps length", dot3(b, b), dot3(v, v));
  V3 i = q.InverseFrameConversion(v);
  EQ3("inverse frame conversion is the inverse rotation", i, spec_b2i(q, v));
  EQ3("round trip inverse(forward)", q.InverseFrameConversion(b), v);
  EQ3("round trip forward(inverse)", q.FrameConversion(i), v);
  M33 dcm = q.ConvertToDcm();
  EQ3("dcm agrees with frame conversion", dcm * v, b);
}
PROP(quat_frame_conversion_composes) {
  Q4 p = any_unit_quat("p"), q = any_unit_quat("q"); V3 v = any_vec("v");
  EQ3("product composes frame conversions", (p * q).FrameConversion(v), q.FrameConversion(p.FrameConversion(v)));
}
PROP(quat_dcm_is_rotation) {
  Q4 q = any_unit_quat("q");
  M33 m = q.ConvertToDcm();
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) {
    double s = 0; for (int k = 0; k < 3; k++) s += m[i][k] * m[j][k];
    vc_eq("dcm orthogonal", s, i == j ? 1.0 : 0.0);
  }
  double det = m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0]) + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]);
  vc_eq("dcm determinant 1", det, 1.0);
}
PROP(quat_normalize) {
  Q4 q = any_quat("q"); Q4 o = q;
  vc_assume(qnorm2(q) > 0);
  Q4 r = q.Normalize();
  vc_eq("normalized quaternion has unit norm", qnorm2(r), 1.0);
  for (int i = 0; i < 4; i++) {
    vc_eq("normalisation modifies the object", q[i], r[i]);
    vc_eq("normalisation keeps the direction", r[i] * std::sqrt(qnorm2(o)), o[i]);
  }
}
PROP(quat_from_dcm_round_trip) {
  Q4 q = any_unit_quat("q");
  M33 m = q.ConvertToDcm();
  Q4 r = Q4::ConvertFromDcm(m);
  vc_eq("quaternion from dcm has unit norm", qnorm2(r), 1.0);
  EQ33("dcm -> quaternion -> dcm is the identity", r.ConvertToDcm(), m);
}
PROP(quat_axis_angle) {
  V3 a = any_unit3("axis"); double th = vc_real_in("angle", -10, 10);
  Q4 q(a, th);
  vc_eq("axis-angle quaternion has unit norm", qnorm2(q), 1.0);
  V3 v = any_vec("v");
  // Rodrigues: frame rotated by th about the axis
  V3 e = add3(add3(scale3(cos(th), v), scale3(-sin(th), cross3(a, v))), scale3((1 - cos(th)) * dot3(a, v), a));
  EQ3("axis-angle quaternion rotates the frame by the angle", q.FrameConversion(v), e);
}
// The pair of directions is parametrised by a frame (rows of an arbitrary rotation) and the angle 2h between them:
// before = k1 r0, after = k2 (cos 2h r0 + sin 2h r1); every pair of non-parallel vectors has this form.
static double g_half;
extern "C" double vc_acos(double x) {
  vc_eq("acos is applied to the cosine of the enclosed angle", x, cos(2 * g_half));
  return 2 * g_half;  // acos(cos t) = t for t in [0, pi]
}
PROP(quat_two_vectors) {
  Q4 p = any_unit_quat("frame");
  M33 m = p.ConvertToDcm();
  V3 r0 = vec3(m[0][0], m[0][1], m[0][2]), r1 = vec3(m[1][0], m[1][1], m[1][2]);
  g_half = vc_real_in("half_angle", 0.0001, 1.5706);
  double c = cos(g_half), s = sin(g_half);
  vc_assume(c >= 1e-6); vc_assume(s >= 1e-6);
  double k1 = vc_real_in("k1", 1e-6, 1e6), k2 = vc_real_in("k2", 1e-6, 1e6);
  V3 before = scale3(k1, r0);
  V3 dir = add3(scale3(c * c - s * s, r0), scale3(2 * s * c, r1));
  V3 after = scale3(k2, dir);
  vc_assumption("every pair of non-parallel vectors is k1 r0, k2 (cos 2h r0 + sin 2h r1) for a rotation's rows r0, r1; acos(cos t) = t on [0, pi]");
  Q4 q(before, after);
  vc_eq("two-vector quaternion has unit norm", qnorm2(q), 1.0);
  EQ3("two-vector quaternion carries one direction to the other", q.InverseFrameConversion(r0), dir);
}
