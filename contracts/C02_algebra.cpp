// VC-SOURCES: math_physics/math/vector.cpp math_physics/math/s2e_math.cpp
#include "vc_s2e.hpp"
#include "math_physics/math/s2e_math.hpp"
using namespace s2e::math;

PROP(vector_operations) {
  V3 a = any_vec("a"), b = any_vec("b"); double k = vc_real("k");
  V3 s = a + b, d = a - b, m = k * a, n = -a, c = OuterProduct(a, b);
  for (int i = 0; i < 3; i++) { vc_eq("vector sum", s[i], a[i] + b[i]); vc_eq("vector difference", d[i], a[i] - b[i]); vc_eq("vector scaling", m[i], k * a[i]); vc_eq("vector negation", n[i], -a[i]); }
  V3 t = a; t += b; EQ3("in-place sum", t, s);
  t = a; t -= b; EQ3("in-place difference", t, d);
  t = a; t *= k; EQ3("in-place scaling", t, m);
  vc_eq("inner product", InnerProduct(a, b), dot3(a, b));
  EQ3("outer product", c, cross3(a, b));
  vc_eq("norm squared", a.CalcNorm() * a.CalcNorm(), dot3(a, a));
  vc_check("norm non-negative", a.CalcNorm() >= 0);
  V3 f(k); EQ3("fill constructor", f, vec3(k, k, k));
  f.FillUp(a[0]); EQ3("fill", f, vec3(a[0], a[0], a[0]));
  for (size_t i = 0; i < 3; i++) vc_eq("checked element access", a(i), a[i]);
  vc_check("length", a.GetLength() == 3);
}
PROP(vector_division) {
  V3 a = any_vec("a"); double k = vc_real("k"); vc_assume(k != 0);
  V3 t = a; t /= k;
  EQ3("in-place division", scale3(k, t), a);
}
PROP(vector_other_dimensions) {
  Vector<6> a, b; for (int i = 0; i < 6; i++) { a[i] = vc_real("a"); b[i] = vc_real("b"); }
  Vector<6> s = a + b, d = a - b, m = 3.0 * a; double ip = 0;
  for (int i = 0; i < 6; i++) { vc_eq("6-vector sum", s[i], a[i] + b[i]); vc_eq("6-vector difference", d[i], a[i] - b[i]); vc_eq("6-vector scaling", m[i], 3 * a[i]); ip += a[i] * b[i]; }
  vc_eq("6-vector inner product", InnerProduct(a, b), ip);
}
PROP(vector_normalised) {
  V3 a = any_vec("a");
  V3 u = a.CalcNormalizedVector();
  double n = norm3(a);
  if (dot3(a, a) > 0) {
    vc_eq("normalised vector has unit norm", dot3(u, u), 1.0);
    EQ3("normalised vector keeps the direction", scale3(n, u), a);
  } else EQ3("zero vector stays zero", u, vec3(0, 0, 0));
}
PROP(orthogonal_unit_vector) {
  V3 a = any_vec("a"); vc_assume(dot3(a, a) > 0);
  V3 u = GenerateOrthogonalUnitVector(a);
  vc_eq("orthogonal vector has unit norm", dot3(u, u), 1.0);
  vc_eq("orthogonal vector is orthogonal", dot3(u, a), 0.0);
}
PROP(angle_between_vectors) {
  V3 a = any_vec("a"), b = any_vec("b"); vc_assume(dot3(a, a) > 0); vc_assume(dot3(b, b) > 0);
  double t = CalcAngleTwoVectors_rad(a, b);
  vc_eq("cosine of the angle between vectors", cos(t) * norm3(a) * norm3(b), dot3(a, b));
  vc_check("angle in [0, pi]", t >= 0 && sin(t) >= 0 && t <= 3.1415926535897936);
}
PROP(polar_coordinates) {
  V3 a = any_vec("a");
  V3 p = ConvertFrameOrthogonal2Polar(a);
  vc_lemma("distance from the polar axis", vc_is_symbolic() ? p[0] * sin(p[1]) == std::sqrt(a[0] * a[0] + a[1] * a[1]) : true);
  EQ3S("polar coordinates describe the same point", vec3(p[0] * sin(p[1]) * cos(p[2]), p[0] * sin(p[1]) * sin(p[2]), p[0] * cos(p[1])), a, p[0]);
  vc_check("radius non-negative", p[0] >= 0);
  vc_check("azimuth in [0, 2pi)", p[2] >= 0 && p[2] < 6.2831853071795872);
}
PROP(matrix_operations) {
  M33 a = any_mat("a"), b = any_mat("b"); V3 v = any_vec("v"); double k = vc_real("k");
  M33 s = a + b, d = a - b, m = k * a, p = a * b, t = a.Transpose(), in = MakeIdentityMatrix<3>();
  M33 ia = a, is = a, im = a; ia += b; is -= b; im *= k;
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) {
    double q = 0; for (int l = 0; l < 3; l++) q += a[i][l] * b[l][j];
    vc_eq("matrix sum", s[i][j], a[i][j] + b[i][j]); vc_eq("matrix difference", d[i][j], a[i][j] - b[i][j]);
    vc_eq("matrix scaling", m[i][j], k * a[i][j]); vc_eq("matrix product", p[i][j], q); vc_eq("transpose", t[i][j], a[j][i]);
    vc_eq("identity", in[i][j], i == j ? 1.0 : 0.0);
    vc_eq("in-place matrix sum", ia[i][j], s[i][j]); vc_eq("in-place matrix difference", is[i][j], d[i][j]); vc_eq("in-place matrix scaling", im[i][j], m[i][j]);
    vc_eq("checked matrix access", a(i, j), a[i][j]);
  }
  vc_eq("trace", a.CalcTrace(), a[0][0] + a[1][1] + a[2][2]);
  EQ3("matrix times vector", a * v, mv3(a, v));
  M33 f(k); f.FillUp(a[1][2]); EQ33("matrix fill", f, M33(a[1][2]));
}
PROP(matrix_rectangular) {
  Matrix<2, 3> a; Matrix<3, 4> b; for (int i = 0; i < 2; i++) for (int j = 0; j < 3; j++) a[i][j] = vc_real("a");
  for (int i = 0; i < 3; i++) for (int j = 0; j < 4; j++) b[i][j] = vc_real("b");
  Matrix<2, 4> p = a * b; Matrix<3, 2> t = a.Transpose();
  for (int i = 0; i < 2; i++) for (int j = 0; j < 4; j++) { double q = 0; for (int l = 0; l < 3; l++) q += a[i][l] * b[l][j]; vc_eq("rectangular product", p[i][j], q); }
  for (int i = 0; i < 2; i++) for (int j = 0; j < 3; j++) vc_eq("rectangular transpose", t[j][i], a[i][j]);
}
PROP(rotation_matrices) {
  double t = vc_real("t"); V3 v = any_vec("v");
  M33 x = MakeRotationMatrixX<3>(t), y = MakeRotationMatrixY<3>(t), z = MakeRotationMatrixZ<3>(t);
  EQ3("frame rotation about X", x * v, vec3(v[0], cos(t) * v[1] + sin(t) * v[2], -sin(t) * v[1] + cos(t) * v[2]));
  EQ3("frame rotation about Y", y * v, vec3(cos(t) * v[0] - sin(t) * v[2], v[1], sin(t) * v[0] + cos(t) * v[2]));
  EQ3("frame rotation about Z", z * v, vec3(cos(t) * v[0] + sin(t) * v[1], -sin(t) * v[0] + cos(t) * v[1], v[2]));
}
template <size_t N> static void inverse_contract(const char* left, const char* right) {
  vc_option("merge");
  if (N > 2) vc_option("allow-throw");  // a 3x3 matrix reported as singular is refused; for 2x2 the report is proved to be right
  Matrix<N, N> m; for (size_t i = 0; i < N; i++) for (size_t j = 0; j < N; j++) m[i][j] = vc_real("m");
  double det = N == 2 ? m[0][0] * m[1][1] - m[0][1] * m[1][0]
      : m[0][0] * (m[1][1] * m[N - 1][N - 1] - m[1][N - 1] * m[N - 1][1]) - m[0][1] * (m[1][0] * m[N - 1][N - 1] - m[1][N - 1] * m[N - 1][0]) + m[0][N - 1] * (m[1][0] * m[N - 1][1] - m[1][1] * m[N - 1][0]);
  vc_assume(vc_is_symbolic() ? det != 0 : det * det > 1e-6);
  Matrix<N, N> r = CalcInverseMatrix(m);
  Matrix<N, N> p = m * r;
  for (size_t i = 0; i < N; i++) for (size_t j = 0; j < N; j++) vc_eq("matrix times inverse is the identity", p[i][j], i == j ? 1.0 : 0.0);
}
PROP(inverse2) { inverse_contract<2>("", ""); }
PROP(inverse3) { inverse_contract<3>("", ""); }
