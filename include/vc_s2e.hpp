// helpers shared by the contracts
#ifndef VC_S2E_HPP_
#define VC_S2E_HPP_
#include <cmath>
#include <stdexcept>
#include "math_physics/math/constants.hpp"
#include "math_physics/math/vector.hpp"
#include "math_physics/math/matrix.hpp"
#include "math_physics/math/matrix_vector.hpp"
#include "math_physics/math/quaternion.hpp"
#include "vc.hpp"
#define PROP(name) extern "C" void vc_prop_##name()
typedef s2e::math::Vector<3> V3;
typedef s2e::math::Matrix<3, 3> M33;
typedef s2e::math::Quaternion Q4;
static inline V3 any_vec(const char* n) { V3 v; v[0] = vc_real(n); v[1] = vc_real(n); v[2] = vc_real(n); return v; }
static inline V3 any_vec_in(const char* n, double lo, double hi) { V3 v; v[0] = vc_real_in(n, lo, hi); v[1] = vc_real_in(n, lo, hi); v[2] = vc_real_in(n, lo, hi); return v; }
static inline V3 any_unit3(const char* n) { double u[3]; vc_unit(n, u, 3); V3 v; v[0] = u[0]; v[1] = u[1]; v[2] = u[2]; return v; }
static inline Q4 any_quat(const char* n) { double a = vc_real(n), b = vc_real(n), c = vc_real(n), d = vc_real(n); return Q4(a, b, c, d); }
static inline Q4 any_unit_quat(const char* n) { double u[4]; vc_unit(n, u, 4); return Q4(u[0], u[1], u[2], u[3]); }
static inline M33 any_mat(const char* n) { M33 m; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) m[i][j] = vc_real(n); return m; }
static inline double sq(double x) { return x * x; }
static inline double dot3(const V3& a, const V3& b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
static inline V3 cross3(const V3& a, const V3& b) { V3 c; c[0] = a[1] * b[2] - a[2] * b[1]; c[1] = a[2] * b[0] - a[0] * b[2]; c[2] = a[0] * b[1] - a[1] * b[0]; return c; }
static inline V3 add3(const V3& a, const V3& b) { V3 c; for (int i = 0; i < 3; i++) c[i] = a[i] + b[i]; return c; }
static inline V3 sub3(const V3& a, const V3& b) { V3 c; for (int i = 0; i < 3; i++) c[i] = a[i] - b[i]; return c; }
static inline V3 scale3(double k, const V3& a) { V3 c; for (int i = 0; i < 3; i++) c[i] = k * a[i]; return c; }
static inline double norm3(const V3& a) { return std::sqrt(dot3(a, a)); }
static inline V3 vec3(double a, double b, double c) { V3 v; v[0] = a; v[1] = b; v[2] = c; return v; }
static inline V3 mv3(const M33& m, const V3& v) { V3 r; for (int i = 0; i < 3; i++) r[i] = m[i][0] * v[0] + m[i][1] * v[1] + m[i][2] * v[2]; return r; }
// rotation of the frame by the unit quaternion q, written from the definition (independent of the code under contract):
// v_b = (q3^2 - |u|^2) v + 2 (u.v) u - 2 q3 (u x v)
static inline V3 spec_i2b(const Q4& q, const V3& v) {
  V3 u = vec3(q[0], q[1], q[2]); double w = q[3];
  return sub3(add3(scale3(w * w - dot3(u, u), v), scale3(2 * dot3(u, v), u)), scale3(2 * w, cross3(u, v)));
}
static inline V3 spec_b2i(const Q4& q, const V3& v) {
  V3 u = vec3(q[0], q[1], q[2]); double w = q[3];
  return add3(add3(scale3(w * w - dot3(u, u), v), scale3(2 * dot3(u, v), u)), scale3(2 * w, cross3(u, v)));
}
// Hamilton product, written from the definition
static inline Q4 spec_mul(const Q4& p, const Q4& q) {
  V3 a = vec3(p[0], p[1], p[2]), b = vec3(q[0], q[1], q[2]);
  V3 v = add3(add3(scale3(p[3], b), scale3(q[3], a)), cross3(a, b));
  return Q4(v[0], v[1], v[2], p[3] * q[3] - dot3(a, b));
}
static inline double qnorm2(const Q4& q) { return q[0] * q[0] + q[1] * q[1] + q[2] * q[2] + q[3] * q[3]; }
// arbitrary positive real (the range is only used to draw native inputs)
static inline double any_pos(const char* n, double lo, double hi) {
  if (!vc_is_symbolic()) return vc_real_in(n, lo, hi);
  double x = vc_real(n); vc_assume(x > 0); return x;
}
static inline double any_real(const char* n, double lo, double hi) { return vc_is_symbolic() ? vc_real(n) : vc_real_in(n, lo, hi); }
#define EQ3(label, a, b) do { V3 _a = (a), _b = (b); vc_eq(label, _a[0], _b[0]); vc_eq(label, _a[1], _b[1]); vc_eq(label, _a[2], _b[2]); } while (0)
#define EQ3S(label, a, b, s) do { V3 _a = (a), _b = (b); vc_eqs(label, _a[0], _b[0], s); vc_eqs(label, _a[1], _b[1], s); vc_eqs(label, _a[2], _b[2], s); } while (0)
#define EQ4(label, a, b) do { Q4 _a = (a), _b = (b); vc_eq(label, _a[0], _b[0]); vc_eq(label, _a[1], _b[1]); vc_eq(label, _a[2], _b[2]); vc_eq(label, _a[3], _b[3]); } while (0)
#define EQ33(label, a, b) do { M33 _a = (a), _b = (b); for (int _i = 0; _i < 3; _i++) for (int _j = 0; _j < 3; _j++) vc_eq(label, _a[_i][_j], _b[_i][_j]); } while (0)
#endif
