// shared by the contracts of the geomagnetic field model: its functions, angles known by sine and cosine, and the field as the gradient of the potential
#ifndef VC_IGRF_HPP_
#define VC_IGRF_HPP_
#include "vc_s2e.hpp"
void field(double are, double aflat, double ara, int maxoda);
void tcoef(double agh[20][20], double aght[20][20], double atzero, int kexta, double aext[3]);
void tyear(double ayear);
void mfldc(double athe, double alon, double ar, double* ax, double* ay, double* az, double* af);
// angles are known by their sine and cosine
static double g_angle[16], g_s[16], g_c[16]; static int g_n;
static void angle(const char* name, double x, double* s, double* c) {
  if (!vc_is_symbolic()) { *s = std::sin(x); *c = std::cos(x); return; }
  double u[2]; vc_unit(name, u, 2); g_angle[g_n] = x; g_c[g_n] = *c = u[0]; g_s[g_n++] = *s = u[1];
}
extern "C" double vc_sin(double x) { for (int i = 0; i < g_n; i++) { if (vc_near(x, g_angle[i])) return g_s[i]; if (vc_near(x, -g_angle[i])) return -g_s[i]; } vc_check(VC_ANGLE_LABEL, false); return 0; }
extern "C" double vc_cos(double x) { for (int i = 0; i < g_n; i++) if (vc_near(x, g_angle[i]) || vc_near(x, -g_angle[i])) return g_c[i]; vc_check(VC_ANGLE_LABEL, false); return 0; }
static double ipow(double x, int k) { double p = 1; for (int i = 0; i < k; i++) p *= x; return p; }
static double fact(int k) { double f = 1; for (int i = 2; i <= k; i++) f *= i; return f; }
// q(c), q'(c) with P_nm = s^m q(c), Schmidt semi-normalised, Legendre functions from their explicit sum
static void legendre(int n, int m, const double* cp, double* q, double* d) {
  *q = *d = 0; double N = sqrt((m ? 2 : 1) * fact(n - m) / fact(n + m));
  for (int k = 0; 2 * k <= n - m; k++) { double e = N * ((k & 1) ? -1.0 : 1.0) * fact(2 * n - 2 * k) / (ipow(2, n) * fact(k) * fact(n - k) * fact(n - 2 * k - m)); int p = n - 2 * k - m; *q += e * cp[p]; if (p) *d += e * p * cp[p - 1]; }
}
static double A[20][20], D[20][20];
// north, east and down component of minus the gradient of a sum (a/r)^(n+1) (g cos m lon + h sin m lon) P_nm(cos colatitude)
static void expected(int N, double t, double c, double s, double cl, double sl, double f, double* B) {
  static double cp[20], cm[20], sm[20]; cp[0] = cm[0] = 1; sm[0] = 0; B[0] = B[1] = B[2] = 0;
  for (int i = 1; i <= N; i++) { cp[i] = cp[i - 1] * c; cm[i] = cm[i - 1] * cl - sm[i - 1] * sl; sm[i] = sm[i - 1] * cl + cm[i - 1] * sl; }
  for (int n = 1; n <= N; n++) for (int m = 0; m <= n; m++) {
    double q, d, g = A[m][n] + D[m][n] * t, h = m ? A[n][m - 1] + D[n][m - 1] * t : 0, k = ipow(f, n + 2), C = g * cm[m] + h * sm[m], S = g * sm[m] - h * cm[m]; legendre(n, m, cp, &q, &d);
    B[0] += k * C * ((m ? m * ipow(s, m - 1) * c * q : 0) - ipow(s, m + 1) * d); B[1] += m ? k * m * S * ipow(s, m - 1) * q : 0; B[2] -= (n + 1) * k * C * ipow(s, m) * q;
  }
}
#endif
