// VC-SOURCES: math_physics/geomagnetic/igrf.cpp math_physics/orbit/sgp4/sgp4ext.cpp
// VC-REPLACE: sin WITH vc_sin
// VC-REPLACE: cos WITH vc_cos
// VC-REPLACE: strcpy WITH vc_strcpy
// VC-REPLACE: strncpy WITH vc_strncpy
// VC-REPLACE: strstr WITH vc_strstr
// VC-REPLACE: strlen WITH vc_strlen
// VC-REPLACE: snprintf WITH vc_snprintf
// VC-REPLACE: fopen WITH vc_fopen
// VC-REPLACE: fclose WITH vc_fclose
// VC-REPLACE: fgets WITH vc_fgets
// VC-REPLACE: __isoc23_sscanf WITH vc_sscanf
#define VC_ANGLE_LABEL "coefficients of the interval that holds the year"
#include "vc_igrf.hpp"
#include <cstdio>
#include <cstring>
#include <fstream>
#include <unistd.h>
#include "math_physics/geomagnetic/igrf.h"
// the coefficient file: a header, the years, and a line of values per coefficient
static int g_order, g_columns, g_line, g_opened; static double g_year[8], g_value[128][8]; static char* g_base; static char g_name[64];
extern "C" unsigned long vc_strlen(const char* s) { unsigned long n = 0; while (s[n]) n++; return n; }
extern "C" char* vc_strcpy(char* d, const char* s) { int i = 0; do d[i] = s[i]; while (s[i++]); return d; }
extern "C" char* vc_strncpy(char* d, const char* s, unsigned long n) { bool end = false; for (unsigned long i = 0; i < n; i++) { if (!s[i]) end = true; d[i] = end ? 0 : s[i]; } return d; }
extern "C" const char* vc_strstr(const char* s, const char* t) { for (; *s; s++) { int i = 0; while (t[i] && s[i] == t[i]) i++; if (!t[i]) return s; } return nullptr; }
extern "C" int vc_snprintf(char* d, unsigned long n, const char* f, int gen) { d[0] = '0' + gen / 10; d[1] = '0' + gen % 10; d[2] = 0; return 2; }
static bool same(const char* a, const char* b) { while (*a && *a == *b) a++, b++; return *a == *b; }
extern "C" FILE* vc_fopen(const char* n, const char* mode) { g_opened++; g_line = -1; vc_check("the model's coefficient file is read", same(n, g_name)); return (FILE*)g_name; }
extern "C" int vc_fclose(FILE*) { return 0; }
extern "C" char* vc_fgets(char* buf, int n, FILE*) { g_line++; g_base = buf; buf[0] = 'l'; buf[1] = 0; return buf; }
extern "C" int vc_sscanf(const char* s, const char* f, void* a, void* b, void* c, void* d) {
  int at = (int)(s - g_base), k = (at - 6) / 4;   // values stand in columns of four characters behind the first six
  if (g_line == 0 && same(f, "%d%d%lf%lf")) { *(int*)a = g_order; *(int*)b = g_columns; *(double*)c = 1900; *(double*)d = 2030; return 4; }
  if (g_line == 1 && at < 2 && same(f, "%*c%*d%*d%lf%n")) { *(double*)a = g_year[0]; *(int*)b = 10 - at; return 1; }
  if (g_line == 1 && at >= 10 && (at - 6) % 4 == 0 && same(f, "%lf%n")) { *(double*)a = g_year[k]; *(int*)b = 4; return 1; }
  if (g_line > 1 && at == 0 && same(f, "%*c%*d%*d%n")) { *(int*)a = 6; return 0; }
  if (g_line > 1 && at >= 6 && (at - 6) % 4 == 0 && same(f, "%*f%n")) { *(int*)a = 4; return 0; }
  if (g_line > 1 && at >= 6 && (at - 6) % 4 == 0 && same(f, "%lf%lf")) { *(double*)a = g_value[g_line - 2][k]; *(double*)b = g_value[g_line - 2][k + 1]; return 2; }
  vc_check("the model's coefficient file is read", false); return 0;
}
static void file() {
  if (vc_is_symbolic()) { std::strcpy(g_name, "data/igrf13.coef"); return; }
  std::string p = "/tmp/vc_13_" + std::to_string(getpid()); std::strcpy(g_name, p.c_str()); std::ofstream f(p); f.precision(17); f << "   " << g_order << " " << g_columns << " 1900 2030\ny  0  0";
  for (int k = 0; k < g_columns - 1; k++) f << " " << g_year[k]; f << " 2020-25\n"; int i = 0;
  for (int n = 1; n <= g_order; n++) for (int m = 0; m <= n; m++) for (int h = 0; h < (m ? 2 : 1); h++, i++) { f << (h ? "h " : "g ") << n << " " << m; for (int k = 0; k < g_columns; k++) f << " " << g_value[i][k]; f << "\n"; }
}
template <bool last> __attribute__((noinline)) static void verify(int j, double year) {
  int i = 0; for (int n = 1; n <= g_order; n++) for (int m = 0; m <= n; m++) for (int h = 0; h < (m ? 2 : 1); h++, i++) {
    double a = g_value[i][j], d = last ? g_value[i][j + 1] : (g_value[i][j + 1] - g_value[i][j]) / (g_year[j + 1] - g_year[j]); if (h) { A[n][m - 1] = a; D[n][m - 1] = d; } else { A[m][n] = a; D[m][n] = d; }
  }
  double col = std::atan2(0.6, 0.8), lon = std::atan2(0.28, 0.96), B[3], E[3], F; g_n = 2; g_angle[0] = col; g_s[0] = 0.6; g_c[0] = 0.8; g_angle[1] = lon; g_s[1] = 0.28; g_c[1] = 0.96;
  mfldc(col * 180 / M_PI, lon * 180 / M_PI, 7000, &B[0], &B[1], &B[2], &F); expected(g_order, year - g_year[j], 0.8, 0.6, 0.96, 0.28, 6371.2 / 7000, E);
  for (int x = 0; x < 3; x++) vc_eqs("coefficients of the interval that holds the year", B[x], E[x], 1000);
}
__attribute__((noinline)) static void coefficients(int order, int columns) {
  g_order = order; g_columns = columns; int lines = (g_order + 1) * (g_order + 1) - 1;
  for (int k = 0; k < 4; k++) g_year[k] = 2000 + 5 * k + (k == 2 ? 1 : 0);
  bool zonal = vc_bool("last degree is zonal"), empty = !zonal && vc_bool("last degree is empty");
  static const int pick[3] = {0, 40, 79}; int e = 0; while (e < (order == 8 && columns == 5 ? 2 : 0) && vc_bool("next coefficient")) e++;
  for (int i = 0; i < lines; i++) for (int k = 0; k < g_columns; k++) { double v = ((i * 37 + k * 101 + 13) % 211 - 105.5) / 10; if (i > g_order * g_order - 1 && (zonal || empty)) v = 0; if (i == g_order * g_order - 1 && empty) v = 0; g_value[i][k] = v; }
  if (!(zonal || empty) || pick[e] < g_order * g_order - 1) for (int k = 0; k < g_columns; k++) g_value[pick[e]][k] = any_real("coefficient", -100, 100);
  double year = vc_real_in("year", 1995, 2030); file(); set_file_path(g_name); gigrf(13, year);
  int j = 0; while (j < g_columns - 3 && year >= g_year[j + 1]) j++;                 // interval that holds the year; the last epoch goes on with its rate of change
  if (g_columns == 2) verify<true>(0, year); else if (year >= g_year[g_columns - 2]) verify<true>(g_columns - 2, year); else verify<false>(j, year);
  if (!vc_is_symbolic()) unlink(g_name);
}
PROP(coefficients) {
  vc_assumption("files of degree 8 or 9 with up to four epochs, all coefficients but one fixed (bounded)"); vc_option("loop-limit=1000000"); vc_option("step-limit=1000000000");
  g_n = 0; if (vc_bool("degree 9")) coefficients(9, 5); else if (vc_bool("one epoch")) coefficients(8, 2); else if (vc_bool("two epochs")) coefficients(8, 3); else coefficients(8, 5);
}
