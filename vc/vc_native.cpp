// Native implementation of the contract intrinsics: random search / replay against the real code.
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <map>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <csignal>
#include <unistd.h>
#include "vc.hpp"
struct VcSkip {};
static std::mt19937_64 rng;
static std::map<std::string, std::string> given;
static std::map<std::string, int> names;
static std::vector<std::pair<std::string, std::string>> log_;
static std::map<std::string, long> reached;
static std::string fail_label, fail_detail;
static long trial_ = 0;
static bool allow_throw = false;
static double u01() { return std::uniform_real_distribution<double>(0, 1)(rng); }
static double gauss() { return std::normal_distribution<double>(0, 1)(rng); }
static double draw_real() {
  double k = u01();
  if (k < 0.45) return gauss();
  if (k < 0.65) return gauss() * 10;
  if (k < 0.75) return std::exp(-7 + 19 * u01()) * (u01() < 0.5 ? -1 : 1);
  if (k < 0.85) return (double)((long)(rng() % 7) - 3);
  if (k < 0.90) return 0;
  return 2 * u01() - 1;
}
static double draw_range(double lo, double hi) {
  double k = u01();
  if (k < 0.06) return lo;
  if (k < 0.12) return hi;
  if (k < 0.16 && lo <= 0 && 0 <= hi) return 0;
  if (k < 0.30 && lo > 0 && hi / lo > 100) return std::min(hi, std::max(lo, std::exp(std::log(lo) + u01() * (std::log(hi) - std::log(lo)))));
  if (k < 0.38) { double v = (double)((long)(rng() % 7) - 3); if (lo <= v && v <= hi) return v; }
  return lo + (hi - lo) * u01();
}
static uint64_t draw_bv(int w) {
  double k = u01(); uint64_t M = w == 64 ? ~0ull : ((1ull << w) - 1);
  if (k < 0.3) return rng() % (w < 3 ? (1ull << w) : 8);
  if (k < 0.4) return M - rng() % 4;
  if (k < 0.5) return (1ull << (w - 1)) - (rng() & 1);
  if (k < 0.7) return rng() & 1023 & M;
  return rng() & M;
}
static std::string nm(const char* b) {
  int k = names[b]++;
  return k == 0 ? std::string(b) : std::string(b) + "#" + std::to_string(k);
}
static double parse(const std::string& s) { return strtod(s.c_str(), nullptr); }
static double real_(const std::string& n, double v) {
  auto it = given.find(n);
  if (it != given.end()) v = parse(it->second);
  char b[64]; snprintf(b, sizeof b, "%.17g", v); log_.push_back({n, b}); return v;
}
static uint64_t int_(const std::string& n, uint64_t v) {
  auto it = given.find(n);
  if (it != given.end()) v = it->second[0] == '-' ? (uint64_t)strtoll(it->second.c_str(), nullptr, 0) : strtoull(it->second.c_str(), nullptr, 0);
  log_.push_back({n, std::to_string(v)}); return v;
}
static void dump() {
  for (auto& p : log_) printf("INPUT %s %s\n", p.first.c_str(), p.second.c_str());
  fflush(stdout);
}
static void failed(const char* label, const std::string& d) { if (fail_label.empty()) { fail_label = label; fail_detail = d; } }
extern "C" {
double vc_real(const char* n) { return real_(nm(n), draw_real()); }
double vc_real_in(const char* n, double lo, double hi) { double v = real_(nm(n), draw_range(lo, hi)); if (!(lo <= v && v <= hi)) throw VcSkip(); return v; }
long vc_int(const char* n, long lo, long hi) {
  double k = u01(); long v;
  unsigned long span = (unsigned long)hi - (unsigned long)lo;
  if (k < 0.1) v = lo; else if (k < 0.2) v = hi; else if (k < 0.3) v = span ? lo + 1 : lo;
  else if (k < 0.5) { v = (long)(rng() % 13) - 2; if (v < lo) v = lo; if (v > hi) v = hi; }
  else v = span == ~0ul ? (long)rng() : (long)((unsigned long)lo + rng() % (span + 1));
  v = (long)int_(nm(n), (uint64_t)v); if (v < lo || v > hi) throw VcSkip(); return v;
}
uint64_t vc_u64(const char* n) { return int_(nm(n), draw_bv(64)); }
uint32_t vc_u32(const char* n) { return (uint32_t)int_(nm(n), draw_bv(32)); }
uint16_t vc_u16(const char* n) { return (uint16_t)int_(nm(n), draw_bv(16)); }
uint8_t vc_u8(const char* n) { return (uint8_t)int_(nm(n), draw_bv(8)); }
bool vc_bool(const char* n) { return int_(nm(n), rng() & 1) != 0; }
void vc_unit(const char* n, double* out, size_t k) {
  std::string base = n; int c = names[base + "!u"]++; if (c) base += "!" + std::to_string(c);
  std::vector<double> g(k); double q = 0;
  if (u01() < 0.1) { g[rng() % k] = (rng() & 1) ? 1 : -1; q = 1; }
  else for (size_t i = 0; i < k; i++) { g[i] = gauss(); q += g[i] * g[i]; }
  double r = 0;
  for (size_t i = 0; i < k; i++) { out[i] = real_(nm((base + "." + std::to_string(i)).c_str()), g[i] / std::sqrt(q)); r += out[i] * out[i]; }
  if (std::fabs(r - 1) > 1e-9) throw VcSkip();
}
double vc_uf(const char* n, size_t k, const double* a) {
  uint64_t h = 1469598103934665603ull; for (const char* p = n; *p; p++) { h ^= (unsigned char)*p; h *= 1099511628211ull; }
  double s = 0; for (size_t i = 0; i < k; i++) s += a[i] * (0.37 + ((h >> (5 * (i % 12))) & 31) / 29.0);
  return std::sin(s + (h & 255)) + 0.3 * std::cos(1.7 * s) + 0.1 * s;
}
void vc_bytes(const char* n, void* p, size_t k, size_t es) {
  std::string base = n; int c = names[base + "!b"]++; if (c) base += "#" + std::to_string(c);
  for (size_t i = 0; i < k; i++) {
    std::string e = base + "[" + std::to_string(i) + "]";
    if (es == 8) ((double*)p)[i] = real_(e, draw_real());
    else if (es == 4) ((uint32_t*)p)[i] = (uint32_t)int_(e, draw_bv(32));
    else if (es == 2) ((uint16_t*)p)[i] = (uint16_t)int_(e, draw_bv(16));
    else ((uint8_t*)p)[i] = (uint8_t)int_(e, draw_bv(8));
  }
}
void vc_assume(bool c) { if (!c) throw VcSkip(); }
void vc_check(const char* l, bool c) { reached[l]++; if (!c) failed(l, "condition is false"); }
void vc_lemma(const char* l, bool c) { vc_check(l, c); if (!c) throw VcSkip(); }
void vc_eqs(const char* l, double a, double b, double scale) {
  reached[l]++;
  double tol = 1e-6 * std::max(std::fabs(scale), std::max(std::fabs(a), std::fabs(b)));
  if (!(std::fabs(a - b) <= tol)) { char d[160]; snprintf(d, sizeof d, "left %.17g right %.17g", a, b); failed(l, d); }
}
void vc_eq(const char* l, double a, double b) { vc_eqs(l, a, b, 1.0); }
void vc_trust(const char*, bool c) { if (!c) throw VcSkip(); }
void vc_option(const char* o) { if (!strcmp(o, "allow-throw")) allow_throw = true; }
void vc_assumption(const char*) {}
void vc_inv(bool) {}
void vc_loop_frame(void*) {}
int vc_near(double a, double b) { return std::fabs(a - b) < 1e-9; }
int vc_same(const double* a, const double* b, int n) { for (int i = 0; i < n; i++) if (a[i] != b[i]) return 0; return 1; }
void vc_loop_field(void*, int) {}
int vc_is_symbolic() { return 0; }
void vc_print(const char* w, double v) { fprintf(stderr, "PRINT %s %.17g\n", w, v); }
void vc_forget(const char*, double*) {}
}
#define X(n) extern "C" void n();
#include "vc_roots.inc"
#undef X
static void crash(int sig) { printf("CRASH signal %d trial %ld\n", sig, trial_); dump(); _exit(77); }
extern "C" void __asan_on_error() { printf("CRASH sanitizer trial %ld\n", trial_); dump(); }
int main(int argc, char** argv) {
  // usage: prog root seed trials [inputs-file] ; inputs lines "name value"
  std::string root = argc > 1 ? argv[1] : "*"; uint64_t seed = argc > 2 ? strtoull(argv[2], 0, 10) : 1; long n = argc > 3 ? atol(argv[3]) : 1000;
  if (argc > 4) { std::ifstream f(argv[4]); std::string line; while (std::getline(f, line)) { std::istringstream s(line); std::string a, b; if (s >> a >> b) given[a] = b; } }
  std::map<std::string, void (*)()> roots;
#define X(n) roots[#n] = n;
#include "vc_roots.inc"
#undef X
  signal(SIGABRT, crash); signal(SIGALRM, crash); signal(SIGFPE, crash);
  int rc = 0;
  for (auto& r : roots) {
    if (root != "*" && root != r.first) continue;
    reached.clear();
    long done = 0, skip = 0; double t0 = time(0); bool bad = false;
    for (long i = 0; i < n; i++) {
      trial_ = i; rng.seed(seed * 1000003 + i); names.clear(); log_.clear(); fail_label.clear(); allow_throw = false;
      alarm(20);
      bool skipped = false;
      try { r.second(); done++; }
      catch (VcSkip&) { skip++; skipped = true; }
      catch (...) { if (!allow_throw) failed("abnormal termination", "uncaught C++ exception"); else done++; }
      alarm(0);
      if (!fail_label.empty()) {
        printf("FAIL root %s label %s : %s\n", r.first.c_str(), fail_label.c_str(), fail_detail.c_str()); dump(); rc = 1; bad = true;
        break;
      }
      (void)skipped;
      if (time(0) - t0 > 20) break;
    }
    if (!bad) { printf("OK root %s done %ld skipped %ld\n", r.first.c_str(), done, skip); for (auto& p : reached) printf("REACHED %s %s %ld\n", r.first.c_str(), p.first.c_str(), p.second); }
  }
  fflush(stdout);
  return rc;
}
