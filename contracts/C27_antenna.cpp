// VC-SOURCES: components/real/communication/antenna.cpp components/real/communication/antenna_radiation_pattern.cpp math_physics/math/vector.cpp math_physics/math/quaternion.cpp
// VC-REPLACE: log10 WITH vc_log10
// VC-REPLACE: ~std::vector<std::vector<double.*::operator\[\]\(unsigned long\) const WITH vc_row
#include "vc_s2e.hpp"
#include "setting_file_reader/initialize_file_access.hpp"
#include "components/real/communication/antenna.hpp"
using namespace s2e; using namespace s2e::components; using s2e::math::Vector;
// decibels of the transmitted power and of the noise temperature
static double g_power, g_power_log, g_temperature, g_temperature_log;
extern "C" double vc_log10(double x) { if (x == g_power) return g_power_log; if (x == g_temperature) return g_temperature_log; return vc_uf("log10", 1, &x); }
static bool g_file; static std::string g_asked; static int g_n_numbers; static double g_number[16]; static const char* const g_key[16] = {"frequency_MHz", "tx_bitrate_bps", "tx_output_W", "rx_system_noise_temperature_K", "tx_gain_dBi", "tx_loss_feeder_dB", "tx_loss_pointing_dB", "rx_gain_dBi", "rx_loss_feeder_dB", "rx_loss_pointing_dB", "tx_theta_max_rad", "tx_phi_max_rad", "rx_theta_max_rad", "rx_phi_max_rad", "", ""};
static bool g_tx, g_rx, g_pattern; static Q4 g_b2c; static bool g_known;
// tables: cell (i, j) of the table in file "tx" holds 100 i + j, in file "rx" 10000 more
INIReader::INIReader(const std::string&) {}
namespace s2e::setting_file_reader {
static std::string g_name; static bool mine(const char* s) { return std::string(s) == "ANTENNA_3"; }
IniAccess::IniAccess(const std::string f) : ini_reader_(f) { g_name = f; }
double IniAccess::ReadDouble(const char* s, const char* k) { if (!mine(s)) g_known = false; for (int i = 0; i < 14; i++) if (std::string(k) == g_key[i]) return g_number[i]; g_known = false; return 0; }
int IniAccess::ReadInt(const char* s, const char* k) { if (!mine(s)) g_known = false; std::string n = k; if (n == "tx_length_theta") return 5; if (n == "tx_length_phi") return 3; if (n == "rx_length_theta") return 3; if (n == "rx_length_phi") return 4; g_known = false; return 1; }
bool IniAccess::ReadBoolean(const char* s, const char* k) { if (!mine(s)) g_known = false; std::string n = k; if (n == "is_transmitter") return g_tx; if (n == "is_receiver") return g_rx; g_known = false; return false; }
void IniAccess::ReadQuaternion(const char* s, const char* k, math::Quaternion& q) { if (!mine(s) || std::string(k) != "quaternion_b2c") g_known = false; q = g_b2c; }
std::string IniAccess::ReadString(const char* s, const char* k) {
  if (!mine(s)) g_known = false; std::string n = k; if (n == "tx_antenna_gain_model" || n == "rx_antenna_gain_model") { if (g_pattern) return "RADIATION_PATTERN_CSV"; return "ISOTROPIC"; }
  if (n == "tx_antenna_radiation_pattern_file") return "tx"; if (n == "rx_antenna_radiation_pattern_file") return "rx"; g_known = false; return "";
}
void IniAccess::ReadCsvDouble(std::vector<std::vector<double>>& v, const size_t n) {
  double base = 0; if (g_name == "rx") base = 10000; v.clear(); if (n > 10) { v.push_back(std::vector<double>(1, -1.0)); return; }  // (table read with its default size and replaced afterwards)
  for (size_t i = 0; i < n; i++) { std::vector<double> row; for (size_t j = 0; j < n; j++) row.push_back(base + 100.0 * (double)i + (double)j); v.push_back(row); }
}
}
// row of a table: one case for each
extern "C" const std::vector<double>* vc_row(const std::vector<std::vector<double>>* t, unsigned long n) { const std::vector<double>* b = &*t->begin(); unsigned long size = (unsigned long)(&*t->begin() == nullptr ? 0 : t->size()); vc_check("cell inside the table", n < size); for (unsigned long i = 0; i < size; i++) if (n == i) return b + i; return b; }
// row or column of a table for an angle: the nearest one of its grid
static bool nearest(double index, double length, double angle, double max) {
  double x = length * angle / max, m = vc_is_symbolic() ? 0 : 1e-9; if (index == length - 1) return x >= length - 1.5 - m; return index >= 0 && index - x <= 0.5 + m && x - index <= 0.5 + m;
}
static void cell(const char* what, double gain, int lt, double tm, int lp, double pm, double theta, double phi) {
  if (phi < 0) { if (pm > 5) phi += 2 * M_PI; else { if (tm > 5) { theta = 2 * M_PI - theta; phi += M_PI; } else phi = 0; } }
  if (theta > tm) theta = tm; if (phi > pm) phi = pm; bool found = false; for (int i = 0; i < lt; i++) for (int j = 0; j < lp; j++) if (gain == 100.0 * i + j) { found = true; vc_check(what, nearest(i, lt, theta, tm) && nearest(j, lp, phi, pm)); }
  vc_check(what, found);
}
PROP(pattern) {
  // every direction finds its cell, whatever part of the sphere the table describes
  long shape = vc_int("shape of the table", 0, 3); double tm = M_PI, pm = M_PI; if (shape == 0 || shape == 3) tm = 2 * M_PI; if (shape == 1) pm = 2 * M_PI; int lt = 5, lp = 3; if (shape == 1 || shape == 3) { lt = 3; lp = 5; } double theta = vc_real_in("theta", 0, M_PI), phi = vc_real_in("phi", -M_PI, M_PI);
  AntennaRadiationPattern p("tx", (size_t)lt, (size_t)lp, tm, pm); cell("gain of the direction", p.GetGain_dBi(theta, phi), lt, tm, lp, pm, theta, phi);
}
static void settings() {
  for (int i = 0; i < 14; i++) g_number[i] = any_real("setting", -50, 50); g_number[2] = g_power = any_pos("power", 0.1, 10); g_number[3] = g_temperature = any_pos("temperature", 50, 500); vc_assume(g_power != g_temperature); g_number[10] = 2 * M_PI; g_number[11] = M_PI; g_number[12] = M_PI; g_number[13] = 2 * M_PI;
  g_power_log = vc_is_symbolic() ? vc_real("power in decades") : std::log10(g_power); g_temperature_log = vc_is_symbolic() ? vc_real("temperature in decades") : std::log10(g_temperature); g_known = true; g_b2c = any_quat("mounting"); g_tx = vc_int("transmits", 0, 1) == 1; g_rx = vc_int("receives", 0, 1) == 1; g_pattern = false;
}
PROP(isotropic) {
  settings(); Antenna a = InitAntenna(3, "antenna"); const double* n = g_number; vc_check("settings of this antenna", g_known && a.IsTransmitter() == g_tx && a.IsReceiver() == g_rx); vc_eq("settings of this antenna", a.GetFrequency_MHz(), n[0]); vc_eq("settings of this antenna", a.GetBitrate_bps(), n[1]); EQ4("settings of this antenna", a.GetQuaternion_b2c(), g_b2c);
  double t = vc_real_in("theta", 0, M_PI), p = vc_real_in("phi", -M_PI, M_PI), e = 0, g = 0; if (g_tx) e = 10 * g_power_log + n[5] + n[6] + n[4]; if (g_rx) g = n[8] + n[9] - 10 * g_temperature_log + n[7]; vc_eq("radiated power", a.CalcTxEirp_dBW(t, p), e); vc_eq("figure of merit of the receiver", a.CalcRxGt_dB_K(t, p), g);
  Vector<5> tx; tx[0] = g_power; tx[1] = n[4]; tx[2] = n[5]; tx[3] = n[6]; tx[4] = n[1]; Vector<4> rx; rx[0] = n[7]; rx[1] = n[8]; rx[2] = n[9]; rx[3] = g_temperature; Antenna b(3, g_b2c, g_tx, g_rx, n[0], tx, rx);
  if (g_tx) vc_eq("radiated power", b.CalcTxEirp_dBW(t, p), e); if (g_rx) vc_eq("figure of merit of the receiver", b.CalcRxGt_dB_K(t, p), g); vc_eq("settings of this antenna", b.GetFrequency_MHz(), n[0]); vc_eq("settings of this antenna", b.GetBitrate_bps(), n[1]); EQ4("settings of this antenna", b.GetQuaternion_b2c(), g_b2c);
}
PROP(tables) {
  settings(); vc_assume(g_tx && g_rx); g_pattern = true; Antenna a = InitAntenna(3, "antenna"); const double* n = g_number; vc_check("settings of this antenna", g_known); double t = vc_real_in("theta", 0, M_PI), p = vc_real_in("phi", -M_PI, M_PI);
  if (vc_int("side", 0, 1) == 0) { double g = a.CalcTxEirp_dBW(t, p) - (10 * g_power_log + n[5] + n[6]); if (!vc_is_symbolic()) g = std::round(g); cell("radiated power by the table", g, 5, 2 * M_PI, 3, M_PI, t, p); }
  else { double g = a.CalcRxGt_dB_K(t, p) - (n[8] + n[9] - 10 * g_temperature_log) - 10000; if (!vc_is_symbolic()) g = std::round(g); cell("figure of merit by the table", g, 3, M_PI, 4, 2 * M_PI, t, p); }
}
