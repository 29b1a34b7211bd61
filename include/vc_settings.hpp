// settings files given by their entries: the contract states section, key and value of each entry the sample settings contain, and what a
// component made from them has to be; entries not stated there are unknown and reading one is reported
#ifndef VC_SETTINGS_HPP_
#define VC_SETTINGS_HPP_
#include "vc_noise.hpp"
#include "setting_file_reader/initialize_file_access.hpp"
struct Setting { const char* section; const char* key; double v[9]; long i; bool b; const char* s; int read; };
static Setting g_setting[48]; static int g_settings; static bool g_unknown_setting;
static bool same_text(const char* a, const char* b) { while (*a && *a == *b) { a++; b++; } return *a == *b; }
static Setting& find_setting(const char* s, const char* k) { for (int i = 0; i < g_settings; i++) if (same_text(g_setting[i].section, s) && same_text(g_setting[i].key, k)) { g_setting[i].read++; return g_setting[i]; } g_unknown_setting = true; g_setting[47].i = 1; return g_setting[47]; }
static void no_settings() { g_settings = 0; g_unknown_setting = false; }
static bool settings_known() { if (g_unknown_setting) return false; for (int i = 0; i < g_settings; i++) if (!g_setting[i].read) return false; return true; }
static Setting& set(const char* section, const char* key) { Setting& e = g_setting[g_settings++]; e.section = section; e.key = key; e.read = 0; return e; }
static double set_real(const char* s, const char* k, double lo, double hi) { double v = any_real(k, lo, hi); set(s, k).v[0] = v; return v; }
static double set_pos(const char* s, const char* k, double lo, double hi) { double v = any_pos(k, lo, hi); set(s, k).v[0] = v; return v; }
static double set_value(const char* s, const char* k, double v) { set(s, k).v[0] = v; return v; }
static long set_int(const char* s, const char* k, long v) { set(s, k).i = v; return v; }
static Setting& optional(const char* s, const char* k) { Setting& e = set(s, k); e.read = 1; return e; }  // an entry that need not be read
static bool set_bool(const char* s, const char* k) { bool v = vc_int(k, 0, 1) == 1; set(s, k).b = v; return v; }
static void set_text(const char* s, const char* k, const char* v) { set(s, k).s = v; }
static V3 set_vec(const char* s, const char* k) { V3 v = any_vec(k); Setting& e = set(s, k); for (int i = 0; i < 3; i++) e.v[i] = v[i]; return v; }
static Q4 set_quat(const char* s, const char* k) { Q4 v = any_unit_quat(k); Setting& e = set(s, k); for (int i = 0; i < 4; i++) e.v[i] = v[i]; return v; }
static M33 set_mat(const char* s, const char* k) { M33 v = any_mat(k); Setting& e = set(s, k); for (int i = 0; i < 9; i++) e.v[i] = v[i / 3][i % 3]; return v; }
INIReader::INIReader(const std::string&) {}
namespace s2e::setting_file_reader {
IniAccess::IniAccess(const std::string f) : ini_reader_(f), file_path_(f) {}
double IniAccess::ReadDouble(const char* s, const char* k) { return find_setting(s, k).v[0]; }
int IniAccess::ReadInt(const char* s, const char* k) { return (int)find_setting(s, k).i; }
bool IniAccess::ReadBoolean(const char* s, const char* k) { return find_setting(s, k).b; }
bool IniAccess::ReadEnable(const char* s, const char* k) { return find_setting(s, k).b; }
std::string IniAccess::ReadString(const char* s, const char* k) { const char* t = find_setting(s, k).s; return t ? t : ""; }
void IniAccess::ReadQuaternion(const char* s, const char* k, math::Quaternion& q) { Setting& e = find_setting(s, k); for (int i = 0; i < 4; i++) q[i] = e.v[i]; }
std::vector<double> IniAccess::ReadVectorDouble(const char* s, const char* k, const size_t n) { Setting& e = find_setting(s, k); std::vector<double> r; for (size_t i = 0; i < n && i < 9; i++) r.push_back(e.v[i]); return r; }
template <> void IniAccess::ReadVector<3>(const char* s, const char* k, math::Vector<3>& d) { Setting& e = find_setting(s, k); for (int i = 0; i < 3; i++) d[i] = e.v[i]; }
template <> void IniAccess::ReadVector<9>(const char* s, const char* k, math::Vector<9>& d) { Setting& e = find_setting(s, k); for (int i = 0; i < 9; i++) d[i] = e.v[i]; }
}
static bool near(const V3& a, const V3& b) { return vc_near(a[0], b[0]) && vc_near(a[1], b[1]) && vc_near(a[2], b[2]); }
static bool near(const Q4& a, const Q4& b) { return vc_near(a[0], b[0]) && vc_near(a[1], b[1]) && vc_near(a[2], b[2]) && vc_near(a[3], b[3]); }
static bool near(const M33& a, const M33& b) { for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) if (!vc_near(a[i][j], b[i][j])) return false; return true; }
// settings every component has: the prescaler (values below one count as one), the switch for its power port and the settings of the port
#include "components/base/component.hpp"
#include "components/ports/power_port.hpp"
static double radian(double deg) { return deg * 3.14159265358979323846 / 180.0; }
struct Common { long prescaler; bool port; double minimum, power; s2e::environment::ClockGenerator clk; s2e::components::PowerPort* p; };
static void common(Common& c, const char* section, bool may_have_port) {
  c.prescaler = 1; long k = vc_int("prescaler", 0, 3), read = 1; if (k == 0) read = -1; else if (k == 1) read = 0; else if (k == 2) { read = 7; c.prescaler = 7; } set_int(section, "prescaler", read); c.port = may_have_port && vc_int("power port", 0, 1) == 1; if (c.port) { c.minimum = set_pos("POWER_PORT", "minimum_voltage_V", 1, 5); c.power = set_pos("POWER_PORT", "assumed_power_consumption_W", 0.1, 3); c.p = new s2e::components::PowerPort(1, 10.0); }
}
static void check_common(const Common& c, const s2e::components::Component& x) {
  vc_check("all settings read from their section and key, and no other", settings_known()); vc_check("prescaler", (long)x.prescaler_ == c.prescaler); vc_check("driven by the given clock", x.clock_generator_ == &c.clk);
  if (c.port) { vc_check("powered by the given port", x.power_port_ == c.p); vc_check("needs of the port", vc_near(c.p->minimum_voltage_V_, c.minimum) && vc_near(c.p->assumed_power_consumption_W_, c.power)); } else vc_check("powered without a port", x.power_port_ != nullptr && x.power_port_->GetIsOn());
}
static bool noise(const s2e::randomization::NormalRand& r, double sd) { return vc_near(r.average_, 0) && vc_near(r.standard_deviation_, sd); }
#endif
