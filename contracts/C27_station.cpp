// VC-SOURCES: simulation/ground_station/ground_station.cpp math_physics/geodesy/geodetic_position.cpp math_physics/math/vector.cpp math_physics/math/quaternion.cpp
// VC-REPLACE: ~s2e::math::Vector<3ul, double>::CalcNorm\(.* WITH vc_norm
// VC-REPLACE: s2e::math::Quaternion::FrameConversion WITH vc_frame
// VC-REPLACE: std::filesystem::__cxx11::path::_M_split_cmpts WITH vc_nothing
// VC-REPLACE: std::filesystem::__cxx11::path::_List::_List WITH vc_nothing
// VC-REPLACE: std::filesystem::__cxx11::path::_List::_Impl_deleter::operator() WITH vc_nothing
#include "vc_s2e.hpp"
#include "setting_file_reader/initialize_file_access.hpp"
#include "simulation/ground_station/ground_station.hpp"
using namespace s2e; using s2e::math::Vector;
extern "C" void vc_nothing(void*) {}
template <class T> static T* raw() { return (T*)::operator new(sizeof(T)); }
// settings by key
static double g_lat, g_lon, g_height, g_limit; static bool g_section, g_file;
INIReader::INIReader(const std::string&) {}
namespace s2e::setting_file_reader {
IniAccess::IniAccess(const std::string f) : ini_reader_(f) { g_file = f == "stations"; }
double IniAccess::ReadDouble(const char* s, const char* k) {
  if (std::string(s) != "GROUND_STATION_2") g_section = false; std::string key = k; if (key == "latitude_deg") return g_lat; if (key == "longitude_deg") return g_lon; if (key == "height_m") return g_height; if (key == "elevation_limit_angle_deg") return g_limit; g_section = false; return 0;
}
}
void s2e::logger::Logger::CopyFileToLogDirectory(const std::filesystem::path&) {}
// local frame of the station: decided elsewhere as a function of its angles
static Q4 g_ltc; static double g_ltc_lat, g_ltc_lon;
void s2e::geodesy::GeodeticPosition::CalcQuaternionXcxfToLtc() { quaternion_xcxf_to_ltc_ = g_ltc; g_ltc_lat = latitude_rad_; g_ltc_lon = longitude_rad_; }
// spacecraft seen from the station: in Earth-fixed axes, in local axes (third axis up) and its distance
static V3 g_rel, g_local; static double g_range; static bool near(const V3& v, const V3& w) { return vc_near(v[0], w[0]) && vc_near(v[1], w[1]) && vc_near(v[2], w[2]); }
extern "C" void vc_frame(V3* r, const Q4* q, const V3* v) {
  double a[4] = {(*q)[0], (*q)[1], (*q)[2], (*q)[3]}, b[4] = {g_ltc[0], g_ltc[1], g_ltc[2], g_ltc[3]};
  if (vc_same(a, b, 4) && near(*v, g_rel)) { for (int i = 0; i < 3; i++) (*r)[i] = g_local[i]; } else { V3 x = spec_i2b(*q, *v); for (int i = 0; i < 3; i++) (*r)[i] = x[i]; }
}
extern "C" double vc_norm(const V3* v) { if (near(*v, g_local) || near(*v, g_rel)) return g_range; double a[3] = {(*v)[0], (*v)[1], (*v)[2]}; double n = vc_uf("norm", 3, a); vc_assume(n > 0); return n; }
struct AnyOrbit : dynamics::orbit::Orbit { using Orbit::Orbit; void Propagate(const double, const double) override {} };
void s2e::dynamics::orbit::Orbit::TransformEciToEcef() {} void s2e::dynamics::orbit::Orbit::TransformEcefToGeodetic() {} s2e::math::Quaternion s2e::dynamics::orbit::Orbit::CalcQuaternion_i2lvlh() const { return g_ltc; }
std::string s2e::dynamics::orbit::Orbit::GetLogHeader() const { return ""; } std::string s2e::dynamics::orbit::Orbit::GetLogValue() const { return ""; }
static spacecraft::Spacecraft* craft(unsigned id, const V3& ecef) {
  auto* s = raw<spacecraft::Spacecraft>(); auto* d = raw<dynamics::Dynamics>(); auto* o = raw<AnyOrbit>(); o->spacecraft_position_ecef_m_ = ecef; *(void**)&d->orbit_ = o; *(void**)&s->dynamics_ = d; *(unsigned*)&s->spacecraft_id_ = id; return s;
}
static ground_station::GroundStation* station(unsigned n) {
  g_lat = vc_real_in("latitude", -90, 90); g_lon = vc_real_in("longitude", -180, 180); g_height = any_real("height", -100, 5000); g_limit = any_real("lowest elevation", 0, 89); g_ltc = any_unit_quat("local frame"); g_section = true;
  auto* c = raw<simulation::SimulationConfiguration>(); new (&c->ground_station_file_list_) std::vector<std::string>(1, "stations"); c->number_of_simulated_spacecraft_ = n; c->main_logger_ = raw<logger::Logger>(); return new ground_station::GroundStation(c, 2);
}
PROP(settings) {
  auto* g = station(1); geodesy::GeodeticPosition p = g->GetGeodeticPosition(); vc_check("settings of this station", g_section && g_file && g->GetGroundStationId() == 2); double r = M_PI / 180;
  vc_eq("place of the station", p.GetLatitude_rad(), g_lat * r); vc_eq("place of the station", p.GetLongitude_rad(), g_lon * r); vc_eq("place of the station", p.GetAltitude_m(), g_height); vc_eq("place of the station", g_ltc_lat, g_lat * r); vc_eq("place of the station", g_ltc_lon, g_lon * r);
  vc_eq("lowest elevation", g->GetElevationLimitAngle_deg(), g_limit); EQ3S("Earth-fixed position", g->GetPosition_ecef_m(), geodesy::GeodeticPosition(g_lat * r, g_lon * r, g_height).CalcEcefPosition(), 1e6);
}
PROP(visibility) {
  // seen exactly above the lowest elevation, for every spacecraft of its own, whoever was updated before
  bool sym = vc_is_symbolic(); auto* g = station(3); vc_check("nobody seen before the first update", !g->IsVisible(0) && !g->IsVisible(1) && !g->IsVisible(2)); V3 site = g->position_ecef_m_ = sym ? any_vec("site") : g->position_ecef_m_; environment::EarthRotation* e = raw<environment::EarthRotation>();
  bool was[3] = {false, false, false};
  for (int k = 0; k < 2; k++) {
    long id = vc_int("spacecraft", 0, 2); V3 r; double d = 1; if (sym) r = any_vec("position"); else { d = any_pos("range", 1e5, 1e7); r = add3(site, scale3(d, any_unit3("direction"))); }
    if (sym) { g_rel = sub3(r, site); g_local = any_vec("local position"); g_range = any_pos("range", 1, 2); } M33 D = e->dcm_j2000_to_ecef_ = any_mat("Earth"); g->Update(*e, *craft((unsigned)id, r)); V3 i = g->GetPosition_i_m(); for (int a = 0; a < 3; a++) vc_eq("inertial position of the station", i[a], D[0][a] * site[0] + D[1][a] * site[1] + D[2][a] * site[2]);
    double up = 0, lim = std::sin(g_limit * (M_PI / 180)), m = sym ? 0 : 1e-9; if (sym) up = g_local[2] / g_range; else { V3 l = spec_i2b(g_ltc, sub3(r, site)); up = l[2] / norm3(l); }
    if (up > lim + m) { vc_check("seen above the lowest elevation", g->IsVisible((unsigned)id)); was[id] = true; }
    else if (up <= lim - m) { vc_check("not seen below the lowest elevation", !g->IsVisible((unsigned)id)); was[id] = false; }
    else was[id] = g->IsVisible((unsigned)id);
    for (unsigned j = 0; j < 3; j++) vc_check("each spacecraft seen on its own", g->IsVisible(j) == was[j]);
  }
}
