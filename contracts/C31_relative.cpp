// VC-SOURCES: simulation/multiple_spacecraft/relative_information.cpp dynamics/orbit/orbit.cpp math_physics/math/vector.cpp math_physics/math/quaternion.cpp math_physics/geodesy/geodetic_position.cpp math_physics/orbit/sgp4/sgp4ext.cpp
// VC-REPLACE: s2e::dynamics::orbit::Orbit::CalcQuaternion_i2lvlh WITH vc_lvlh
// VC-REPLACE: ~std::map<unsigned long const, s2e::dynamics::Dynamics const\*.*::at\(.* WITH vc_at
#include "vc_s2e.hpp"
#include "vc_env.hpp"
#include "simulation/multiple_spacecraft/relative_information.hpp"
using namespace s2e; using namespace s2e::math; using namespace s2e::environment; using namespace s2e::dynamics; using namespace s2e::dynamics::orbit; using namespace s2e::simulation;
int CelestialInformation::CalcBodyIdFromName(const char* n) const { return vc_env::id_of(n); }
namespace { struct AnyOrbit : Orbit { using Orbit::Orbit; void Propagate(const double, const double) override {} }; }
static const int N = 3; static const Dynamics* g_d[N]; static const Orbit* g_o[N]; static Q4 g_f[N];
// contract of the registry: what was registered under that number
extern "C" const Dynamics** vc_at(void*, const size_t* id) { vc_check("registered spacecraft are looked up", *id < (size_t)N); return &g_d[*id]; }
// contract of the frame (C06)
extern "C" void vc_lvlh(Q4* r, const Orbit* o) { for (int i = 0; i < N; i++) if (g_o[i] == o) *r = g_f[i]; }
PROP(relative) {
  CelestialInformation* c = vc_env::global(); RelativeInformation& info = *new RelativeInformation(); V3 r[N], v[N], X[N]; Q4 q[N]; double R[N];
  for (int i = 0; i < N; i++) {
    g_f[i] = any_unit_quat("frame"); R[i] = any_pos("radius", 6e6, 4e7); q[i] = any_unit_quat("q");
    X[i] = spec_b2i(g_f[i], vec3(1, 0, 0)); double vx = any_real("vx", -8e3, 8e3), vy = any_pos("vy", 1e3, 8e3);
    r[i] = scale3(R[i], X[i]); v[i] = add3(scale3(vx, X[i]), scale3(vy, spec_b2i(g_f[i], vec3(0, 1, 0))));
    AnyOrbit* o = new AnyOrbit(c); o->spacecraft_position_i_m_ = r[i]; o->spacecraft_velocity_i_m_s_ = v[i]; g_o[i] = o;
    attitude::Attitude* a = (attitude::Attitude*)::operator new(sizeof(attitude::Attitude)); a->quaternion_i2b_ = q[i];
    Dynamics* d = (Dynamics*)::operator new(sizeof(Dynamics)); d->orbit_ = o; d->attitude_ = a; g_d[i] = d;
    if (!vc_is_symbolic()) info.RegisterDynamicsInfo(i, d);
  }
  if (vc_is_symbolic()) { info.dynamics_database_._M_t._M_impl._M_node_count = N; info.ResizeLists(); }
  // whatever an earlier update left
  for (int t = 0; t < N; t++) for (int k = 0; k < N; k++) { info.relative_distance_list_m_[t][k] = any_pos("earlier distance", 1, 1e9); info.relative_position_list_i_m_[t][k] = any_vec("earlier"); info.relative_velocity_list_i_m_s_[t][k] = any_vec("earlier"); info.relative_position_list_rtn_m_[t][k] = any_vec("earlier"); info.relative_velocity_list_rtn_m_s_[t][k] = any_vec("earlier"); info.relative_attitude_quaternion_list_[t][k] = any_quat("earlier"); }
  info.Update();
  for (int t = 0; t < N; t++) for (int k = 0; k < N; k++) {
    V3 d = sub3(r[t], r[k]), e = sub3(v[t], v[k]);
    EQ3("relative position is target minus reference", info.GetRelativePosition_i_m(t, k), d); EQ3("relative velocity is target minus reference", info.GetRelativeVelocity_i_m_s(t, k), e);
    if (t != k) vc_eqs("distance is the length of the relative position", info.GetRelativeDistance_m(t, k) * info.GetRelativeDistance_m(t, k), dot3(d, d), 1e14);
    EQ3("relative position in the reference spacecraft's orbit frame", info.GetRelativePosition_rtn_m(t, k), spec_i2b(g_f[k], d));
    V3 w = scale3(1 / (R[k] * R[k]), cross3(r[k], v[k]));   // rotation of the reference orbit frame
    EQ3("relative velocity seen in the rotating orbit frame", info.GetRelativeVelocity_rtn_m_s(t, k), spec_i2b(g_f[k], sub3(e, cross3(w, d))));
    // body-frame vectors of the reference become body-frame vectors of the target
    V3 u = any_vec("u"); if (!vc_is_symbolic()) u = scale3(1 / (1 + norm3(u)), u);
    EQ3("relative attitude turns reference body coordinates into target body coordinates", spec_i2b(info.GetRelativeAttitudeQuaternion(t, k), spec_i2b(q[k], u)), spec_i2b(q[t], u));
  }
  vc_check("the dynamics of a spacecraft are those registered", info.GetReferenceSatDynamics(1) == g_d[1] && info.GetReferenceSatDynamics(2) == g_d[2]);
}
