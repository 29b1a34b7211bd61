// VC-SOURCES: simulation/spacecraft/structure/initialize_structure.cpp simulation/spacecraft/structure/kinematics_parameters.cpp simulation/spacecraft/structure/surface.cpp simulation/spacecraft/structure/residual_magnetic_moment.cpp components/base/component.cpp components/ports/power_port.cpp environment/global/clock_generator.cpp math_physics/math/vector.cpp math_physics/math/quaternion.cpp
#include "vc_settings.hpp"
#include "simulation/spacecraft/structure/initialize_structure.hpp"
using namespace s2e; using namespace s2e::spacecraft;
PROP(mass) {
  no_settings(); const char* s = "KINEMATIC_PARAMETERS"; V3 c = set_vec(s, "center_of_gravity_b_m"); double m = set_pos(s, "mass_kg", 1, 100); M33 I = set_mat(s, "inertia_tensor_kgm2");
  KinematicsParameters k = InitKinematicsParameters("f"); vc_check("all settings of the mass read", settings_known()); vc_check("mass", vc_near(k.GetMass_kg(), m)); vc_check("centre of gravity", near(k.GetCenterOfGravity_b_m(), c)); vc_check("inertia tensor row by row", near(k.GetInertiaTensor_b_kgm2(), I));
}
PROP(magnetic_moment) {
  no_settings(); const char* s = "RESIDUAL_MAGNETIC_MOMENT"; V3 c = set_vec(s, "rmm_constant_b_Am2"); double w = set_pos(s, "rmm_random_walk_speed_Am2", 0.1, 1), l = set_pos(s, "rmm_random_walk_limit_Am2", 0.1, 1), n = set_pos(s, "rmm_white_noise_standard_deviation_Am2", 0.1, 1);
  ResidualMagneticMoment r = InitResidualMagneticMoment("f"); vc_check("all settings of the moment read", settings_known()); vc_check("constant moment", near(r.GetConstantValue_b_Am2(), c)); vc_check("random walk and its limit", vc_near(r.GetRandomWalkStandardDeviation_Am2(), w) && vc_near(r.GetRandomWalkLimit_Am2(), l)); vc_check("white noise of the moment", vc_near(r.GetRandomNoiseStandardDeviation_Am2(), n));
}
static double share(const char* k) { double v = set_real("SURFACES", k, 0, 1); if (vc_is_symbolic()) vc_assume(v >= 0 && v <= 1); return v; }
PROP(surfaces) {
  no_settings(); const char* s = "SURFACES"; set_int(s, "number_of_surfaces", 2);
  double a[2], r[2], p[2], q[2]; V3 at[2], n[2];
  a[0] = set_pos(s, "area_0_m2", 0.1, 1); a[1] = set_pos(s, "area_1_m2", 0.1, 1); r[0] = share("reflectivity_0"); r[1] = share("reflectivity_1"); p[0] = share("specularity_0"); p[1] = share("specularity_1"); q[0] = share("air_specularity_0"); q[1] = share("air_specularity_1"); at[0] = set_vec(s, "position_0_b_m"); at[1] = set_vec(s, "position_1_b_m"); n[0] = vec3(0, -0.6, 0.8); Setting& e = set(s, "normal_vector_0_b"); for (int i = 0; i < 3; i++) e.v[i] = n[0][i]; n[1] = set_vec(s, "normal_vector_1_b"); vc_assume(n[1][0] > 2);
  if (!vc_is_symbolic()) std::cout.setstate(std::ios::failbit);
  auto x = InitSurfaces("f"); vc_check("all settings of the surfaces read", settings_known()); vc_check("number of surfaces", x.size() == 2); if (x.size() != 2) return;
  for (int i = 0; i < 2; i++) { vc_check("area of each surface", vc_near(x[i].GetArea_m2(), a[i])); vc_check("reflectivity and specularities of each surface", vc_near(x[i].GetReflectivity(), r[i]) && vc_near(x[i].GetSpecularity(), p[i]) && vc_near(x[i].GetAirSpecularity(), q[i])); vc_check("place of each surface", near(x[i].GetPosition_b_m(), at[i])); }
  vc_check("unit normal of a surface", near(x[0].GetNormal_b(), n[0])); double l = norm3(n[1]); V3 u = x[1].GetNormal_b(); for (int i = 0; i < 3; i++) vc_check("too long normal made a unit vector", vc_near(u[i], n[1][i] / l) || vc_near(u[i], n[1][i] * (1.0 / l)));
}
