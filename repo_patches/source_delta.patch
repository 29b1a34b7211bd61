From 5a101773a074a112a8bb5fec81b961337f529529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:38 +0000
Subject: [PATCH 01/59] fix: start Newton iteration of Kepler's equation at the
 mean anomaly

---
 src/math_physics/orbit/kepler_orbit.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math_physics/orbit/kepler_orbit.cpp b/src/math_physics/orbit/kepler_orbit.cpp
index 2f49fd5..929472a 100644
--- a/src/math_physics/orbit/kepler_orbit.cpp
+++ b/src/math_physics/orbit/kepler_orbit.cpp
@@ -87,7 +87,7 @@ double KeplerOrbit::SolveKeplerFirstOrder(const double eccentricity, const doubl
 double KeplerOrbit::SolveKeplerNewtonMethod(const double eccentricity, const double mean_anomaly_rad, const double angle_limit_rad,
                                             const int iteration_limit) {
   double u_prev_rad = mean_anomaly_rad;
-  double u_rad = 0.0;
+  double u_rad = mean_anomaly_rad;
 
   for (int i = 0; i < iteration_limit; i++) {
     u_rad -= (u_prev_rad - eccentricity * sin(u_prev_rad) - mean_anomaly_rad) / (1.0 - eccentricity * cos(u_prev_rad));
-- 
2.43.0


From 7866d22b8bf4d2538e6d1bb2ddbed6d10ed1ea06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:22 +0000
Subject: [PATCH 02/59] fix: place the ascending node in the right quadrant
 when computing orbital elements

---
 src/math_physics/orbit/orbital_elements.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math_physics/orbit/orbital_elements.cpp b/src/math_physics/orbit/orbital_elements.cpp
index d02a324..33bab84 100644
--- a/src/math_physics/orbit/orbital_elements.cpp
+++ b/src/math_physics/orbit/orbital_elements.cpp
@@ -54,7 +54,7 @@ void OrbitalElements::CalcOeFromPosVel(const double gravity_constant_m3_s2, cons
     // We cannot define raan when i = 0
     raan_rad_ = 0.0;
   } else {
-    raan_rad_ = asin(h[0] / sqrt(h[0] * h[0] + h[1] * h[1]));
+    raan_rad_ = atan2(h[0], -h[1]);
   }
   // position in plane
   double x_p_m = position_i_m[0] * cos(raan_rad_) + position_i_m[1] * sin(raan_rad_);
-- 
2.43.0


From 1b743fe7f03165e9b478a0e7fcf15167d0252887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:39 +0000
Subject: [PATCH 03/59] fix: read I2C registers with the device address and the
 register address in the right order

---
 src/components/real/cdh/on_board_computer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/components/real/cdh/on_board_computer.cpp b/src/components/real/cdh/on_board_computer.cpp
index c661fc6..f78f009 100644
--- a/src/components/real/cdh/on_board_computer.cpp
+++ b/src/components/real/cdh/on_board_computer.cpp
@@ -104,7 +104,7 @@ int OnBoardComputer::I2cComponentReadRegister(int port_id, const unsigned char i
                                               const unsigned char length) {
   I2cPort* i2c_port = i2c_ports_[port_id];
   for (int i = 0; i < length; i++) {
-    data[i] = i2c_port->ReadRegister(register_address, i2c_address);
+    data[i] = i2c_port->ReadRegister(i2c_address, register_address);
   }
   return 0;
 }
-- 
2.43.0


From 602fb0bf76f2af4ff720dc8ff57eba8b98bb4b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:51 +0000
Subject: [PATCH 04/59] fix: keep serial telemetry and command transfers inside
 the component's buffers

---
 src/components/base/uart_communication_with_obc.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/components/base/uart_communication_with_obc.cpp b/src/components/base/uart_communication_with_obc.cpp
index 74a7f92..7c28efb 100644
--- a/src/components/base/uart_communication_with_obc.cpp
+++ b/src/components/base/uart_communication_with_obc.cpp
@@ -139,8 +139,9 @@ void UartCommunicationWithObc::InitializeObcComBase() {
 int UartCommunicationWithObc::ReceiveCommand(const unsigned int offset, const unsigned int rec_size) {
   if (simulation_mode_ == SimulationMode::kError) return -1;
   if (offset > rx_buffer_size_) return -1;
-  if (offset + rec_size > rx_buffer_size_) return -1;
-  rx_buffer_.resize(rec_size);
+  if (rec_size > rx_buffer_size_ - offset) return -1;
+  if (rec_size == 0) return 0;  // No read data
+  rx_buffer_.resize(offset + rec_size);
 
   int ret;
   switch (simulation_mode_) {
@@ -161,8 +162,8 @@ int UartCommunicationWithObc::ReceiveCommand(const unsigned int offset, const un
 int UartCommunicationWithObc::SendTelemetry(const unsigned int offset) {
   if (simulation_mode_ == SimulationMode::kError) return -1;
   int tlm_size = GenerateTelemetry();
-  if (offset > rx_buffer_size_) return -1;
-  if (offset + tlm_size > rx_buffer_size_) return -1;
+  if (offset > tx_buffer_size_) return -1;
+  if (offset + tlm_size > tx_buffer_size_) return -1;
 
   switch (simulation_mode_) {
     case SimulationMode::kSils:
-- 
2.43.0


From 3a35474e06f83136f21a6a0f261a889959edbeeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:37 +0000
Subject: [PATCH 05/59] fix: start power ports switched off instead of with an
 indeterminate switch state

---
 src/components/ports/power_port.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/components/ports/power_port.hpp b/src/components/ports/power_port.hpp
index 98d0a74..c33d830 100644
--- a/src/components/ports/power_port.hpp
+++ b/src/components/ports/power_port.hpp
@@ -126,7 +126,7 @@ class PowerPort {
 
   double voltage_V_;              //!< Voltage of the power line[V]
   double current_consumption_A_;  //!< Current consumption calculated by I = P/V[A]
-  bool is_on_;                    //!< Power switch state
+  bool is_on_ = false;            //!< Power switch state
 
   /**
    * @fn Initialize
-- 
2.43.0


From 867fc6939841d05e5d008ee2d82ac0aa8ee186c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:22 +0000
Subject: [PATCH 06/59] fix: carry a whole second when the fractions of epoch
 times add up to exactly one

---
 src/math_physics/time_system/epoch_time.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math_physics/time_system/epoch_time.cpp b/src/math_physics/time_system/epoch_time.cpp
index cee1a40..017e390 100644
--- a/src/math_physics/time_system/epoch_time.cpp
+++ b/src/math_physics/time_system/epoch_time.cpp
@@ -57,7 +57,7 @@ bool EpochTime::operator<(const EpochTime& right_side) const {
 EpochTime EpochTime::operator+(const EpochTime& right_side) const {
   time_t time_s = this->time_s_ + right_side.GetTime_s();
   double fraction_s = this->fraction_s_ + right_side.GetFraction_s();
-  if (fraction_s > 1.0) {
+  if (fraction_s >= 1.0) {
     fraction_s -= 1.0;
     time_s += 1;
   }
-- 
2.43.0


From 7c52e653c4c6237ed9bf0bc8aa3d7204d7851faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:22 +0000
Subject: [PATCH 07/59] fix: initialize the epoch time of an invalid calendar
 date

---
 src/math_physics/time_system/epoch_time.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math_physics/time_system/epoch_time.cpp b/src/math_physics/time_system/epoch_time.cpp
index 017e390..dbf8b57 100644
--- a/src/math_physics/time_system/epoch_time.cpp
+++ b/src/math_physics/time_system/epoch_time.cpp
@@ -9,7 +9,7 @@
 
 namespace s2e::time_system {
 
-EpochTime::EpochTime(const DateTime date_time) {
+EpochTime::EpochTime(const DateTime date_time) : time_s_(0), fraction_s_(0.0) {
   // No leap second calculation
   const int doy[] = {1, 32, 60, 91, 121, 152, 182, 213, 244, 274, 305, 335};  //!< Day of Year for the 1st day of each month
   // Parse Calender
-- 
2.43.0


From b564c2cc62b6f2fd87388776a57b61d3d45cf1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:50 +0000
Subject: [PATCH 08/59] fix: shuffled random generator selects its table entry
 by the truncated product, not the truncated fraction

---
 ...mal_standard_linear_congruential_generator_with_shuffle.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/math_physics/randomization/minimal_standard_linear_congruential_generator_with_shuffle.cpp b/src/math_physics/randomization/minimal_standard_linear_congruential_generator_with_shuffle.cpp
index 3bdd51d..0ee79c8 100644
--- a/src/math_physics/randomization/minimal_standard_linear_congruential_generator_with_shuffle.cpp
+++ b/src/math_physics/randomization/minimal_standard_linear_congruential_generator_with_shuffle.cpp
@@ -23,6 +23,7 @@ void MinimalStandardLcgWithShuffle::Initialize() {
     static_cast<void>(temp);
   }
   // Fill mixing table
+  table_position_ = 0;
   for (size_t i = 0; i < kTableSize; i++) {
     mixing_table_[i] = minimal_lcg_;
   }
@@ -31,7 +32,7 @@ void MinimalStandardLcgWithShuffle::Initialize() {
 MinimalStandardLcgWithShuffle::operator double() {
   double out = mixing_table_[table_position_];
   mixing_table_[table_position_] = minimal_lcg_;  // Compensate next random value
-  table_position_ = (size_t)out * MinimalStandardLcg::kM;
+  table_position_ = (size_t)(out * MinimalStandardLcg::kM);
   table_position_ %= kTableSize;  // y <- [0 : kTableSize-1]
 
   return out;
-- 
2.43.0


From 7a53ad364de19b458439fd72352657b8462feee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:41 +0000
Subject: [PATCH 09/59] fix: integrate the cantilever attitude over the
 remaining time in the last step

SetState takes the independent variable, not a step width, so the last step
always covered a full propagation step and the state ran ahead of the
simulation time whenever the interval is not a multiple of the step.
---
 .../attitude/attitude_with_cantilever_vibration.cpp        | 5 +++--
 .../numerical_integration/numerical_integrator.hpp         | 7 +++++++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/dynamics/attitude/attitude_with_cantilever_vibration.cpp b/src/dynamics/attitude/attitude_with_cantilever_vibration.cpp
index d07cf23..771c4b8 100644
--- a/src/dynamics/attitude/attitude_with_cantilever_vibration.cpp
+++ b/src/dynamics/attitude/attitude_with_cantilever_vibration.cpp
@@ -86,12 +86,13 @@ void AttitudeWithCantileverVibration::Propagate(const double end_time_s) {
 
   math::Vector<13> state = attitude_ode_.SetStateFromPhysicalQuantities(angular_velocity_b_rad_s_, angular_velocity_cantilever_rad_s_,
                                                                         quaternion_i2b_, euler_angular_cantilever_rad_);
-  numerical_integrator_.GetIntegrator()->SetState(propagation_step_s_, state);
+  numerical_integrator_.GetIntegrator()->SetState(current_propagation_time_s_, state);
+  numerical_integrator_.GetIntegrator()->SetStepWidth(propagation_step_s_);
   while (end_time_s - current_propagation_time_s_ - propagation_step_s_ > 1.0e-6) {
     numerical_integrator_.GetIntegrator()->Integrate();
     current_propagation_time_s_ += propagation_step_s_;
   }
-  numerical_integrator_.GetIntegrator()->SetState(end_time_s - current_propagation_time_s_, numerical_integrator_.GetIntegrator()->GetState());
+  numerical_integrator_.GetIntegrator()->SetStepWidth(end_time_s - current_propagation_time_s_);
   numerical_integrator_.GetIntegrator()->Integrate();
   attitude_ode_.SetPhysicalQuantitiesFromState(numerical_integrator_.GetIntegrator()->GetState(), angular_velocity_b_rad_s_,
                                                angular_velocity_cantilever_rad_s_, quaternion_i2b_, euler_angular_cantilever_rad_);
diff --git a/src/math_physics/numerical_integration/numerical_integrator.hpp b/src/math_physics/numerical_integration/numerical_integrator.hpp
index 461bfa2..60c1829 100644
--- a/src/math_physics/numerical_integration/numerical_integrator.hpp
+++ b/src/math_physics/numerical_integration/numerical_integrator.hpp
@@ -50,6 +50,13 @@ class NumericalIntegrator {
     previous_state_ = state;
   }
 
+  /**
+   * @fn SetStepWidth
+   * @brief Set step width
+   * @param [in] step_width: Step width
+   */
+  inline void SetStepWidth(const double step_width) { step_width_ = step_width; }
+
   /**
    * @fn GetState
    * @brief Return current state vector
-- 
2.43.0


From 2456d7cd48f86299ef9f33055849cca68be0a846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:41 +0000
Subject: [PATCH 10/59] fix: refresh every inertia inverse of the cantilever
 attitude when the inertia changes

---
 src/dynamics/attitude/attitude_with_cantilever_vibration.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dynamics/attitude/attitude_with_cantilever_vibration.cpp b/src/dynamics/attitude/attitude_with_cantilever_vibration.cpp
index 771c4b8..16fed47 100644
--- a/src/dynamics/attitude/attitude_with_cantilever_vibration.cpp
+++ b/src/dynamics/attitude/attitude_with_cantilever_vibration.cpp
@@ -81,6 +81,9 @@ void AttitudeWithCantileverVibration::Propagate(const double end_time_s) {
   math::Vector<3> torque_inertia_tensor_b_Nm = dot_inertia_tensor * angular_velocity_b_rad_s_;
   attitude_ode_.SetTorqueInertiaTensor_b_Nm(torque_inertia_tensor_b_Nm);
   attitude_ode_.SetInverseInertiaTensor(CalcInverseMatrix(inertia_tensor_kgm2_));
+  math::Matrix<3, 3> total_inertia_tensor_kgm2 = inertia_tensor_kgm2_ + attitude_ode_.GetInertiaTensorCantilever_kgm2();
+  attitude_ode_.SetInverseTotalInertiaTensor(CalcInverseMatrix(total_inertia_tensor_kgm2));
+  attitude_ode_.SetInverseEquivalentInertiaTensorCantilever(attitude_ode_.GetInverseInertiaTensor() * total_inertia_tensor_kgm2);
   attitude_ode_.SetTorque_b_Nm(torque_b_Nm_);
   attitude_ode_.SetAngularMomentumReactionWheel_b_Nms(angular_momentum_reaction_wheel_b_Nms_);
 
-- 
2.43.0


From 64d26c881ac547dee37a1453ddb93be9b912ba6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:16 +0000
Subject: [PATCH 11/59] fix: controlled attitude derives its angular velocity
 from the shortest rotation

The quaternion converted from the pointing DCM may change its sign from one
step to the next, which flipped the sign of the angular velocity.
---
 src/dynamics/attitude/controlled_attitude.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dynamics/attitude/controlled_attitude.cpp b/src/dynamics/attitude/controlled_attitude.cpp
index e92cc13..288ca82 100644
--- a/src/dynamics/attitude/controlled_attitude.cpp
+++ b/src/dynamics/attitude/controlled_attitude.cpp
@@ -171,6 +171,7 @@ void ControlledAttitude::CalcAngularVelocity(const double current_time_s) {
     double time_diff_sec = current_time_s - previous_calc_time_s_;
     math::Quaternion prev_q_b2i = previous_quaternion_i2b_.Conjugate();
     math::Quaternion q_diff = prev_q_b2i * quaternion_i2b_;
+    if (q_diff[3] < 0.0) q_diff = -1.0 * q_diff;  // Both signs express the same attitude
     q_diff = (2.0 / time_diff_sec) * q_diff;
 
     math::Vector<3> angular_acc_b_rad_s2_;
-- 
2.43.0


From 279e60687dfa171223adac023e0b6a1d288fac84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:16 +0000
Subject: [PATCH 12/59] fix: control torque of the controlled attitude is
 inertia times angular acceleration

---
 src/dynamics/attitude/controlled_attitude.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/dynamics/attitude/controlled_attitude.cpp b/src/dynamics/attitude/controlled_attitude.cpp
index 288ca82..33b24bd 100644
--- a/src/dynamics/attitude/controlled_attitude.cpp
+++ b/src/dynamics/attitude/controlled_attitude.cpp
@@ -177,10 +177,9 @@ void ControlledAttitude::CalcAngularVelocity(const double current_time_s) {
     math::Vector<3> angular_acc_b_rad_s2_;
     for (int i = 0; i < 3; i++) {
       angular_velocity_b_rad_s_[i] = q_diff[i];
-      angular_acc_b_rad_s2_[i] = (previous_omega_b_rad_s_[i] - angular_velocity_b_rad_s_[i]) / time_diff_sec;
+      angular_acc_b_rad_s2_[i] = (angular_velocity_b_rad_s_[i] - previous_omega_b_rad_s_[i]) / time_diff_sec;
     }
-    math::Matrix<3, 3> inv_inertia_tensor = CalcInverseMatrix(inertia_tensor_kgm2_);
-    controlled_torque_b_Nm = inv_inertia_tensor * angular_acc_b_rad_s2_;
+    controlled_torque_b_Nm = inertia_tensor_kgm2_ * angular_acc_b_rad_s2_;
   } else {
     angular_velocity_b_rad_s_ = math::Vector<3>(0.0);
     controlled_torque_b_Nm = math::Vector<3>(0.0);
-- 
2.43.0


From 4c0c18c511cafbf058c3ed6dce2857cb1d64267a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:41 +0000
Subject: [PATCH 13/59] fix: normalise target directions set on the controlled
 attitude

---
 src/dynamics/attitude/controlled_attitude.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/dynamics/attitude/controlled_attitude.hpp b/src/dynamics/attitude/controlled_attitude.hpp
index bd3db14..16873f3 100644
--- a/src/dynamics/attitude/controlled_attitude.hpp
+++ b/src/dynamics/attitude/controlled_attitude.hpp
@@ -89,12 +89,16 @@ class ControlledAttitude : public Attitude {
    * @fn SetMainTargetDirection_b
    * @brief Set main target direction on the body fixed frame
    */
-  inline void SetMainTargetDirection_b(math::Vector<3> main_target_direction_b) { main_target_direction_b_ = main_target_direction_b; }
+  inline void SetMainTargetDirection_b(math::Vector<3> main_target_direction_b) {
+    main_target_direction_b_ = main_target_direction_b.CalcNormalizedVector();
+  }
   /**
    * @fn SetSubTargetDirection_b
    * @brief Set sub target direction on the body fixed frame
    */
-  inline void SetSubTargetDirection_b(math::Vector<3> sub_target_direction_b) { sub_target_direction_b_ = sub_target_direction_b; }
+  inline void SetSubTargetDirection_b(math::Vector<3> sub_target_direction_b) {
+    sub_target_direction_b_ = sub_target_direction_b.CalcNormalizedVector();
+  }
 
   /**
    * @fn Propagate
-- 
2.43.0


From 00f51ce8eb2d57b42aa953e6c8c7d85900c11e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:58 +0000
Subject: [PATCH 14/59] fix: geodetic altitude over the poles

Dividing the distance from the axis by the cosine of the latitude gave a
negative altitude of the polar curvature radius on the axis and lost all
precision near it.
---
 src/math_physics/geodesy/geodetic_position.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math_physics/geodesy/geodetic_position.cpp b/src/math_physics/geodesy/geodetic_position.cpp
index b72aa18..09ee526 100644
--- a/src/math_physics/geodesy/geodetic_position.cpp
+++ b/src/math_physics/geodesy/geodetic_position.cpp
@@ -44,7 +44,7 @@ void GeodeticPosition::UpdateFromEcef(const math::Vector<3> position_ecef_m) {
     lat_tmp_rad = AcTan(position_ecef_m[2] + earth_radius_m * c * e2 * sin(phi), r_m);
   } while (fabs(lat_tmp_rad - phi) >= 1E-10);
 
-  altitude_m_ = r_m / cos(lat_tmp_rad) - c * earth_radius_m;
+  altitude_m_ = r_m * cos(lat_tmp_rad) + (position_ecef_m[2] + earth_radius_m * c * e2 * sin(phi)) * sin(lat_tmp_rad) - c * earth_radius_m;
 
   if (lat_tmp_rad > math::pi_2) lat_tmp_rad -= math::tau;
 
-- 
2.43.0


From 3a9858242531807065eb579887826e5fdc4cb48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:15 +0000
Subject: [PATCH 15/59] fix: rectify the Encke reference orbit at the time of
 the state it is built from

The rectification ran before the update and started the new reference orbit at
the current time from the position of the previous step, so the spacecraft lost
a whole step of motion; it also discarded the disturbing acceleration.
---
 src/dynamics/orbit/encke_orbit_propagation.cpp | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/dynamics/orbit/encke_orbit_propagation.cpp b/src/dynamics/orbit/encke_orbit_propagation.cpp
index 5a1ae0d..81d3ad5 100644
--- a/src/dynamics/orbit/encke_orbit_propagation.cpp
+++ b/src/dynamics/orbit/encke_orbit_propagation.cpp
@@ -20,6 +20,7 @@ EnckeOrbitPropagation::EnckeOrbitPropagation(const environment::CelestialInforma
       error_tolerance_(error_tolerance),
       propagation_step_s_(propagation_step_s) {
   propagation_time_s_ = 0.0;
+  spacecraft_acceleration_i_m_s2_.FillUp(0.0);
   Initialize(current_time_jd, position_i_m, velocity_i_m_s);
 }
 
@@ -29,13 +30,6 @@ EnckeOrbitPropagation::~EnckeOrbitPropagation() {}
 void EnckeOrbitPropagation::Propagate(const double end_time_s, const double current_time_jd) {
   if (!is_calc_enabled_) return;
 
-  // Rectification
-  double norm_sat_position_m = spacecraft_position_i_m_.CalcNorm();
-  double norm_difference_position_m = difference_position_i_m_.CalcNorm();
-  if (norm_difference_position_m / norm_sat_position_m > error_tolerance_) {
-    Initialize(current_time_jd, spacecraft_position_i_m_, spacecraft_velocity_i_m_s_);
-  }
-
   // Update reference orbit
   reference_kepler_orbit.CalcOrbit(current_time_jd);
   reference_position_i_m_ = reference_kepler_orbit.GetPosition_i_m();
@@ -59,6 +53,13 @@ void EnckeOrbitPropagation::Propagate(const double end_time_s, const double curr
   difference_velocity_i_m_s_[2] = GetState()[5];
 
   UpdateSatOrbit();
+
+  // Rectification (after the update, since the new reference orbit is defined at the current time)
+  double norm_sat_position_m = spacecraft_position_i_m_.CalcNorm();
+  double norm_difference_position_m = difference_position_i_m_.CalcNorm();
+  if (norm_difference_position_m / norm_sat_position_m > error_tolerance_) {
+    Initialize(current_time_jd, spacecraft_position_i_m_, spacecraft_velocity_i_m_s_);
+  }
 }
 
 // Functions for OrdinaryDifferentialEquation
@@ -86,9 +87,6 @@ void EnckeOrbitPropagation::DerivativeFunction(double t, const math::Vector<6>&
 
 // Private Functions
 void EnckeOrbitPropagation::Initialize(double current_time_jd, math::Vector<3> reference_position_i_m, math::Vector<3> reference_velocity_i_m_s) {
-  // General
-  spacecraft_acceleration_i_m_s2_.FillUp(0.0);
-
   // reference orbit
   reference_position_i_m_ = reference_position_i_m;
   reference_velocity_i_m_s_ = reference_velocity_i_m_s;
-- 
2.43.0


From d47626243266cb0ecaf376d051e773b9882be206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:15 +0000
Subject: [PATCH 16/59] fix: rotate the body rate into the inertial frame
 before the cross product with inertial positions

---
 src/environment/local/local_celestial_information.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/environment/local/local_celestial_information.cpp b/src/environment/local/local_celestial_information.cpp
index dab63ee..f534308 100644
--- a/src/environment/local/local_celestial_information.cpp
+++ b/src/environment/local/local_celestial_information.cpp
@@ -115,13 +115,10 @@ void LocalCelestialInformation::ConvertVelocityInertialToBody(const double* posi
   }
 
   // convert body rate vector into that in inertial coordinate
-  math::Vector<3> wb;
-  for (int i = 0; i < 3; i++) {
-    wb[i] = angular_velocity_b[i];
-  }
+  math::Vector<3> wi = quaternion_i2b.InverseFrameConversion(angular_velocity_b);
 
   // compute cross term wxr
-  math::Vector<3> wxposition_i = OuterProduct(wb, ri);
+  math::Vector<3> wxposition_i = OuterProduct(wi, ri);
   // compute dr/dt + wxr
   for (int i = 0; i < 3; i++) {
     vi[i] = vi[i] - wxposition_i[i];
-- 
2.43.0


From 71971307ff3cde6b5a64ce85e33b8178233c9a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:15 +0000
Subject: [PATCH 17/59] fix: reject the first invalid body id in celestial
 information getters

---
 src/environment/global/celestial_information.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/environment/global/celestial_information.hpp b/src/environment/global/celestial_information.hpp
index ea04e56..bcfaf7b 100644
--- a/src/environment/global/celestial_information.hpp
+++ b/src/environment/global/celestial_information.hpp
@@ -77,7 +77,7 @@ class CelestialInformation : public logger::ILoggable {
    */
   inline math::Vector<3> GetPositionFromCenter_i_m(const unsigned int id) const {
     math::Vector<3> pos(0.0);
-    if (id > number_of_selected_bodies_) return pos;
+    if (id >= number_of_selected_bodies_) return pos;
     for (int i = 0; i < 3; i++) pos[i] = celestial_body_position_from_center_i_m_[id * 3 + i];
     return pos;
   }
@@ -112,7 +112,7 @@ class CelestialInformation : public logger::ILoggable {
    */
   inline math::Vector<3> GetVelocityFromCenter_i_m_s(const unsigned int id) const {
     math::Vector<3> vel(0.0);
-    if (id > number_of_selected_bodies_) return vel;
+    if (id >= number_of_selected_bodies_) return vel;
     for (int i = 0; i < 3; i++) vel[i] = celestial_body_velocity_from_center_i_m_s_[id * 3 + i];
     return vel;
   }
@@ -164,7 +164,7 @@ class CelestialInformation : public logger::ILoggable {
    */
   inline math::Vector<3> GetRadii_m(const unsigned int id) const {
     math::Vector<3> radii(0.0);
-    if (id > number_of_selected_bodies_) return radii;
+    if (id >= number_of_selected_bodies_) return radii;
     for (int i = 0; i < 3; i++) radii[i] = celestial_body_planetographic_radii_m_[id * 3 + i];
     return radii;
   }
-- 
2.43.0


From ca4cc311cb9acde2098f1261b5168fbd014a986c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:15 +0000
Subject: [PATCH 18/59] fix: order of the quaternion product in the relative
 attitude

---
 src/simulation/multiple_spacecraft/relative_information.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simulation/multiple_spacecraft/relative_information.cpp b/src/simulation/multiple_spacecraft/relative_information.cpp
index 3aed97e..aeb3226 100644
--- a/src/simulation/multiple_spacecraft/relative_information.cpp
+++ b/src/simulation/multiple_spacecraft/relative_information.cpp
@@ -121,7 +121,7 @@ math::Quaternion RelativeInformation::CalcRelativeAttitudeQuaternion(const size_
   // ECI frame(i) -> Target SC body frame(main_sat)
   math::Quaternion q_target_i2b = dynamics_database_.at(target_spacecraft_id)->GetAttitude().GetQuaternion_i2b();
 
-  return q_target_i2b * q_reference_b2i;
+  return q_reference_b2i * q_target_i2b;
 }
 
 math::Vector<3> RelativeInformation::CalcRelativePosition_rtn_m(const size_t target_spacecraft_id, const size_t reference_spacecraft_id) {
-- 
2.43.0


From eceb729a788c9129aeae506c06d2f47ec07fb215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:32 +0000
Subject: [PATCH 19/59] fix: magnetic disturbance shared the residual magnetic
 moment's random walk and noise between all spacecraft

---
 src/disturbances/magnetic_disturbance.cpp | 18 +++++++-----------
 src/disturbances/magnetic_disturbance.hpp |  4 ++++
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/disturbances/magnetic_disturbance.cpp b/src/disturbances/magnetic_disturbance.cpp
index ea00292..3213a96 100644
--- a/src/disturbances/magnetic_disturbance.cpp
+++ b/src/disturbances/magnetic_disturbance.cpp
@@ -10,13 +10,15 @@
 
 #include "../logger/log_utility.hpp"
 #include "../math_physics/randomization/global_randomization.hpp"
-#include "../math_physics/randomization/normal_randomization.hpp"
-#include "../math_physics/randomization/random_walk.hpp"
 
 namespace s2e::disturbances {
 
 MagneticDisturbance::MagneticDisturbance(const spacecraft::ResidualMagneticMoment& rmm_params, const bool is_calculation_enabled)
-    : Disturbance(is_calculation_enabled, true), residual_magnetic_moment_(rmm_params) {
+    : Disturbance(is_calculation_enabled, true),
+      residual_magnetic_moment_(rmm_params),
+      random_walk_(0.1, math::Vector<3>(rmm_params.GetRandomWalkStandardDeviation_Am2()),
+                   math::Vector<3>(rmm_params.GetRandomWalkLimit_Am2())),  // [FIXME] step width is constant
+      normal_random_(0.0, rmm_params.GetRandomNoiseStandardDeviation_Am2(), randomization::global_randomization.MakeSeed()) {
   rmm_b_Am2_ = residual_magnetic_moment_.GetConstantValue_b_Am2();
 }
 
@@ -33,17 +35,11 @@ void MagneticDisturbance::Update(const environment::LocalEnvironment& local_envi
 }
 
 void MagneticDisturbance::CalcRMM() {
-  static math::Vector<3> random_walk_std_dev(residual_magnetic_moment_.GetRandomWalkStandardDeviation_Am2());
-  static math::Vector<3> random_walk_limit(residual_magnetic_moment_.GetRandomWalkLimit_Am2());
-  static randomization::RandomWalk<3> random_walk(0.1, random_walk_std_dev, random_walk_limit);  // [FIXME] step width is constant
-  static randomization::NormalRand normal_random(0.0, residual_magnetic_moment_.GetRandomNoiseStandardDeviation_Am2(),
-                                                 randomization::global_randomization.MakeSeed());
-
   rmm_b_Am2_ = residual_magnetic_moment_.GetConstantValue_b_Am2();
   for (int i = 0; i < 3; ++i) {
-    rmm_b_Am2_[i] += random_walk[i] + normal_random;
+    rmm_b_Am2_[i] += random_walk_[i] + normal_random_;
   }
-  ++random_walk;  // Update random walk
+  ++random_walk_;  // Update random walk
 }
 
 std::string MagneticDisturbance::GetLogHeader() const {
diff --git a/src/disturbances/magnetic_disturbance.hpp b/src/disturbances/magnetic_disturbance.hpp
index f51b392..87f9527 100644
--- a/src/disturbances/magnetic_disturbance.hpp
+++ b/src/disturbances/magnetic_disturbance.hpp
@@ -10,6 +10,8 @@
 
 #include "../logger/loggable.hpp"
 #include "../math_physics/math/vector.hpp"
+#include "../math_physics/randomization/normal_randomization.hpp"
+#include "../math_physics/randomization/random_walk.hpp"
 #include "../simulation/spacecraft/structure/residual_magnetic_moment.hpp"
 #include "disturbance.hpp"
 
@@ -54,6 +56,8 @@ class MagneticDisturbance : public Disturbance {
 
   math::Vector<3> rmm_b_Am2_;                                           //!< True RMM of the spacecraft in the body frame [Am2]
   const spacecraft::ResidualMagneticMoment& residual_magnetic_moment_;  //!< RMM parameters
+  randomization::RandomWalk<3> random_walk_;                            //!< Random walk of the RMM
+  randomization::NormalRand normal_random_;                             //!< White noise of the RMM
 
   /**
    * @fn CalcRMM
-- 
2.43.0


From ce6e1345bcf8cd73d6314cf48a11e0933f17f6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:32 +0000
Subject: [PATCH 20/59] fix: geomagnetic field shared its random walk and white
 noise between all spacecraft

---
 src/environment/local/geomagnetic_field.cpp | 14 ++++----------
 src/environment/local/geomagnetic_field.hpp |  4 ++++
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/environment/local/geomagnetic_field.cpp b/src/environment/local/geomagnetic_field.cpp
index 8fff876..1f35355 100644
--- a/src/environment/local/geomagnetic_field.cpp
+++ b/src/environment/local/geomagnetic_field.cpp
@@ -7,8 +7,6 @@
 
 #include "math_physics/geomagnetic/igrf.h"
 #include "math_physics/randomization/global_randomization.hpp"
-#include "math_physics/randomization/normal_randomization.hpp"
-#include "math_physics/randomization/random_walk.hpp"
 #include "setting_file_reader/initialize_file_access.hpp"
 
 namespace s2e::environment {
@@ -20,6 +18,8 @@ GeomagneticField::GeomagneticField(const std::string igrf_file_name, const doubl
       random_walk_standard_deviation_nT_(random_walk_srandard_deviation_nT),
       random_walk_limit_nT_(random_walk_limit_nT),
       white_noise_standard_deviation_nT_(white_noise_standard_deviation_nT),
+      random_walk_(0.1, math::Vector<3>(random_walk_srandard_deviation_nT), math::Vector<3>(random_walk_limit_nT)),
+      white_noise_(0.0, white_noise_standard_deviation_nT, randomization::global_randomization.MakeSeed()),
       igrf_file_name_(igrf_file_name) {
   set_file_path(igrf_file_name_.c_str());
 }
@@ -42,16 +42,10 @@ void GeomagneticField::CalcMagneticField(const double decimal_year, const double
 }
 
 void GeomagneticField::AddNoise(double* magnetic_field_array_i_nT) {
-  static math::Vector<3> standard_deviation(random_walk_standard_deviation_nT_);
-  static math::Vector<3> limit(random_walk_limit_nT_);
-  static randomization::RandomWalk<3> random_walk(0.1, standard_deviation, limit);
-
-  static randomization::NormalRand white_noise(0.0, white_noise_standard_deviation_nT_, randomization::global_randomization.MakeSeed());
-
   for (int i = 0; i < 3; ++i) {
-    magnetic_field_array_i_nT[i] += random_walk[i] + white_noise;
+    magnetic_field_array_i_nT[i] += random_walk_[i] + white_noise_;
   }
-  ++random_walk;  // Update random walk
+  ++random_walk_;  // Update random walk
 }
 
 std::string GeomagneticField::GetLogHeader() const {
diff --git a/src/environment/local/geomagnetic_field.hpp b/src/environment/local/geomagnetic_field.hpp
index 1f38c03..c4ac7a0 100644
--- a/src/environment/local/geomagnetic_field.hpp
+++ b/src/environment/local/geomagnetic_field.hpp
@@ -10,6 +10,8 @@
 #include "math_physics/geodesy/geodetic_position.hpp"
 #include "math_physics/math/quaternion.hpp"
 #include "math_physics/math/vector.hpp"
+#include "math_physics/randomization/normal_randomization.hpp"
+#include "math_physics/randomization/random_walk.hpp"
 
 namespace s2e::environment {
 
@@ -77,6 +79,8 @@ class GeomagneticField : public logger::ILoggable {
   double random_walk_standard_deviation_nT_;  //!< Standard deviation of Random Walk [nT]
   double random_walk_limit_nT_;               //!< Limit of Random Walk [nT]
   double white_noise_standard_deviation_nT_;  //!< Standard deviation of white noise [nT]
+  randomization::RandomWalk<3> random_walk_;  //!< Random walk noise
+  randomization::NormalRand white_noise_;     //!< White noise
   std::string igrf_file_name_;                //!< Path to the initialize file
 
   /**
-- 
2.43.0


From b07bc6d0928bee43fa9afccc28154a3e077a8e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:41 +0000
Subject: [PATCH 21/59] fix: drag speed ratio used the molecular weight in
 g/mol as the mass of a molecule

---
 src/disturbances/air_drag.cpp                 | 4 ++--
 src/environment/global/physical_constants.hpp | 1 +
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/disturbances/air_drag.cpp b/src/disturbances/air_drag.cpp
index 2c92540..d92e7f7 100644
--- a/src/disturbances/air_drag.cpp
+++ b/src/disturbances/air_drag.cpp
@@ -64,8 +64,8 @@ void AirDrag::CalcCnCt(const math::Vector<3>& velocity_b_m_s) {
   double velocity_norm_m_s = velocity_b_m_s.CalcNorm();
 
   // Re-emitting speed
-  double speed =
-      sqrt(molecular_weight_g_mol_ * velocity_norm_m_s * velocity_norm_m_s / (2.0 * environment::boltzmann_constant_J_K * wall_temperature_K_));
+  const double molecular_mass_kg = molecular_weight_g_mol_ * 1.0e-3 / environment::avogadro_constant_mol;
+  double speed = sqrt(molecular_mass_kg * velocity_norm_m_s * velocity_norm_m_s / (2.0 * environment::boltzmann_constant_J_K * wall_temperature_K_));
   // CalcTheta(vel_b);
   for (size_t i = 0; i < surfaces_.size(); i++) {
     double speed_n = speed * cos_theta_[i];
diff --git a/src/environment/global/physical_constants.hpp b/src/environment/global/physical_constants.hpp
index c97259e..343ebc6 100644
--- a/src/environment/global/physical_constants.hpp
+++ b/src/environment/global/physical_constants.hpp
@@ -21,6 +21,7 @@ using enable_if_float = std::enable_if_t<std::is_floating_point_v<T>, T>;
 inline namespace physics {
 DEFINE_PHYSICAL_CONSTANT(speed_of_light_m_s, 299792458.0L)                   //!< Speed of light in vacuum [m/s]
 DEFINE_PHYSICAL_CONSTANT(boltzmann_constant_J_K, 1.380649e-23L)              //!< Boltzmann constant [J/K]
+DEFINE_PHYSICAL_CONSTANT(avogadro_constant_mol, 6.02214076e23L)              //!< Avogadro constant [1/mol]
 DEFINE_PHYSICAL_CONSTANT(stefan_boltzmann_constant_W_m2K4, 5.670374419e-8L)  //!< Stefan-Boltzmann constant [W/m2K4]
 DEFINE_PHYSICAL_CONSTANT(absolute_zero_degC, -273.15L)                       //!< Absolute zero [degC]
 DEFINE_PHYSICAL_CONSTANT(solar_constant_W_m2, 1.366e3L)                      //!< Solar constant [W/m2]
-- 
2.43.0


From 398e9c36e10d9e8e1bb1b0f6472ed11bdbd5c238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:41 +0000
Subject: [PATCH 22/59] fix: surface force was not a number when an accepted
 normal slightly longer than one faced the source

---
 src/disturbances/surface_force.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/disturbances/surface_force.cpp b/src/disturbances/surface_force.cpp
index 391a782..3a0f1cc 100644
--- a/src/disturbances/surface_force.cpp
+++ b/src/disturbances/surface_force.cpp
@@ -5,6 +5,8 @@
 
 #include "surface_force.hpp"
 
+#include <algorithm>
+
 #include "../math_physics/math/vector.hpp"
 
 namespace s2e::disturbances {
@@ -52,7 +54,7 @@ void SurfaceForce::CalcTheta(math::Vector<3>& input_direction_b) {
 
   for (size_t i = 0; i < surfaces_.size(); i++) {
     cos_theta_[i] = InnerProduct(surfaces_[i].GetNormal_b(), input_b_normal);
-    sin_theta_[i] = sqrt(1.0 - cos_theta_[i] * cos_theta_[i]);
+    sin_theta_[i] = sqrt(std::max(0.0, 1.0 - cos_theta_[i] * cos_theta_[i]));
   }
 }
 
-- 
2.43.0


From ec4008c54473d4bc52651532d5a0efb417ae9e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:41 +0000
Subject: [PATCH 23/59] fix: gravity potential was built with the degree beyond
 the coefficients' limit

---
 src/disturbances/geopotential.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disturbances/geopotential.cpp b/src/disturbances/geopotential.cpp
index cb6ba22..73b6ddc 100644
--- a/src/disturbances/geopotential.cpp
+++ b/src/disturbances/geopotential.cpp
@@ -45,7 +45,7 @@ Geopotential::Geopotential(const int degree, const std::string file_path, const
     }
   }
   // Initialize GravityPotential
-  geopotential_ = gravity::GravityPotential(degree, c_, s_);
+  geopotential_ = gravity::GravityPotential(degree_, c_, s_);
 }
 
 bool Geopotential::ReadCoefficientsEgm96(std::string file_name) {
-- 
2.43.0


From 692ed2acce0a9409cf25fd8a9f6f4cfd1c1a8b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:41 +0000
Subject: [PATCH 24/59] fix: lunar gravity copied the celestial information,
 whose copy lacks the Moon rotation

---
 src/disturbances/lunar_gravity_field.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disturbances/lunar_gravity_field.cpp b/src/disturbances/lunar_gravity_field.cpp
index 182b447..872a005 100644
--- a/src/disturbances/lunar_gravity_field.cpp
+++ b/src/disturbances/lunar_gravity_field.cpp
@@ -89,7 +89,7 @@ bool LunarGravityField::ReadCoefficientsGrgm1200a(std::string file_name) {
 }
 
 void LunarGravityField::Update(const environment::LocalEnvironment &local_environment, const dynamics::Dynamics &dynamics) {
-  const environment::CelestialInformation global_celestial_information = local_environment.GetCelestialInformation().GetGlobalInformation();
+  const environment::CelestialInformation &global_celestial_information = local_environment.GetCelestialInformation().GetGlobalInformation();
   math::Matrix<3, 3> dcm_mci2mcmf_ = global_celestial_information.GetMoonRotation().GetDcmJ2000ToMcmf();
 
   math::Vector<3> spacecraft_position_mci_m = dynamics.GetOrbit().GetPosition_i_m();
-- 
2.43.0


From 78e1398bd1272e015b8760904aa1607390e3f4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:41 +0000
Subject: [PATCH 25/59] fix: lunar gravity potential was built with the degree
 beyond the coefficients' limit

---
 src/disturbances/lunar_gravity_field.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disturbances/lunar_gravity_field.cpp b/src/disturbances/lunar_gravity_field.cpp
index 872a005..1bdbc80 100644
--- a/src/disturbances/lunar_gravity_field.cpp
+++ b/src/disturbances/lunar_gravity_field.cpp
@@ -48,7 +48,7 @@ LunarGravityField::LunarGravityField(const int degree, const std::string file_pa
     }
   }
   // Initialize GravityPotential
-  lunar_potential_ = gravity::GravityPotential(degree, c_, s_, gravity_constants_km3_s2_ * 1e9, reference_radius_km_ * 1e3);
+  lunar_potential_ = gravity::GravityPotential(degree_, c_, s_, gravity_constants_km3_s2_ * 1e9, reference_radius_km_ * 1e3);
 }
 
 bool LunarGravityField::ReadCoefficientsGrgm1200a(std::string file_name) {
-- 
2.43.0


From 8f383f4c788ac73a19180828c6e9b4ec13d865d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:21 +0000
Subject: [PATCH 26/59] fix: SLIP decoding read and wrote beyond data ending
 within an escape sequence or missing its header

---
 src/utilities/slip.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/utilities/slip.cpp b/src/utilities/slip.cpp
index b1f0fbb..98fc875 100644
--- a/src/utilities/slip.cpp
+++ b/src/utilities/slip.cpp
@@ -27,6 +27,11 @@ std::vector<uint8_t> decode_slip(const std::vector<uint8_t> in) {
   while (1) {
     fesc_itr = std::find(fesc_itr, out.end(), kSlipFesc_);
     if (fesc_itr == out.end()) break;
+    // The frame ends within an escape sequence
+    if (fesc_itr + 1 == out.end()) {
+      out.erase(fesc_itr);
+      break;
+    }
     // convert
     if (*(fesc_itr + 1) == kSlipTfend_) {
       *(fesc_itr + 1) = kSlipFend_;
@@ -44,6 +49,7 @@ std::vector<uint8_t> decode_slip(const std::vector<uint8_t> in) {
 
 std::vector<uint8_t> decode_slip_with_header(const std::vector<uint8_t> in) {
   std::vector<uint8_t> in_without_header = in;
+  if (in_without_header.empty()) return in_without_header;
   in_without_header.erase(in_without_header.begin(), in_without_header.begin() + 1);
   return decode_slip(in_without_header);
 }
-- 
2.43.0


From 04ede41d91d40f16e258efdc9e043ae720e896aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:21 +0000
Subject: [PATCH 27/59] fix: byte order conversion of zero bytes copied one
 byte

---
 src/utilities/endian.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/utilities/endian.cpp b/src/utilities/endian.cpp
index 6aa2111..c340461 100644
--- a/src/utilities/endian.cpp
+++ b/src/utilities/endian.cpp
@@ -15,12 +15,8 @@ void *endian_memcpy(void *dst, const void *src, size_t size) {
   uint8_t *dst_ = (uint8_t *)dst;
   size_t i;
 
-  if (size > 0) {
-    size--;
-  }
-
-  for (i = 0; i <= size; i++) {
-    *(dst_ + (size - i)) = *(src_ + i);
+  for (i = 0; i < size; i++) {
+    *(dst_ + (size - 1 - i)) = *(src_ + i);
   }
 
   return dst;
-- 
2.43.0


From fd2f36afd7e018aa4d31777598965d8e427d4945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:22 +0000
Subject: [PATCH 28/59] fix: an annular occultation discarded the shadow of the
 other shadow sources

---
 src/environment/local/solar_radiation_pressure_environment.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/environment/local/solar_radiation_pressure_environment.cpp b/src/environment/local/solar_radiation_pressure_environment.cpp
index c571f30..ecb1344 100644
--- a/src/environment/local/solar_radiation_pressure_environment.cpp
+++ b/src/environment/local/solar_radiation_pressure_environment.cpp
@@ -89,7 +89,7 @@ void SolarRadiationPressureEnvironment::CalcShadowCoefficient(std::string shadow
     shadow_coefficient_ *= 0.0;
   } else if (c < fabs(a - b) && a > b)  // The occultation is partial but maximum
   {
-    shadow_coefficient_ = 1.0 - (b * b) / (a * a);
+    shadow_coefficient_ *= 1.0 - (b * b) / (a * a);
   } else if (fabs(a - b) <= c && c <= (a + b))  // spacecraft is in penumbra
   {
     double A = a * a * acos(x / a) + b * b * acos((c - x) / b) - c * y;  // The area of the occulted segment of the apparent solar disk
-- 
2.43.0


From 33d1c6f64e9f456542ceddcd6369aaac10d1fdb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:22 +0000
Subject: [PATCH 29/59] fix: the first third-body shadow source was added
 repeatedly in place of the listed ones

---
 src/environment/local/solar_radiation_pressure_environment.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/environment/local/solar_radiation_pressure_environment.cpp b/src/environment/local/solar_radiation_pressure_environment.cpp
index ecb1344..381c86b 100644
--- a/src/environment/local/solar_radiation_pressure_environment.cpp
+++ b/src/environment/local/solar_radiation_pressure_environment.cpp
@@ -116,7 +116,7 @@ SolarRadiationPressureEnvironment InitSolarRadiationPressureEnvironment(std::str
   size_t number_of_third_shadow_source = conf.ReadInt(section, "number_of_third_shadow_source");
   std::vector<std::string> list = conf.ReadVectorString(section, "third_shadow_source_name", number_of_third_shadow_source);
   for (size_t i = 0; i < number_of_third_shadow_source; i++) {
-    srp_env.AddShadowSource(list[0]);
+    srp_env.AddShadowSource(list[i]);
   }
 
   return srp_env;
-- 
2.43.0


From fcb34cf90a1e262190e8b87bd253ec0793052c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:45 +0000
Subject: [PATCH 30/59] fix: shadow of a celestial body was judged with the
 Sun's direction seen from that body

---
 .../local/solar_radiation_pressure_environment.cpp            | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/environment/local/solar_radiation_pressure_environment.cpp b/src/environment/local/solar_radiation_pressure_environment.cpp
index 381c86b..ccbc80d 100644
--- a/src/environment/local/solar_radiation_pressure_environment.cpp
+++ b/src/environment/local/solar_radiation_pressure_environment.cpp
@@ -73,8 +73,8 @@ void SolarRadiationPressureEnvironment::CalcShadowCoefficient(std::string shadow
   const double sd_source = asin(shadow_source_radius_m / r_sc2source_eci.CalcNorm());  // Apparent radius of the shadow source
 
   // Angle of deviation from shadow source center to sun center
-  math::Vector<3> r_source2sun_eci = r_sc2sun_eci - r_sc2source_eci;
-  const double delta = acos(InnerProduct(r_sc2source_eci, r_sc2sun_eci - r_sc2source_eci) / r_sc2source_eci.CalcNorm() / r_source2sun_eci.CalcNorm());
+  const double cos_delta = InnerProduct(r_sc2source_eci, r_sc2sun_eci) / r_sc2source_eci.CalcNorm() / distance_sat_to_sun;
+  const double delta = acos(std::max(-1.0, std::min(cos_delta, 1.0)));
   // The angle between the center of the sun and the common chord
   const double x = (delta * delta + sd_sun * sd_sun - sd_source * sd_source) / (2.0 * delta);
   // The length of the common chord of the apparent solar disk and apparent telestial disk
-- 
2.43.0


From d118fb38b8500f742ef188e5fdf95c792f822f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:45 +0000
Subject: [PATCH 31/59] fix: air density noise never reached the air density of
 the environment

---
 src/environment/local/atmosphere.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/environment/local/atmosphere.cpp b/src/environment/local/atmosphere.cpp
index 74b2323..27023f3 100644
--- a/src/environment/local/atmosphere.cpp
+++ b/src/environment/local/atmosphere.cpp
@@ -75,7 +75,8 @@ double Atmosphere::CalcAirDensity_kg_m3(const double decimal_year, const dynamic
     return air_density_kg_m3_ = 0.0;
   }
 
-  return AddNoise(air_density_kg_m3_);
+  air_density_kg_m3_ = AddNoise(air_density_kg_m3_);
+  return air_density_kg_m3_;
 }
 
 double Atmosphere::AddNoise(const double rho_kg_m3) {
-- 
2.43.0


From 10a7baddd081ca870a5b951a84efaf44b73fd90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:45 +0000
Subject: [PATCH 32/59] fix: Harris-Priester density bulge used the inertial
 Sun direction with an Earth-fixed position

---
 src/environment/local/atmosphere.cpp                  | 6 ++++--
 src/math_physics/atmosphere/harris_priester_model.cpp | 6 +++---
 src/math_physics/atmosphere/harris_priester_model.hpp | 4 ++--
 3 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/environment/local/atmosphere.cpp b/src/environment/local/atmosphere.cpp
index 27023f3..28c173f 100644
--- a/src/environment/local/atmosphere.cpp
+++ b/src/environment/local/atmosphere.cpp
@@ -68,8 +68,10 @@ double Atmosphere::CalcAirDensity_kg_m3(const double decimal_year, const dynamic
                                         manual_average_f107_, manual_ap_);
   } else if (model_ == "HARRIS_PRIESTER") {
     // Harris-Priester
-    math::Vector<3> sun_direction_eci = local_celestial_information_->GetGlobalInformation().GetPositionFromCenter_i_m("SUN").CalcNormalizedVector();
-    air_density_kg_m3_ = atmosphere::CalcAirDensityWithHarrisPriester_kg_m3(orbit.GetGeodeticPosition(), sun_direction_eci);
+    const CelestialInformation& celestial_information = local_celestial_information_->GetGlobalInformation();
+    math::Vector<3> sun_direction_eci = celestial_information.GetPositionFromCenter_i_m("SUN").CalcNormalizedVector();
+    math::Vector<3> sun_direction_ecef = celestial_information.GetEarthRotation().GetDcmJ2000ToEcef() * sun_direction_eci;
+    air_density_kg_m3_ = atmosphere::CalcAirDensityWithHarrisPriester_kg_m3(orbit.GetGeodeticPosition(), sun_direction_ecef);
   } else {
     // No suitable model
     return air_density_kg_m3_ = 0.0;
diff --git a/src/math_physics/atmosphere/harris_priester_model.cpp b/src/math_physics/atmosphere/harris_priester_model.cpp
index 6973caf..6fc8ce1 100644
--- a/src/math_physics/atmosphere/harris_priester_model.cpp
+++ b/src/math_physics/atmosphere/harris_priester_model.cpp
@@ -28,7 +28,7 @@ double CalcScaleHeight_km(const std::map<double, double>::const_iterator density
  */
 double CalcApexDensity_g_km3(const std::map<double, double>::const_iterator density_itr, const double altitude_km);
 
-double CalcAirDensityWithHarrisPriester_kg_m3(const geodesy::GeodeticPosition geodetic_position, const math::Vector<3> sun_direction_eci,
+double CalcAirDensityWithHarrisPriester_kg_m3(const geodesy::GeodeticPosition geodetic_position, const math::Vector<3> sun_direction_ecef,
                                               const double f10_7, const double exponent_parameter) {
   // Altitude
   double altitude_km = geodetic_position.GetAltitude_m() / 1000.0;
@@ -39,8 +39,8 @@ double CalcAirDensityWithHarrisPriester_kg_m3(const geodesy::GeodeticPosition ge
   // Phi: angle between the satellite position and apex of the diurnal bulge
   double sun_ra_rad;   //!< Right ascension of the sun phi
   double sun_dec_rad;  //!< Declination of the sun theta
-  sun_ra_rad = atan2(sun_direction_eci[1], sun_direction_eci[0]);
-  sun_dec_rad = atan2(sun_direction_eci[2], sqrt(sun_direction_eci[0] * sun_direction_eci[0] + sun_direction_eci[1] * sun_direction_eci[1]));
+  sun_ra_rad = atan2(sun_direction_ecef[1], sun_direction_ecef[0]);
+  sun_dec_rad = atan2(sun_direction_ecef[2], sqrt(sun_direction_ecef[0] * sun_direction_ecef[0] + sun_direction_ecef[1] * sun_direction_ecef[1]));
   math::Vector<3> apex_direction;
   const double lag_angle_rad = 30.0 * math::deg_to_rad;
   double apex_ra_rad = sun_ra_rad + lag_angle_rad;
diff --git a/src/math_physics/atmosphere/harris_priester_model.hpp b/src/math_physics/atmosphere/harris_priester_model.hpp
index 8b64550..4eac777 100644
--- a/src/math_physics/atmosphere/harris_priester_model.hpp
+++ b/src/math_physics/atmosphere/harris_priester_model.hpp
@@ -15,12 +15,12 @@ namespace s2e::atmosphere {
  * @fn CalcAirDensityWithHarrisPriester
  * @brief Calculate atmospheric density with Harris-Priester method
  * @param [in] geodetic_position: Spacecraft geodetic position
- * @param [in] sun_direction_eci: Sun direction unit vector in ECI frame
+ * @param [in] sun_direction_ecef: Sun direction unit vector in ECI frame
  * @param [in] f10_7: F10.7 radiation index (not used now)
  * @param [in] exponent_parameter: n in the equation. n=2 for low inclination orbit and n=6 for polar orbit.
  * @return Atmospheric density [kg/m^3]
  */
-double CalcAirDensityWithHarrisPriester_kg_m3(const geodesy::GeodeticPosition geodetic_position, const math::Vector<3> sun_direction_eci,
+double CalcAirDensityWithHarrisPriester_kg_m3(const geodesy::GeodeticPosition geodetic_position, const math::Vector<3> sun_direction_ecef,
                                               const double f10_7 = 100.0, const double exponent_parameter = 4);
 
 }  // namespace s2e::atmosphere
-- 
2.43.0


From 60da65f421237afc7692c0d1ec8bde51deaedb7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:45 +0000
Subject: [PATCH 33/59] fix: Harris-Priester density beyond the table read past
 its end or was not converted to kg/m3

---
 src/math_physics/atmosphere/harris_priester_model.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/math_physics/atmosphere/harris_priester_model.cpp b/src/math_physics/atmosphere/harris_priester_model.cpp
index 6fc8ce1..7b3b825 100644
--- a/src/math_physics/atmosphere/harris_priester_model.cpp
+++ b/src/math_physics/atmosphere/harris_priester_model.cpp
@@ -55,8 +55,10 @@ double CalcAirDensityWithHarrisPriester_kg_m3(const geodesy::GeodeticPosition ge
   UNUSED(f10_7);  // TODO: Use F10.7 value to search coefficients
   auto min_density_itr = harris_priester_min_density_table.upper_bound(altitude_km);
   auto max_density_itr = harris_priester_max_density_table.upper_bound(altitude_km);
-  if (min_density_itr == harris_priester_min_density_table.begin()) return min_density_itr->second;
-  if (min_density_itr == harris_priester_min_density_table.end()) return (min_density_itr->second + max_density_itr->second) / 2.0;
+  if (min_density_itr == harris_priester_min_density_table.begin()) return min_density_itr->second * 1e-12;
+  if (min_density_itr == harris_priester_min_density_table.end()) {
+    return (harris_priester_min_density_table.rbegin()->second + harris_priester_max_density_table.rbegin()->second) / 2.0 * 1e-12;
+  }
   min_density_itr = prev(min_density_itr);
   max_density_itr = prev(max_density_itr);
 
-- 
2.43.0


From 0b42338fe6f6cfa03e5b102400b7b0f1c5c09ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:45 +0000
Subject: [PATCH 34/59] fix: simple air density model returned zero at exactly
 1000 km

---
 src/math_physics/atmosphere/simple_air_density_model.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math_physics/atmosphere/simple_air_density_model.cpp b/src/math_physics/atmosphere/simple_air_density_model.cpp
index f616f67..7b89adf 100644
--- a/src/math_physics/atmosphere/simple_air_density_model.cpp
+++ b/src/math_physics/atmosphere/simple_air_density_model.cpp
@@ -15,7 +15,7 @@ double CalcAirDensityWithSimpleModel(const double altitude_m) {
   double base_rho_kg_m3;
 
   // scale_height_km values: Ref "ミッション解析と軌道設計の基礎" (in Japanese)
-  if (altitude_km > 1000.0) {
+  if (altitude_km >= 1000.0) {
     scale_height_km = 268.0;
     base_height_km = 1000.0;
     base_rho_kg_m3 = 3.019E-15;
-- 
2.43.0


From 3852f6697680a3d27aa9b4eb756ab27d7fba3ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:09 +0000
Subject: [PATCH 35/59] fix: base density at 350 km of the simple air density
 model had two digits swapped

---
 src/math_physics/atmosphere/simple_air_density_model.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math_physics/atmosphere/simple_air_density_model.cpp b/src/math_physics/atmosphere/simple_air_density_model.cpp
index 7b89adf..109e33b 100644
--- a/src/math_physics/atmosphere/simple_air_density_model.cpp
+++ b/src/math_physics/atmosphere/simple_air_density_model.cpp
@@ -50,7 +50,7 @@ double CalcAirDensityWithSimpleModel(const double altitude_m) {
   } else if (altitude_km >= 350.0 && altitude_km < 400.0) {
     scale_height_km = 53.298;
     base_height_km = 350.0;
-    base_rho_kg_m3 = 9.158E-12;
+    base_rho_kg_m3 = 9.518E-12;
   } else if (altitude_km >= 300.0 && altitude_km < 350.0) {
     scale_height_km = 53.628;
     base_height_km = 300.0;
-- 
2.43.0


From dc06dae01af9ce519389ae641ca6264ca59c7598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:57 +0000
Subject: [PATCH 36/59] fix: coefficient reader of the geomagnetic model looked
 at the next coefficient to find the highest degree

---
 src/math_physics/geomagnetic/igrf.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/math_physics/geomagnetic/igrf.cpp b/src/math_physics/geomagnetic/igrf.cpp
index 939625b..c5822ef 100644
--- a/src/math_physics/geomagnetic/igrf.cpp
+++ b/src/math_physics/geomagnetic/igrf.cpp
@@ -428,17 +428,17 @@ void gigrf(int gen, double year) {
   for (i = 0, n = 1; n <= maxod; n++) {
     vgh[0][n] = cb[i];
     vght[0][n] = cv[i];
-    i++;
     if ((cb[i] != 0.) || (cv[i] != 0.)) k = n;
+    i++;
     for (m = 1; m <= n; m++) {
       vgh[m][n] = cb[i];
       vght[m][n] = cv[i];
-      i++;
       if ((cb[i] != 0.) || (cv[i] != 0.)) k = n;
+      i++;
       vgh[n][m - 1] = cb[i];
       vght[n][m - 1] = cv[i];
-      i++;
       if ((cb[i] != 0.) || (cv[i] != 0.)) k = n;
+      i++;
     }
   }
   maxod = k;
-- 
2.43.0


From cf51f92d57a49c40991dfff7a38939479b1c025d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:56 +0000
Subject: [PATCH 37/59] fix: star sensor delivered a sample of the wrong age
 when the delay buffer wrapped

---
 src/components/real/aocs/star_sensor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/components/real/aocs/star_sensor.cpp b/src/components/real/aocs/star_sensor.cpp
index 1ce9315..c26c84a 100644
--- a/src/components/real/aocs/star_sensor.cpp
+++ b/src/components/real/aocs/star_sensor.cpp
@@ -74,7 +74,7 @@ void StarSensor::Initialize() {
 
   // Decide delay buffer size
   max_delay_ = int(output_delay_ * 2 / step_time_s_);
-  if (max_delay_ <= 0) max_delay_ = 1;
+  if (max_delay_ <= int(output_delay_)) max_delay_ = int(output_delay_) + 1;  // The buffer holds the delayed samples and the latest one
   vector<math::Quaternion> temp(max_delay_);
   delay_buffer_ = temp;
   // Initialize delay buffer
@@ -97,7 +97,7 @@ Quaternion StarSensor::Measure(const environment::LocalCelestialInformation* loc
   if (update_count_ == 0) {
     int hist = buffer_position_ - output_delay_ - 1;
     if (hist < 0) {
-      hist = max_delay_ - 1;
+      hist += max_delay_;
     }
     measured_quaternion_i2c_ = delay_buffer_[hist];
   }
-- 
2.43.0


From 93d7089282421e3cf2e5a4618ceec5cc3bbdd1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:56 +0000
Subject: [PATCH 38/59] fix: star sensor underestimated the apparent size of
 the Earth

---
 src/components/real/aocs/star_sensor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/components/real/aocs/star_sensor.cpp b/src/components/real/aocs/star_sensor.cpp
index c26c84a..4888844 100644
--- a/src/components/real/aocs/star_sensor.cpp
+++ b/src/components/real/aocs/star_sensor.cpp
@@ -155,8 +155,8 @@ int StarSensor::SunJudgement(const math::Vector<3>& sun_b) {
 int StarSensor::EarthJudgement(const math::Vector<3>& earth_b) {
   math::Quaternion q_c2b = quaternion_b2c_.Conjugate();
   math::Vector<3> sight_b = q_c2b.FrameConversion(sight_direction_c_);
-  double earth_size_rad = atan2(environment::earth_equatorial_radius_m,
-                                earth_b.CalcNorm());                      // angles between sat<->earth_center & sat<->earth_edge
+  double earth_size_rad = asin(environment::earth_equatorial_radius_m /
+                               earth_b.CalcNorm());                       // angles between sat<->earth_center & sat<->earth_edge
   double earth_center_angle_rad = CalAngleVector_rad(earth_b, sight_b);   // angles between sat<->earth_center & sat_sight
   double earth_edge_angle_rad = earth_center_angle_rad - earth_size_rad;  // angles between sat<->earth_edge & sat_sight
   if (earth_edge_angle_rad < earth_forbidden_angle_rad_)
-- 
2.43.0


From b1d89fefcc2c5a4ffc5a25e2243aebbcd1301428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:56 +0000
Subject: [PATCH 39/59] fix: sun sensor judged the detection with the
 illuminance of the previous step

---
 src/components/real/aocs/sun_sensor.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/components/real/aocs/sun_sensor.cpp b/src/components/real/aocs/sun_sensor.cpp
index 3745d99..9fa7ebc 100644
--- a/src/components/real/aocs/sun_sensor.cpp
+++ b/src/components/real/aocs/sun_sensor.cpp
@@ -67,6 +67,7 @@ void SunSensor::Measure() {
 
   sun_direction_true_c_ = quaternion_b2c_.FrameConversion(sun_dir_b);  // Frame conversion from body to component
 
+  CalcSolarIlluminance();   // Needed by the judgement
   SunDetectionJudgement();  // Judge the sun is inside the FoV
 
   if (sun_detected_flag_) {
@@ -94,8 +95,6 @@ void SunSensor::Measure() {
     alpha_rad_ = 0.0;
     beta_rad_ = 0.0;
   }
-
-  CalcSolarIlluminance();
 }
 
 void SunSensor::SunDetectionJudgement() {
-- 
2.43.0


From 9908240b594879ae0e8f5d9359bbcc51b6195bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:56 +0000
Subject: [PATCH 40/59] fix: both axes of every sun sensor drew the same random
 noise

---
 src/components/real/aocs/sun_sensor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/components/real/aocs/sun_sensor.cpp b/src/components/real/aocs/sun_sensor.cpp
index 9fa7ebc..1fb398a 100644
--- a/src/components/real/aocs/sun_sensor.cpp
+++ b/src/components/real/aocs/sun_sensor.cpp
@@ -52,8 +52,8 @@ void SunSensor::Initialize(const double random_noise_standard_deviation_rad, con
   bias_noise_beta_rad_ += nr;
 
   // Normal Random
-  random_noise_alpha_.SetParameters(0.0, random_noise_standard_deviation_rad);  // global_randomization.MakeSeed()
-  random_noise_beta_.SetParameters(0.0, random_noise_standard_deviation_rad);   // global_randomization.MakeSeed()
+  random_noise_alpha_.SetParameters(0.0, random_noise_standard_deviation_rad, randomization::global_randomization.MakeSeed());
+  random_noise_beta_.SetParameters(0.0, random_noise_standard_deviation_rad, randomization::global_randomization.MakeSeed());
 }
 void SunSensor::MainRoutine(const int time_count) {
   UNUSED(time_count);
-- 
2.43.0


From 05f5e5acfe9d08e870af9a3ae964d3fa3d41ebb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:47 +0000
Subject: [PATCH 41/59] fix: all reaction wheels shared the jitter of the wheel
 initialized last

---
 src/components/real/aocs/reaction_wheel.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/components/real/aocs/reaction_wheel.hpp b/src/components/real/aocs/reaction_wheel.hpp
index 39965a6..39aa76a 100644
--- a/src/components/real/aocs/reaction_wheel.hpp
+++ b/src/components/real/aocs/reaction_wheel.hpp
@@ -209,7 +209,7 @@ class ReactionWheel : public Component, public logger::ILoggable {
   ReactionWheelOde ode_angular_velocity_;  //!< Reaction Wheel OrdinaryDifferentialEquation
 
   // RW jitter
-  ReactionWheelJitter& rw_jitter_;     //!< RW jitter
+  ReactionWheelJitter rw_jitter_;      //!< RW jitter
   bool is_calculated_jitter_ = false;  //!< Flag for calculation of jitter
   bool is_logged_jitter_ = false;      //!< Flag for log output of jitter
 
-- 
2.43.0


From eafc98a4a21407aa9fcf1f975ad3025f87b94af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:47 +0000
Subject: [PATCH 42/59] fix: reaction wheel without power kept its last output
 torque

---
 src/components/real/aocs/reaction_wheel.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/components/real/aocs/reaction_wheel.cpp b/src/components/real/aocs/reaction_wheel.cpp
index 9cdbac4..29ae9c0 100644
--- a/src/components/real/aocs/reaction_wheel.cpp
+++ b/src/components/real/aocs/reaction_wheel.cpp
@@ -92,7 +92,11 @@ void ReactionWheel::MainRoutine(const int time_count) {
   CalcTorque();
 }
 
-void ReactionWheel::PowerOffRoutine() { drive_flag_ = 0; }
+void ReactionWheel::PowerOffRoutine() {
+  drive_flag_ = 0;
+  generated_angular_acceleration_rad_s2_ = 0.0;
+  output_torque_b_Nm_ *= 0.0;
+}
 
 // Jitter calculation
 void ReactionWheel::FastUpdate() {
-- 
2.43.0


From 5ca299482f33fefb07aba01abd541770b1adf18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:47 +0000
Subject: [PATCH 43/59] fix: reaction wheel with initial rotation reported no
 angular momentum before its first update

---
 src/components/real/aocs/reaction_wheel.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/components/real/aocs/reaction_wheel.cpp b/src/components/real/aocs/reaction_wheel.cpp
index 29ae9c0..9d97521 100644
--- a/src/components/real/aocs/reaction_wheel.cpp
+++ b/src/components/real/aocs/reaction_wheel.cpp
@@ -80,6 +80,7 @@ void ReactionWheel::Initialize() {
 
   angular_velocity_rad_s_ = ode_angular_velocity_.GetAngularVelocity_rad_s();
   angular_velocity_rpm_ = angular_velocity_rad_s_ * math::rad_s_to_rpm;
+  angular_momentum_b_Nms_ = rotor_inertia_kgm2_ * angular_velocity_rad_s_ * rotation_axis_b_;
 
   // Turn on RW jitter calculation
   if (is_calculated_jitter_) {
-- 
2.43.0


From 5b82d9beadaca22b4198c4039da88bd7dfb926e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:47 +0000
Subject: [PATCH 44/59] fix: magnetorquer added its noise to the moment of the
 previous step

---
 src/components/real/aocs/magnetorquer.cpp | 2 ++
 src/components/real/aocs/magnetorquer.hpp | 3 ++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/components/real/aocs/magnetorquer.cpp b/src/components/real/aocs/magnetorquer.cpp
index 0ee096e..8a5f4f8 100644
--- a/src/components/real/aocs/magnetorquer.cpp
+++ b/src/components/real/aocs/magnetorquer.cpp
@@ -67,11 +67,13 @@ void Magnetorquer::MainRoutine(const int time_count) {
 
 void Magnetorquer::PowerOffRoutine() {
   torque_b_Nm_ *= 0.0;
+  target_magnetic_moment_c_Am2_ *= 0.0;
   output_magnetic_moment_c_Am2_ *= 0.0;
   output_magnetic_moment_b_Am2_ *= 0.0;
 }
 
 math::Vector<kMtqDimension> Magnetorquer::CalcOutputTorque(void) {
+  output_magnetic_moment_c_Am2_ = target_magnetic_moment_c_Am2_;
   for (size_t i = 0; i < kMtqDimension; ++i) {
     // Limit Check
     if (output_magnetic_moment_c_Am2_[i] > max_magnetic_moment_c_Am2_[i]) {
diff --git a/src/components/real/aocs/magnetorquer.hpp b/src/components/real/aocs/magnetorquer.hpp
index 0ef0a5e..a802687 100644
--- a/src/components/real/aocs/magnetorquer.hpp
+++ b/src/components/real/aocs/magnetorquer.hpp
@@ -108,7 +108,7 @@ class Magnetorquer : public Component, public logger::ILoggable {
    * @fn SetOutputMagneticMoment_c_Am2
    * @brief Set output magnetic moment in the component frame [Am2]
    */
-  inline void SetOutputMagneticMoment_c_Am2(const math::Vector<kMtqDimension> mag_moment_c) { output_magnetic_moment_c_Am2_ = mag_moment_c; };
+  inline void SetOutputMagneticMoment_c_Am2(const math::Vector<kMtqDimension> mag_moment_c) { target_magnetic_moment_c_Am2_ = mag_moment_c; };
 
   /**
    * @fn SetOutputMagneticMoment_b_Am2
@@ -126,6 +126,7 @@ class Magnetorquer : public Component, public logger::ILoggable {
   const int component_id_ = 0;                                     //!< Actuator ID
   const double kConvertNanoT2T = 1.0e-9;                           //!< Constant to convert nT to T
   math::Vector<kMtqDimension> torque_b_Nm_{0.0};                   //!< Output torque in the body fixed frame [Nm]
+  math::Vector<kMtqDimension> target_magnetic_moment_c_Am2_{0.0};  //!< Target magnetic moment in the component frame [Am2]
   math::Vector<kMtqDimension> output_magnetic_moment_c_Am2_{0.0};  //!< Output output magnetic moment in the component frame [Am2]
   math::Vector<kMtqDimension> output_magnetic_moment_b_Am2_{0.0};  //!< Output output magnetic moment in the body fixed frame [Am2]
   math::Quaternion quaternion_b2c_{0.0, 0.0, 0.0, 1.0};            //!< Quaternion from body frame to component frame
-- 
2.43.0


From bfa3b3f3ead560edcdcbc1a0b957bfdae4f25dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:47 +0000
Subject: [PATCH 45/59] fix: all axes of every magnetorquer drew the same
 random noise

---
 src/components/real/aocs/magnetorquer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/components/real/aocs/magnetorquer.cpp b/src/components/real/aocs/magnetorquer.cpp
index 8a5f4f8..56a7d1f 100644
--- a/src/components/real/aocs/magnetorquer.cpp
+++ b/src/components/real/aocs/magnetorquer.cpp
@@ -32,7 +32,7 @@ Magnetorquer::Magnetorquer(const int prescaler, environment::ClockGenerator* clo
       random_walk_c_Am2_(random_walk_step_width_s, random_walk_standard_deviation_c_Am2, random_walk_limit_c_Am2),
       geomagnetic_field_(geomagnetic_field) {
   for (size_t i = 0; i < kMtqDimension; i++) {
-    random_noise_c_Am2_[i].SetParameters(0.0, normal_random_standard_deviation_c_Am2[i]);  // global_randomization.MakeSeed()
+    random_noise_c_Am2_[i].SetParameters(0.0, normal_random_standard_deviation_c_Am2[i], randomization::global_randomization.MakeSeed());
   }
 }
 
@@ -55,7 +55,7 @@ Magnetorquer::Magnetorquer(const int prescaler, environment::ClockGenerator* clo
       random_walk_c_Am2_(random_walk_step_width_s, random_walk_standard_deviation_c_Am2, random_walk_limit_c_Am2),
       geomagnetic_field_(geomagnetic_field) {
   for (size_t i = 0; i < kMtqDimension; i++) {
-    random_noise_c_Am2_[i].SetParameters(0.0, normal_random_standard_deviation_c_Am2[i]);  // global_randomization.MakeSeed()
+    random_noise_c_Am2_[i].SetParameters(0.0, normal_random_standard_deviation_c_Am2[i], randomization::global_randomization.MakeSeed());
   }
 }
 
-- 
2.43.0


From e3994dc8e308e4f1df3fb7873f8b61eb15fc50c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:47 +0000
Subject: [PATCH 46/59] fix: magnitude and direction errors of every thruster
 drew the same random noise

---
 src/components/real/propulsion/simple_thruster.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/components/real/propulsion/simple_thruster.cpp b/src/components/real/propulsion/simple_thruster.cpp
index 0a63653..4b9de88 100644
--- a/src/components/real/propulsion/simple_thruster.cpp
+++ b/src/components/real/propulsion/simple_thruster.cpp
@@ -55,8 +55,8 @@ SimpleThruster::SimpleThruster(const int prescaler, environment::ClockGenerator*
 SimpleThruster::~SimpleThruster() {}
 
 void SimpleThruster::Initialize(const double magnitude_standard_deviation_N, const double direction_standard_deviation_rad) {
-  magnitude_random_noise_.SetParameters(0.0, magnitude_standard_deviation_N);
-  direction_random_noise_.SetParameters(0.0, direction_standard_deviation_rad);
+  magnitude_random_noise_.SetParameters(0.0, magnitude_standard_deviation_N, randomization::global_randomization.MakeSeed());
+  direction_random_noise_.SetParameters(0.0, direction_standard_deviation_rad, randomization::global_randomization.MakeSeed());
   thrust_direction_b_ = thrust_direction_b_.CalcNormalizedVector();
 }
 
-- 
2.43.0


From 81fae7a2f37627ed087abd3723569266c20eb5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:47 +0000
Subject: [PATCH 47/59] fix: thruster added thrust noise during its dead time

---
 src/components/real/propulsion/simple_thruster.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/components/real/propulsion/simple_thruster.cpp b/src/components/real/propulsion/simple_thruster.cpp
index 4b9de88..ea7a637 100644
--- a/src/components/real/propulsion/simple_thruster.cpp
+++ b/src/components/real/propulsion/simple_thruster.cpp
@@ -79,7 +79,7 @@ void SimpleThruster::PowerOffRoutine() {
 
 void SimpleThruster::CalcThrust() {
   double mag = CalcThrustMagnitude();
-  if (duty_ > 0.0 + DBL_EPSILON) mag += magnitude_random_noise_;
+  if (mag > 0.0 + DBL_EPSILON) mag += magnitude_random_noise_;
   output_thrust_b_N_ = mag * CalcThrustDirection();
 }
 
-- 
2.43.0


From 81237c900ba7ce8a9803f3bc1eb2e953870c6d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:22 +0000
Subject: [PATCH 48/59] fix: ideal force and torque generators and attitude
 observer drew the same random noise for all errors

---
 src/components/ideal/attitude_observer.cpp | 5 +++--
 src/components/ideal/force_generator.cpp   | 5 +++--
 src/components/ideal/torque_generator.cpp  | 5 +++--
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/components/ideal/attitude_observer.cpp b/src/components/ideal/attitude_observer.cpp
index a77c1b4..f87509b 100644
--- a/src/components/ideal/attitude_observer.cpp
+++ b/src/components/ideal/attitude_observer.cpp
@@ -6,14 +6,15 @@
 #include "attitude_observer.hpp"
 
 #include <math_physics/math/constants.hpp>
+#include <math_physics/randomization/global_randomization.hpp>
 #include <setting_file_reader/initialize_file_access.hpp>
 
 namespace s2e::components {
 
 AttitudeObserver::AttitudeObserver(const int prescaler, environment::ClockGenerator* clock_generator, const double standard_deviation_rad,
                                    const dynamics::attitude::Attitude& attitude)
-    : Component(prescaler, clock_generator), angle_noise_(0.0, standard_deviation_rad), attitude_(attitude) {
-  direction_noise_.SetParameters(0.0, 1.0);
+    : Component(prescaler, clock_generator), angle_noise_(0.0, standard_deviation_rad, randomization::global_randomization.MakeSeed()), attitude_(attitude) {
+  direction_noise_.SetParameters(0.0, 1.0, randomization::global_randomization.MakeSeed());
 }
 
 void AttitudeObserver::MainRoutine(const int time_count) {
diff --git a/src/components/ideal/force_generator.cpp b/src/components/ideal/force_generator.cpp
index 2104ad4..ae0b1c7 100644
--- a/src/components/ideal/force_generator.cpp
+++ b/src/components/ideal/force_generator.cpp
@@ -6,6 +6,7 @@
 #include "force_generator.hpp"
 
 #include <cfloat>
+#include <math_physics/randomization/global_randomization.hpp>
 #include <setting_file_reader/initialize_file_access.hpp>
 
 namespace s2e::components {
@@ -14,10 +15,10 @@ namespace s2e::components {
 ForceGenerator::ForceGenerator(const int prescaler, environment::ClockGenerator* clock_generator, const double magnitude_error_standard_deviation_N,
                                const double direction_error_standard_deviation_rad, const dynamics::Dynamics* dynamics)
     : Component(prescaler, clock_generator),
-      magnitude_noise_(0.0, magnitude_error_standard_deviation_N),
+      magnitude_noise_(0.0, magnitude_error_standard_deviation_N, randomization::global_randomization.MakeSeed()),
       direction_error_standard_deviation_rad_(direction_error_standard_deviation_rad),
       dynamics_(dynamics) {
-  direction_noise_.SetParameters(0.0, 1.0);
+  direction_noise_.SetParameters(0.0, 1.0, randomization::global_randomization.MakeSeed());
 }
 
 ForceGenerator::~ForceGenerator() {}
diff --git a/src/components/ideal/torque_generator.cpp b/src/components/ideal/torque_generator.cpp
index c64478b..fd0a0a3 100644
--- a/src/components/ideal/torque_generator.cpp
+++ b/src/components/ideal/torque_generator.cpp
@@ -6,6 +6,7 @@
 #include "torque_generator.hpp"
 
 #include <cfloat>
+#include <math_physics/randomization/global_randomization.hpp>
 #include <setting_file_reader/initialize_file_access.hpp>
 
 namespace s2e::components {
@@ -15,10 +16,10 @@ TorqueGenerator::TorqueGenerator(const int prescaler, environment::ClockGenerato
                                  const double magnitude_error_standard_deviation_Nm, const double direction_error_standard_deviation_rad,
                                  const dynamics::Dynamics* dynamics)
     : Component(prescaler, clock_generator),
-      magnitude_noise_(0.0, magnitude_error_standard_deviation_Nm),
+      magnitude_noise_(0.0, magnitude_error_standard_deviation_Nm, randomization::global_randomization.MakeSeed()),
       direction_error_standard_deviation_rad_(direction_error_standard_deviation_rad),
       dynamics_(dynamics) {
-  direction_noise_.SetParameters(0.0, 1.0);
+  direction_noise_.SetParameters(0.0, 1.0, randomization::global_randomization.MakeSeed());
 }
 
 TorqueGenerator::~TorqueGenerator() {}
-- 
2.43.0


From 328c65b00a935ee6c559d41ed69080f9c89cf11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:22 +0000
Subject: [PATCH 49/59] fix: antenna pattern used the cut at zero azimuth for
 every direction with negative azimuth

---
 .../real/communication/antenna_radiation_pattern.cpp     | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/components/real/communication/antenna_radiation_pattern.cpp b/src/components/real/communication/antenna_radiation_pattern.cpp
index b1a3bce..6ded57a 100644
--- a/src/components/real/communication/antenna_radiation_pattern.cpp
+++ b/src/components/real/communication/antenna_radiation_pattern.cpp
@@ -26,6 +26,15 @@ double AntennaRadiationPattern::GetGain_dBi(const double theta_rad, const double
   // Argument check
   double theta_rad_clipped = theta_rad;
   double phi_rad_clipped = phi_rad;
+  if (phi_rad_clipped < 0.0) {
+    // Use the equivalent angles covered by the table
+    if (phi_max_rad_ > 1.5 * math::pi) {
+      phi_rad_clipped += math::tau;
+    } else if (theta_max_rad_ > 1.5 * math::pi) {
+      theta_rad_clipped = math::tau - theta_rad_clipped;
+      phi_rad_clipped += math::pi;
+    }
+  }
   if (theta_rad_clipped < 0.0) theta_rad_clipped = 0.0;
   if (theta_rad_clipped > theta_max_rad_) theta_rad_clipped = theta_max_rad_;
   if (phi_rad_clipped < 0.0) phi_rad_clipped = 0.0;
-- 
2.43.0


From 9d1bd8611c949d63c424d4ae7003f092f0ffcf5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:24 +0000
Subject: [PATCH 50/59] fix: direction noise of the ideal force and torque
 generators changed the magnitude (rotation axis not normalized)

---
 src/components/ideal/force_generator.cpp  | 2 ++
 src/components/ideal/torque_generator.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/components/ideal/force_generator.cpp b/src/components/ideal/force_generator.cpp
index ae0b1c7..ab14681 100644
--- a/src/components/ideal/force_generator.cpp
+++ b/src/components/ideal/force_generator.cpp
@@ -101,6 +101,8 @@ math::Quaternion ForceGenerator::GenerateDirectionNoiseQuaternion(math::Vector<3
   if (norm_rotation_axis < 0.0 + DBL_EPSILON) {
     // No rotation error if the randomized direction is parallel to the true direction
     rotation_axis = true_direction;
+  } else {
+    rotation_axis = rotation_axis.CalcNormalizedVector();
   }
 
   double error_angle_rad = direction_noise_ * error_standard_deviation_rad;
diff --git a/src/components/ideal/torque_generator.cpp b/src/components/ideal/torque_generator.cpp
index fd0a0a3..7f3d155 100644
--- a/src/components/ideal/torque_generator.cpp
+++ b/src/components/ideal/torque_generator.cpp
@@ -75,6 +75,8 @@ math::Quaternion TorqueGenerator::GenerateDirectionNoiseQuaternion(math::Vector<
   if (norm_rotation_axis < 0.0 + DBL_EPSILON) {
     // No rotation error if the randomized direction is parallel to the true direction
     rotation_axis = true_direction;
+  } else {
+    rotation_axis = rotation_axis.CalcNormalizedVector();
   }
 
   double error_angle_rad = direction_noise_ * error_standard_deviation_rad;
-- 
2.43.0


From 5b7e16b5e8791a07e4659e16aae66cc588763a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:02:12 +0000
Subject: [PATCH 51/59] fix: link budget composed the antenna rotations in the
 wrong order

---
 .../real/communication/ground_station_calculator.cpp          | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/components/real/communication/ground_station_calculator.cpp b/src/components/real/communication/ground_station_calculator.cpp
index bec0c2f..18ef915 100644
--- a/src/components/real/communication/ground_station_calculator.cpp
+++ b/src/components/real/communication/ground_station_calculator.cpp
@@ -79,7 +79,7 @@ double GroundStationCalculator::CalcCn0OnGs(const dynamics::Dynamics& dynamics,
   // GS direction on SC TX antenna frame
   math::Vector<3> sc_to_gs_i = gs_pos_i - sc_pos_i;
   sc_to_gs_i = sc_to_gs_i.CalcNormalizedVector();
-  math::Quaternion q_i_to_sc_ant = spacecraft_tx_antenna.GetQuaternion_b2c() * dynamics.GetAttitude().GetQuaternion_i2b();
+  math::Quaternion q_i_to_sc_ant = dynamics.GetAttitude().GetQuaternion_i2b() * spacecraft_tx_antenna.GetQuaternion_b2c();
   math::Vector<3> gs_direction_on_sc_frame = q_i_to_sc_ant.FrameConversion(sc_to_gs_i);
   double theta_on_sc_antenna_rad = acos(gs_direction_on_sc_frame[2]);
   double phi_on_sc_antenna_rad = atan2(gs_direction_on_sc_frame[1], gs_direction_on_sc_frame[0]);
@@ -87,7 +87,7 @@ double GroundStationCalculator::CalcCn0OnGs(const dynamics::Dynamics& dynamics,
   // SC direction on GS RX antenna frame
   math::Vector<3> gs_to_sc_ecef = dynamics.GetOrbit().GetPosition_ecef_m() - ground_station.GetPosition_ecef_m();
   gs_to_sc_ecef = gs_to_sc_ecef.CalcNormalizedVector();
-  math::Quaternion q_ecef_to_gs_ant = ground_station_rx_antenna.GetQuaternion_b2c() * ground_station.GetGeodeticPosition().GetQuaternionXcxfToLtc();
+  math::Quaternion q_ecef_to_gs_ant = ground_station.GetGeodeticPosition().GetQuaternionXcxfToLtc() * ground_station_rx_antenna.GetQuaternion_b2c();
   math::Vector<3> sc_direction_on_gs_frame = q_ecef_to_gs_ant.FrameConversion(gs_to_sc_ecef);
   double theta_on_gs_antenna_rad = acos(sc_direction_on_gs_frame[2]);
   double phi_on_gs_antenna_rad = atan2(sc_direction_on_gs_frame[1], sc_direction_on_gs_frame[0]);
-- 
2.43.0


From 3371637ab68d6d98746dbed5fe94c315363a5b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:22:46 +0000
Subject: [PATCH 52/59] fix: internal heat load extrapolated from the wrong
 table interval after the time went back (end of period, propagation stages)

---
 src/dynamics/thermal/heatload.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/dynamics/thermal/heatload.cpp b/src/dynamics/thermal/heatload.cpp
index 29b8cdb..deb0f43 100644
--- a/src/dynamics/thermal/heatload.cpp
+++ b/src/dynamics/thermal/heatload.cpp
@@ -45,11 +45,10 @@ void Heatload::SetElapsedTime_s(double elapsed_time_s) {
   elapsed_time_s_ = elapsed_time_s;
   residual_elapsed_time_s_ = fmod(elapsed_time_s_, time_table_period_s_);
 
-  while (residual_elapsed_time_s_ > time_table_s_[elapsed_time_idx_ + 1]) {
+  // Search from the beginning of the table since the time goes back at the end of the period and between the propagation stages
+  elapsed_time_idx_ = 0;
+  while (elapsed_time_idx_ + 2 < time_table_s_.size() && residual_elapsed_time_s_ > time_table_s_[elapsed_time_idx_ + 1]) {
     elapsed_time_idx_++;
-    if (elapsed_time_idx_ > time_table_s_.size() - 1) {
-      elapsed_time_idx_ = 0;
-    }
   }
 }
 
-- 
2.43.0


From 51d51a382ea494de2412e5f9f8195922adcbeb2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:22:46 +0000
Subject: [PATCH 53/59] fix: temperature propagation ignored the temperatures
 of the Runge-Kutta stages

---
 src/dynamics/thermal/temperature.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/dynamics/thermal/temperature.cpp b/src/dynamics/thermal/temperature.cpp
index 46a39b0..e6f6952 100644
--- a/src/dynamics/thermal/temperature.cpp
+++ b/src/dynamics/thermal/temperature.cpp
@@ -138,9 +138,6 @@ void Temperature::CalcRungeOneStep(double time_now_s, double time_step_s, const
 
 vector<double> Temperature::CalcTemperatureDifferentials(vector<double> temperatures_K, double t,
                                                          const environment::LocalCelestialInformation* local_celestial_information, size_t node_num) {
-  // TODO: consider the following unused arguments are really needed
-  UNUSED(temperatures_K);
-
   math::Vector<3> sun_direction_b = local_celestial_information->GetPositionFromSpacecraft_b_m("SUN").CalcNormalizedVector();
   vector<double> differentials_K_s(node_num);
   for (size_t i = 0; i < node_num; i++) {
@@ -167,9 +164,9 @@ vector<double> Temperature::CalcTemperatureDifferentials(vector<double> temperat
       double conductive_heat_input_W = 0;
       double radiative_heat_input_W = 0;
       for (size_t j = 0; j < node_num; j++) {
-        conductive_heat_input_W += conductance_matrix_W_K_[i][j] * (nodes_[j].GetTemperature_K() - nodes_[i].GetTemperature_K());
+        conductive_heat_input_W += conductance_matrix_W_K_[i][j] * (temperatures_K[j] - temperatures_K[i]);
         radiative_heat_input_W += environment::stefan_boltzmann_constant_W_m2K4 * radiation_matrix_m2_[i][j] *
-                                  (pow(nodes_[j].GetTemperature_K(), 4) - pow(nodes_[i].GetTemperature_K(), 4));
+                                  (pow(temperatures_K[j], 4) - pow(temperatures_K[i], 4));
       }
       double total_heat_input_W = conductive_heat_input_W + radiative_heat_input_W + total_heatload_W;
       differentials_K_s[i] = total_heat_input_W / nodes_[i].GetCapacity_J_K();
-- 
2.43.0


From eb50083b87c24c9a2378d2015693d55762ec5609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:22:46 +0000
Subject: [PATCH 54/59] fix: thermal node facing exactly the Earth could lose
 its albedo and infrared input (acos of a rounded value beyond one)

---
 src/dynamics/thermal/node.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dynamics/thermal/node.cpp b/src/dynamics/thermal/node.cpp
index c6189e5..6dba830 100644
--- a/src/dynamics/thermal/node.cpp
+++ b/src/dynamics/thermal/node.cpp
@@ -5,6 +5,7 @@
 
 #include "node.hpp"
 
+#include <algorithm>
 #include <cassert>
 #include <cmath>
 #include <environment/global/physical_constants.hpp>
@@ -54,7 +55,7 @@ double Node::CalcAlbedoRadiation_W(math::Vector<3> earth_position_b_m, math::Vec
   math::Vector<3> vec_b = (sat2sun_direction_b - sat2earth_direction_b).CalcNormalizedVector();
 
   const double cos_theta = InnerProduct(vec_a, vec_b);
-  const double lamda = acos(InnerProduct(sat2earth_direction_b, normal_vector_b_));
+  const double lamda = acos(std::max(-1.0, std::min(1.0, InnerProduct(sat2earth_direction_b, normal_vector_b_))));
   const double h = earth_position_b_m.CalcNorm() - environment::earth_equatorial_radius_m;
   const double H = earth_position_b_m.CalcNorm() / environment::earth_equatorial_radius_m;
   const double phi_m = asin(1.0 / H);
@@ -98,7 +99,7 @@ double Node::CalcAlbedoRadiation_W(math::Vector<3> earth_position_b_m, math::Vec
 double Node::CalcEarthInfraredRadiation_W(math::Vector<3> earth_position_b_m, double earth_infrared_W_m2) {
   math::Vector<3> earth_direction_b = earth_position_b_m.CalcNormalizedVector();
 
-  const double lamda = acos(InnerProduct(earth_direction_b, normal_vector_b_));
+  const double lamda = acos(std::max(-1.0, std::min(1.0, InnerProduct(earth_direction_b, normal_vector_b_))));
   const double h = earth_position_b_m.CalcNorm() - environment::earth_equatorial_radius_m;
   const double H = earth_position_b_m.CalcNorm() / environment::earth_equatorial_radius_m;
   const double phi_m = asin(1.0 / H);
-- 
2.43.0


From 0df3997da4b48f11d031179a887e71a991b8e295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:43:45 +0000
Subject: [PATCH 55/59] fix: time series orbit held the last sample of the file
 as soon as it entered the interpolation window (and read one row beyond the
 end)

---
 .../orbit/time_series_file_orbit_propagation.cpp         | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/dynamics/orbit/time_series_file_orbit_propagation.cpp b/src/dynamics/orbit/time_series_file_orbit_propagation.cpp
index 5230a18..05de9f4 100644
--- a/src/dynamics/orbit/time_series_file_orbit_propagation.cpp
+++ b/src/dynamics/orbit/time_series_file_orbit_propagation.cpp
@@ -40,6 +40,11 @@ TimeSeriesFileOrbitPropagation::TimeSeriesFileOrbitPropagation(const environment
   if (nearest_ephemeris_time_id >= half_interpolation_number) {
     reference_interpolation_id_ = nearest_ephemeris_time_id - half_interpolation_number;
   }
+  // The initial window has to be filled with the data in the file
+  const size_t interpolation_number = static_cast<size_t>(number_of_interpolation);
+  if (reference_interpolation_id_ + interpolation_number > time_series_data_.size() && time_series_data_.size() >= interpolation_number) {
+    reference_interpolation_id_ = time_series_data_.size() - interpolation_number;
+  }
 
   reference_time_ = CalcEphemerisTimeData(reference_interpolation_id_);
 
@@ -76,7 +81,7 @@ size_t TimeSeriesFileOrbitPropagation::SearchNearestEphemerisTimeId(const double
 }
 
 double TimeSeriesFileOrbitPropagation::CalcEphemerisTimeData(const size_t ephemeris_time_id) const {
-  if (ephemeris_time_id > time_series_data_.size()) {
+  if (ephemeris_time_id >= time_series_data_.size()) {
     return 0;
   }
   return time_series_data_[ephemeris_time_id][0];
@@ -103,7 +108,7 @@ void TimeSeriesFileOrbitPropagation::Propagate(const double end_time_s, const do
       spacecraft_position_i_m_[i] = time_series_data_[0][i + 1];
       spacecraft_velocity_i_m_s_[i] = time_series_data_[0][i + 4];
     }
-  } else if (diff_s > 1e6 || reference_interpolation_id_ >= time_series_data_.size()) {
+  } else if (current_ephemris_time > time_series_data_.back()[0]) {
     if (!is_time_range_warning_displayed_) {
       std::cout << "[WARNING] Time series file orbit propagation: Time is out of range of time series file." << std::endl;
       is_time_range_warning_displayed_ = true;
-- 
2.43.0


From ea7e06ac2fff7243fcc7b4c3d87bbdffdce4704a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:43:45 +0000
Subject: [PATCH 56/59] fix: time series orbit moved its interpolation window
 by only one sample per call, however long the step

---
 src/dynamics/orbit/time_series_file_orbit_propagation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dynamics/orbit/time_series_file_orbit_propagation.cpp b/src/dynamics/orbit/time_series_file_orbit_propagation.cpp
index 05de9f4..fca7aa4 100644
--- a/src/dynamics/orbit/time_series_file_orbit_propagation.cpp
+++ b/src/dynamics/orbit/time_series_file_orbit_propagation.cpp
@@ -95,8 +95,8 @@ void TimeSeriesFileOrbitPropagation::Propagate(const double end_time_s, const do
   // Check interpolation update
   double current_ephemris_time = (current_time_jd - 2451545.0) * 86400.0;
   double diff_s = current_ephemris_time - reference_time_;
-  double medium_time_s = orbit_position_i_m_[0].GetTimeList()[static_cast<std::size_t>(std::round(number_of_interpolation_ / 2.0))];
-  if (diff_s > medium_time_s) {
+  const size_t medium_id = static_cast<std::size_t>(std::round(number_of_interpolation_ / 2.0));
+  while (diff_s > orbit_position_i_m_[0].GetTimeList()[medium_id] && reference_interpolation_id_ < time_series_data_.size()) {
     UpdateInterpolationInformation();
   }
   if (diff_s < 0.0) {
-- 
2.43.0


From 641f986e2f0f6895efd9b0256b906f6fe009daf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:10:02 +0000
Subject: [PATCH 57/59] fix: battery without a current and with its open
 circuit voltage before the first update

The two ordinary constructors left the charge current and the battery voltage uninitialised, so the power control unit and the log used
indeterminate values until the first update of the battery.
---
 src/components/real/power/battery.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/components/real/power/battery.cpp b/src/components/real/power/battery.cpp
index 865c17b..36864bf 100644
--- a/src/components/real/power/battery.cpp
+++ b/src/components/real/power/battery.cpp
@@ -22,7 +22,10 @@ Battery::Battery(const int prescaler, environment::ClockGenerator* clock_generat
       cv_charge_voltage_V_(cv_charge_voltage_V),
       depth_of_discharge_percent_(initial_dod),
       battery_resistance_Ohm_(battery_resistance_Ohm),
-      compo_step_time_s_(component_step_time_s) {}
+      compo_step_time_s_(component_step_time_s) {
+  charge_current_A_ = 0.0;
+  UpdateBatVoltage();
+}
 
 Battery::Battery(environment::ClockGenerator* clock_generator, int number_of_series, int number_of_parallel, double cell_capacity_Ah,
                  const std::vector<double> cell_discharge_curve_coefficients, double initial_dod, double cc_charge_c_rate, double cv_charge_voltage_V,
@@ -36,7 +39,10 @@ Battery::Battery(environment::ClockGenerator* clock_generator, int number_of_ser
       cv_charge_voltage_V_(cv_charge_voltage_V),
       depth_of_discharge_percent_(initial_dod),
       battery_resistance_Ohm_(battery_resistance_Ohm),
-      compo_step_time_s_(0.1) {}
+      compo_step_time_s_(0.1) {
+  charge_current_A_ = 0.0;
+  UpdateBatVoltage();
+}
 
 Battery::Battery(const Battery& obj)
     : Component(obj),
-- 
2.43.0


From 3fddea2eb58ef4377f7a3cc5b346bbe72d804639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:16:48 +0000
Subject: [PATCH 58/59] fix: initial position and velocity of an orbit read
 from section ORBIT, whatever section was given

---
 src/dynamics/orbit/initialize_orbit.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dynamics/orbit/initialize_orbit.cpp b/src/dynamics/orbit/initialize_orbit.cpp
index e039adb..32c7f08 100644
--- a/src/dynamics/orbit/initialize_orbit.cpp
+++ b/src/dynamics/orbit/initialize_orbit.cpp
@@ -31,7 +31,7 @@ Orbit* InitOrbit(const environment::CelestialInformation* celestial_information,
     // initialize RK4 orbit propagator
     math::Vector<3> position_i_m;
     math::Vector<3> velocity_i_m_s;
-    math::Vector<6> pos_vel = InitializePosVel(initialize_file, current_time_jd, gravity_constant_m3_s2);
+    math::Vector<6> pos_vel = InitializePosVel(initialize_file, current_time_jd, gravity_constant_m3_s2, section);
     for (size_t i = 0; i < 3; i++) {
       position_i_m[i] = pos_vel[i];
       velocity_i_m_s[i] = pos_vel[i + 3];
@@ -91,7 +91,7 @@ Orbit* InitOrbit(const environment::CelestialInformation* celestial_information,
     // initialize orbit for Encke's method
     math::Vector<3> position_i_m;
     math::Vector<3> velocity_i_m_s;
-    math::Vector<6> pos_vel = InitializePosVel(initialize_file, current_time_jd, gravity_constant_m3_s2);
+    math::Vector<6> pos_vel = InitializePosVel(initialize_file, current_time_jd, gravity_constant_m3_s2, section);
     for (size_t i = 0; i < 3; i++) {
       position_i_m[i] = pos_vel[i];
       velocity_i_m_s[i] = pos_vel[i + 3];
@@ -116,7 +116,7 @@ Orbit* InitOrbit(const environment::CelestialInformation* celestial_information,
 
     math::Vector<3> position_i_m;
     math::Vector<3> velocity_i_m_s;
-    math::Vector<6> pos_vel = InitializePosVel(initialize_file, current_time_jd, gravity_constant_m3_s2);
+    math::Vector<6> pos_vel = InitializePosVel(initialize_file, current_time_jd, gravity_constant_m3_s2, section);
     for (size_t i = 0; i < 3; i++) {
       position_i_m[i] = pos_vel[i];
       velocity_i_m_s[i] = pos_vel[i + 3];
-- 
2.43.0


From 47611d2971bf98715cdd481701415bf8e07df886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:19:16 +0000
Subject: [PATCH 59/59] fix: temporary attitude of the controlled
 initialization was never deleted

It stayed registered as simulation object, so that a second simulation case in the same process ended by the exception of the duplicated name.
---
 src/dynamics/attitude/initialize_attitude.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dynamics/attitude/initialize_attitude.cpp b/src/dynamics/attitude/initialize_attitude.cpp
index 2119bae..f882dd4 100644
--- a/src/dynamics/attitude/initialize_attitude.cpp
+++ b/src/dynamics/attitude/initialize_attitude.cpp
@@ -48,6 +48,7 @@ Attitude* InitAttitude(std::string file_name, const orbit::Orbit* orbit, const e
                                                      inertia_tensor_kgm2, target_position, local_celestial_information, orbit, mc_name_temp);
     attitude_temp->Propagate(step_width_s);
     quaternion_i2b = attitude_temp->GetQuaternion_i2b();
+    delete attitude_temp;
     omega_b = math::Vector<3>(0.0);
     torque_b = math::Vector<3>(0.0);
   } else {
-- 
2.43.0

