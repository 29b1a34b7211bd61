// VC-SOURCES: environment/global/simulation_time.cpp math_physics/orbit/sgp4/sgp4ext.cpp math_physics/orbit/sgp4/sgp4unit.cpp setting_file_reader/initialize_file_access.cpp
// VC-REPLACE: gstime WITH vc_gst
// VC-REPLACE: invjday WITH vc_inv_jd
// VC-REPLACE: JdToDecyear WITH vc_dec
#include "vc_s2e.hpp"
#include "environment/global/simulation_time.hpp"
using namespace s2e::environment;
static double g_jd_gst, g_jd_cal, g_jd_dec; static int g_n = 0;
extern "C" double vc_gst(double jd) { g_jd_gst = jd; return 2 * jd + 1; }
extern "C" void vc_inv_jd(double jd, int& y, int& mo, int& d, int& h, int& mi, double& s) { g_jd_cal = jd; y = 2021; mo = 3; d = 4; h = 5; mi = 6; s = jd; g_n++; }
extern "C" void vc_dec(double jd, double* y) { g_jd_dec = jd; *y = 3 * jd; }
extern "C" void str2et_c(const char*, double* e) { *e = 0; }
static SimulationTime* make() {
  SimulationTime* t = (SimulationTime*)::operator new(sizeof(SimulationTime));
  t->step_sec_ = any_pos("step", 0.01, 5); t->end_sec_ = any_pos("end", 1, 1000); t->simulation_speed_ = 0;
  t->attitude_update_interval_sec_ = any_pos("attitude_interval", 0.01, 20); t->orbit_update_interval_sec_ = any_pos("orbit_interval", 0.01, 20);
  t->thermal_update_interval_sec_ = any_pos("thermal_interval", 0.01, 20); t->component_update_interval_sec_ = any_pos("component_interval", 0.01, 20);
  t->log_output_interval_sec_ = any_pos("log_interval", 0.01, 20); t->display_period_ = any_pos("display", 1, 100);
  t->start_jd_ = any_real("start_jd", 2450000, 2470000); t->start_ephemeris_time_ = any_real("start_et", 0, 1e9);
  t->InitializeState(); t->SetParameters();
  return t;
}
PROP(start) {
  SimulationTime* t = make();
  vc_check("a run starts at time zero with nothing to update and the initial state to be logged", t->GetElapsedTime_s() == 0 && !t->GetAttitudePropagateFlag() && !t->GetOrbitPropagateFlag() && !t->GetThermalPropagateFlag() && !t->GetCompoUpdateFlag() && t->GetState().log_output);
  vc_check("counting starts so that the first update is not late", t->attitude_update_counter_ == 1 && t->orbit_update_counter_ == 1 && t->thermal_update_counter_ == 1 && t->component_update_counter_ == 1 && t->log_counter_ == 0);
}
PROP(clock_advance) {
  SimulationTime* t = make(); 
  double e0 = any_real("elapsed", 0, 1000); vc_assume(e0 >= 0); t->elapsed_time_sec_ = e0; t->state_.finish = false;
  t->UpdateTime();
  double e1 = e0 + t->step_sec_;
  vc_eq("each step advances the elapsed time by exactly the step width", t->GetElapsedTime_s(), e1);
  vc_check("the run finishes exactly when the elapsed time passes the end time", t->GetState().finish == (t->elapsed_time_sec_ > t->end_sec_) && t->GetState().running);
  vc_eqs("Julian date is the start date plus the elapsed days", t->GetCurrentTime_jd(), t->start_jd_ + e1 / 86400, 1e7);
  vc_eqs("ephemeris time is the start time plus the elapsed seconds", t->GetCurrentEphemerisTime(), t->start_ephemeris_time_ + e1, 1e9);
  if (vc_is_symbolic()) {
    double jd = t->GetCurrentTime_jd();
    vc_check("sidereal time, calendar and decimal year belong to the current Julian date", g_jd_gst == jd && g_jd_cal == jd && g_jd_dec == jd && t->GetCurrentSiderealTime() == 2 * jd + 1 && t->GetCurrentDecimalYear() == 3 * jd
      && t->GetCurrentUtc().second == jd && t->GetCurrentUtc().year == 2021 && t->GetCurrentUtc().month == 3 && t->GetCurrentUtc().day == 4 && t->GetCurrentUtc().hour == 5 && t->GetCurrentUtc().minute == 6);
  }
}
// one step from any state reachable: n steps since the last update, not yet due; the update comes at the first step at which it is due
#define SCHED(NAME, CNT, IVL, FLAG, PRE, LBL) PROP(NAME) { \
  SimulationTime* t = make(); long n = vc_int("n", 0, 1000000); vc_assume(n == 0 || double(n) * t->step_sec_ < t->IVL); t->CNT = (int)n; PRE; \
  t->UpdateTime(); \
  bool due = double(n + 1) * t->step_sec_ >= t->IVL; \
  vc_check(LBL " update happens in the first step in which its interval has passed since the previous one", (FLAG) == due); \
  vc_check(LBL " interval restarts at each update", t->CNT == (due ? 0 : (int)(n + 1))); }
SCHED(attitude_schedule, attitude_update_counter_, attitude_update_interval_sec_, t->GetAttitudePropagateFlag(), t->attitude_update_flag_ = vc_bool("old"), "attitude")
SCHED(orbit_schedule, orbit_update_counter_, orbit_update_interval_sec_, t->GetOrbitPropagateFlag(), t->orbit_update_flag_ = vc_bool("old"), "orbit")
SCHED(thermal_schedule, thermal_update_counter_, thermal_update_interval_sec_, t->GetThermalPropagateFlag(), t->thermal_update_flag_ = vc_bool("old"), "thermal")
SCHED(component_schedule, component_update_counter_, component_update_interval_sec_, t->GetCompoUpdateFlag(), t->component_update_flag_ = vc_bool("old"), "component")
SCHED(log_schedule, log_counter_, log_output_interval_sec_, t->GetState().log_output, t->state_.log_output = vc_bool("old"), "log")
