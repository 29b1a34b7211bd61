// VC-SOURCES: dynamics/thermal/heater.cpp dynamics/thermal/heater_controller.cpp dynamics/thermal/heatload.cpp
// VC-REPLACE: fmod WITH vc_fmod
#include "vc_s2e.hpp"
#include "dynamics/thermal/heater.hpp"
#include "dynamics/thermal/heater_controller.hpp"
#include "dynamics/thermal/heatload.hpp"
using namespace s2e; using namespace s2e::dynamics::thermal;
PROP(heater) {
  // two-point control for every sequence of temperatures
  double p = any_pos("power", 0.1, 10), lo = any_real("lower", -20, 20), up = lo + any_pos("width", 0.1, 20); Heater h((size_t)1, p); HeaterController c(lo, up); bool on = false; vc_check("off at first", h.GetHeaterStatus() == HeaterStatus::kOff && h.GetPowerOutput_W() == 0);
  if (vc_int("on before", 0, 1) == 1) { h.SetHeaterStatus(HeaterStatus::kOn); on = true; }
  for (int k = 0; k < 3; k++) {
    double t = any_real("temperature", -40, 40); c.ControlHeater(&h, t); if (on) { if (t > up) on = false; } else { if (t < lo) on = true; }
    vc_check("on below the lower, off above the upper threshold, kept between", (h.GetHeaterStatus() == HeaterStatus::kOn) == on); if (on) vc_eq("power while on", h.GetPowerOutput_W(), p); else vc_eq("no power while off", h.GetPowerOutput_W(), 0);
  }
}
// remainder of the elapsed time in the period of the table
static double g_elapsed, g_period, g_rest; static bool g_lost;
extern "C" double vc_fmod(double x, double y) { if (x == 0) return 0; vc_eq("internal heat repeats with the period of the table", x, g_elapsed); vc_eq("internal heat repeats with the period of the table", y, g_period); return g_rest; }
PROP(load) {
  // piecewise linear and periodic, whatever times were asked for before
  long n = vc_int("entries", 2, 4); std::vector<double> t, w; double at = 0; for (long i = 0; i < n; i++) { if (i > 0) at += any_pos("interval", 1, 100); t.push_back(at); w.push_back(any_real("heat", 0, 10)); } g_period = at; Heatload h(0, t, w);
  for (int k = 0; k < 3; k++) {
    g_elapsed = any_pos("time", 0, 1000); if (vc_is_symbolic()) { g_rest = vc_real("rest"); vc_assume(g_rest >= 0 && g_rest < g_period); } else g_rest = std::fmod(g_elapsed, g_period);
    h.SetElapsedTime_s(g_elapsed); h.CalcInternalHeatload(); for (long i = 0; i + 1 < n; i++) if (g_rest >= t[i] && g_rest <= t[i + 1]) vc_eq("internal heat interpolated in its table", h.GetInternalHeatload_W(), w[i] + (w[i + 1] - w[i]) * ((g_rest - t[i]) / (t[i + 1] - t[i])));
  }
  double x[4]; for (int i = 0; i < 4; i++) x[i] = any_real("input", 0, 10); h.SetSolarHeatload_W(x[0]); h.SetAlbedoHeatload_W(x[1]); h.SetEarthInfraredHeatload_W(x[2]); h.SetHeaterHeatload_W(x[3]); h.UpdateTotalHeatload(); vc_eq("sum of all heat loads", h.GetTotalHeatload_W(), x[0] + x[1] + x[2] + x[3] + h.GetInternalHeatload_W());
}
