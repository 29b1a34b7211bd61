// VC-SOURCES: components/base/component.cpp components/ports/power_port.cpp environment/global/clock_generator.cpp components/real/power/power_control_unit.cpp setting_file_reader/initialize_file_access.cpp
#include "vc_s2e.hpp"
#include "components/real/power/power_control_unit.hpp"
using namespace s2e::components;
static const double EPS = 2.220446049250313e-16;
PROP(power_port) {
  double lim = any_pos("current_limit", 0.1, 5), vmin = any_pos("minimum_voltage", 0.5, 10), p = any_pos("power", 0, 50), v = any_real("voltage", 0, 20);
  vc_assume(vmin > 1e-6 && v >= 0 && lim > 1e-6);
  PowerPort w(3, lim, vmin, p);
  vc_check("a new port is off with no voltage and no current", !w.GetIsOn() && w.GetVoltage_V() == 0 && w.GetCurrentConsumption_A() == 0);
  bool r = w.SetVoltage_V(v);
  bool enough = v >= vmin - EPS, over = enough && p >= (lim - EPS) * v;
  if (!vc_is_symbolic()) vc_assume(vc_abs(v - vmin) > 1e-9 && vc_abs(p - lim * v) > 1e-9);
  vc_check("the switch state is reported", r == w.GetIsOn());
  vc_check("the port is on exactly when the voltage suffices and the current stays below its limit", w.GetIsOn() == (enough && !over));
  if (enough && !over) { vc_eq("an active port draws power over voltage", w.GetCurrentConsumption_A() * v, p); vc_check("an active port keeps its voltage", w.GetVoltage_V() == v); }
  else vc_check("an inactive port draws no current", w.GetCurrentConsumption_A() == 0);
  if (over) vc_check("overcurrent protection cuts the voltage", w.GetVoltage_V() == 0);
  bool again = w.Update();
  vc_check("a tripped port stays off until voltage is applied again", !over || (!again && !w.GetIsOn()));
  bool on2 = w.SetVoltage_V(0);
  vc_check("removing the voltage switches off", !on2 && w.GetCurrentConsumption_A() == 0);
}
PROP(power_consumption) {
  PowerPort w; double a = any_real("a", 0, 10), b = any_real("b", 0, 10), c = any_real("c", 0, 30); vc_assume(a >= 0 && b >= 0 && c >= 0);
  vc_check("a port of a component without power source is on", w.GetIsOn());
  w.SetAssumedPowerConsumption_W(a); w.AddAssumedPowerConsumption_W(b); vc_eq("consumption adds up", w.GetAssumedPowerConsumption_W(), a + b);
  w.SubtractAssumedPowerConsumption_W(c); vc_eq("consumption is reduced but never negative", w.GetAssumedPowerConsumption_W(), a + b - c > 0 ? a + b - c : 0);
}
PROP(power_control_unit) {
  s2e::environment::ClockGenerator clk; PowerControlUnit u(&clk);
  int i = (int)vc_int("port", 0, 100000), j = (int)vc_int("other", 0, 100000); vc_assume(i != j);
  double lim = any_pos("current_limit", 0.1, 5), vmin = any_pos("minimum_voltage", 0.5, 10), p = any_pos("power", 0, 50), v = any_pos("voltage", 0, 20); vc_assume(vmin > 1e-6 && lim > 1e-6);
  vc_check("closing an unused port fails", u.ClosePort(i) == -1);
  vc_check("a free port can be connected", u.ConnectPort(i, lim, vmin, p) == 0 && u.ConnectPort(j, lim, vmin, p) == 0);
  PowerPort *a = u.GetPowerPort(i), *b = u.GetPowerPort(j);
  vc_check("ports are separate", a && b && a != b);
  vc_check("a used port cannot be taken over", u.ConnectPort(i, lim) == -1 && u.ConnectPort(i, lim, vmin, p) == -1 && u.GetPowerPort(i) == a);
  vc_check("a new port is off with no voltage and no current", !a->GetIsOn() && !b->GetIsOn());
  bool on = a->SetVoltage_V(v);
  if (!vc_is_symbolic()) vc_assume(vc_abs(v - vmin) > 1e-9 && vc_abs(p - lim * v) > 1e-9);
  vc_check("a port has the limits it was connected with", on == (v >= vmin - EPS && p < (lim - EPS) * v) && !b->GetIsOn());
  vc_check("a closed port is free again", u.ClosePort(i) == 0 && u.GetPowerPort(j) == b && u.ConnectPort(i, lim) == 0);
}
