#include "vc_s2e.hpp"
#include "math_physics/control_utilities/first_order_lag.hpp"
using namespace s2e;
PROP(lag) {
  // implicit Euler step of the lag: it moves towards the gained input, and never past it
  double h = any_pos("step", 0.01, 1), tau = any_real("time constant", 0, 5), gain = any_real("gain", -2, 2), y = any_real("state", -3, 3), x = any_real("input", -3, 3); vc_assume(tau >= 0); control_utilities::FirstOrderLag l(h, tau, gain);
  vc_check("lag starts from zero", l.GetOutput() == 0); l.output_ = y; double r = l.Update(x); vc_eq("first order lag", r, tau / (h + tau) * y + h / (h + tau) * gain * x); vc_check("output of the lag is what it returned", l.GetOutput() == r);
}
