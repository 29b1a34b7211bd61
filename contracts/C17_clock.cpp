// VC-SOURCES: components/base/component.cpp components/ports/power_port.cpp environment/global/clock_generator.cpp
#include "vc_s2e.hpp"
#include "components/base/component.hpp"
using namespace s2e::components;
struct Dev : public Component {
  int main = 0, fast = 0, off = 0; long t = -1;
  Dev(unsigned p, s2e::environment::ClockGenerator* c, PowerPort* w, unsigned f) : Component(p, c, w, f) {}
  Dev(unsigned p, s2e::environment::ClockGenerator* c, unsigned f) : Component(p, c, f) {}
  void MainRoutine(const int c) override { main++; t = (unsigned)c; }
  void FastUpdate() override { fast++; }
  void PowerOffRoutine() override { off++; }
};
// the schedule of one component: every tick count, prescaler, power state
PROP(tick_schedule) {
  s2e::environment::ClockGenerator clk; PowerPort* w = new PowerPort();
  unsigned p = vc_u32("prescaler"), f = vc_u32("fast_prescaler"), n = vc_u32("count");
  Dev d(p, &clk, w, f);
  double v = vc_real_in("voltage", 0, 10); w->SetVoltage_V(v);
  bool on = w->GetIsOn(); unsigned pe = p ? p : 1, fe = f ? f : 1;
  d.Tick(n);
  vc_check("the main routine runs exactly when powered and the count is a multiple of the prescaler", d.main == (on && n % pe == 0 ? 1 : 0) && (d.main == 0 || d.t == n));
  vc_check("the power-off routine runs exactly when unpowered on the schedule", d.off == (!on && n % pe == 0 ? 1 : 0) && d.fast == 0);
  int off0 = d.off, m0 = d.main;
  d.FastTick(n);
  vc_check("the fast update runs exactly when powered and the count is a multiple of the fast prescaler", d.fast == (on && n % fe == 0 ? 1 : 0) && d.main == m0 && d.off - off0 == (!on && n % fe == 0 ? 1 : 0));
}
PROP(copy_and_default) {
  s2e::environment::ClockGenerator clk; unsigned p = vc_u32("prescaler"), f = vc_u32("fast_prescaler"), n = vc_u32("count");
  Dev a(p, &clk, f); Dev b(a); unsigned pe = p ? p : 1, fe = f ? f : 1;
  vc_check("a component without power port is powered", a.power_port_->GetIsOn());
  vc_check("a copied component is scheduled like the original", clk.components_.size() == 2);
  b.Tick(n); b.FastTick(n);
  vc_check("a copied component runs on the same schedule", b.main == (n % pe == 0 ? 1 : 0) && b.fast == (n % fe == 0 ? 1 : 0) && a.main == 0);
}
// the clock: each registered component once per tick with the same consecutive counts, removed components never
PROP(clock_delivery) {
  s2e::environment::ClockGenerator clk; clk.ClearTimerCount();
  unsigned start = vc_u32("start"); clk.timer_count_ = start;
  bool fa = vc_bool("a_fast"), fc = vc_bool("c_fast");
  Dev a(1, &clk, 1), c(1, &clk, 1); { Dev* b = new Dev(1, &clk, 1); a.SetNeedsFastUpdate(fa); c.SetNeedsFastUpdate(fc);
  clk.TickToComponents();
  vc_check("every registered component gets every count once", a.main == 1 && b->main == 1 && c.main == 1 && a.t == start && b->t == start && c.t == start);
  vc_check("fast updates follow the request of each component", a.fast == (fa ? 1 : 0) && b->fast == 0 && c.fast == (fc ? 1 : 0));
  b->Component::~Component(); clk.TickToComponents();
  vc_check("a removed component is not scheduled any more, the others are", b->main == 1 && a.main == 2 && c.main == 2 && a.t == (unsigned)(start + 1) && c.t == (unsigned)(start + 1)); }
  clk.ClearTimerCount(); clk.TickToComponents();
  vc_check("clearing restarts the count", a.t == 0 && a.main == 3);
}
PROP(clock_update) {
  s2e::environment::ClockGenerator clk; clk.ClearTimerCount(); Dev a(1, &clk, 1);
  s2e::environment::SimulationTime* t = (s2e::environment::SimulationTime*)::operator new(sizeof(s2e::environment::SimulationTime));
  bool f = vc_bool("flag"); t->component_update_flag_ = f;
  clk.UpdateComponents(t);
  vc_check("components are ticked exactly in the steps flagged for component updates", a.main == (f ? 1 : 0));
}
