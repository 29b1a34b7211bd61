// VC-SOURCES: components/real/cdh/on_board_computer.cpp components/base/component.cpp components/base/gpio_connection_with_obc.cpp components/ports/i2c_port.cpp components/ports/power_port.cpp components/ports/uart_port.cpp components/ports/gpio_port.cpp utilities/ring_buffer.cpp environment/global/clock_generator.cpp simulation/hils/hils_port_manager.cpp
#include "vc_s2e.hpp"
#include "components/real/cdh/on_board_computer.hpp"
#include "components/base/gpio_connection_with_obc.hpp"
using namespace s2e::components;
struct Listener : public IGPIOCompo { int n = 0, id = -1; bool high = false; void GpioStateChanged(int port_id, bool h) override { n++; id = port_id; high = h; } };
PROP(gpio_through_obc) {
  s2e::environment::ClockGenerator clk; OnBoardComputer obc(1, &clk, new PowerPort());
  int id = (int)vc_int("port", 0, 1000000), id2 = (int)vc_int("other_port", 0, 1000000); vc_assume(id != id2);
  bool a = vc_bool("a"), b = vc_bool("b"), c = vc_bool("c");
  vc_check("an unconnected line reads low", obc.GpioComponentRead(id) == false && obc.GpioComponentWrite(id, true) == -1 && obc.GpioComponentRead(id) == false);
  GpioConnectionWithObc g(std::vector<int>{id, id2}, &obc);
  vc_check("a new line is low", !g.Read(0) && !g.Read(1));
  g.Write(0, a); g.Write(1, b);
  vc_check("lines are separate and keep the last level", g.Read(0) == a && g.Read(1) == b && obc.GpioComponentRead(id) == a && obc.GpioComponentRead(id2) == b);
  g.Write(0, c);
  vc_check("lines are separate and keep the last level", g.Read(0) == c && g.Read(1) == b);
  vc_check("a used line is not replaced", obc.GpioConnectPort(id) == -1 && obc.GpioComponentRead(id) == c);
}
PROP(gpio_notify) {
  Listener l; int id = (int)vc_int("port", 0, 1000000); GpioPort p((unsigned)id, &l), q((unsigned)id);
  bool s0 = vc_bool("level"), s1 = vc_bool("next"); p.high_low_state_ = s0; q.high_low_state_ = s0;
  p.DigitalWrite(s1); q.DigitalWrite(s1);
  vc_check("the line takes the written level", p.DigitalRead() == s1 && q.DigitalRead() == s1);
  vc_check("the component is told exactly the changes of level", s0 == s1 ? l.n == 0 : l.n == 1 && l.id == id && l.high == s1);
}
