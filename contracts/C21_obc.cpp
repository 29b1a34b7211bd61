// VC-SOURCES: components/real/cdh/on_board_computer.cpp components/base/component.cpp components/base/i2c_target_communication_with_obc.cpp components/ports/i2c_port.cpp components/ports/power_port.cpp components/ports/uart_port.cpp components/ports/gpio_port.cpp utilities/ring_buffer.cpp environment/global/clock_generator.cpp simulation/hils/hils_port_manager.cpp
// VC-REPLACE: s2e::components::I2cPort::WriteRegister(unsigned char, unsigned char, unsigned char) WITH vc_wr
// VC-REPLACE: s2e::components::I2cPort::ReadRegister(unsigned char, unsigned char) WITH vc_rd
// VC-REPLACE: s2e::components::I2cPort::ReadCommand WITH vc_rc
// VC-REPLACE: s2e::components::I2cPort::RegisterDevice WITH vc_dev
// VC-LOOP: s2e::components::OnBoardComputer::I2cComponentReadRegister WITH vc_inv_rd
// VC-LOOP: s2e::components::OnBoardComputer::I2cComponentWriteRegister WITH vc_inv_wr
#include "vc_s2e.hpp"
#include "components/real/cdh/on_board_computer.hpp"
#include "components/base/i2c_target_communication_with_obc.hpp"
using namespace s2e::components;
typedef unsigned char u8;
// the port operations' contracts (C21_port), recording which register of which device on which port is used
static I2cPort* g_port; static u8 g_ad, g_rg, g_val, g_old, *g_data; static long g_q, g_len; static int g_dev = 0; static u8 g_devad; static I2cPort* g_devport;
static int gv_count = 0;
extern "C" int vc_wr(I2cPort* p, u8 a, u8 r, u8 v) {
  vc_check("write reaches the device and register named by the component", p == g_port && a == g_ad && r == g_rg);
  vc_check("bytes are written in order", v == g_data[gv_count]); gv_count = gv_count + 1; return 1;
}
extern "C" u8 vc_rd(I2cPort* p, u8 a, u8 r) { vc_check("read reaches the device and register named by the component", p == g_port && a == g_ad && r == g_rg); return g_val; }
extern "C" u8 vc_rc(I2cPort* p, u8 a, u8* d, u8 l) { vc_check("command read reaches the device named by the component", p == g_port && a == g_ad && d == g_data && l == g_len); gv_count = gv_count + 1; return l; }
extern "C" void vc_dev(I2cPort* p, u8 a) { g_dev++; g_devad = a; g_devport = p; }
extern "C" void vc_inv_rd(const double*, int, const long* i, int) {
  bool done = g_q < i[0];
  vc_inv((i[0] >= 0) & (i[0] <= g_len)); vc_inv(!done | (g_data[g_q] == g_val)); vc_inv(done | (g_data[g_q] == g_old));
}
extern "C" void vc_inv_wr(const double*, int, const long* i, int) { vc_inv((i[0] >= 0) & (i[0] <= g_len)); vc_inv(i[0] == gv_count); }
static I2cPort* port_of(OnBoardComputer& o, int id) { return o.i2c_ports_[id]; }
#define SETUP() s2e::environment::ClockGenerator clk; OnBoardComputer obc(1, &clk, new PowerPort()); \
  int id = (int)vc_int("port", 0, 1000000), id2 = (int)vc_int("other_port", 0, 1000000); vc_assume(id != id2); g_ad = vc_u8("address"); u8 ad2 = vc_u8("other_address"); g_rg = vc_u8("register"); g_val = vc_u8("value")
PROP(i2c_through_obc) {
  SETUP();
  I2cTargetCommunicationWithObc c((unsigned)id, g_ad, &obc); 
  g_port = port_of(obc, id);
  vc_check("connecting creates the port", g_port != nullptr);
  if (vc_is_symbolic()) vc_check("connecting registers the device on its port", g_dev == 1 && g_devad == g_ad && g_devport == g_port);
  I2cTargetCommunicationWithObc d((unsigned)id2, ad2, &obc), e((unsigned)id, ad2, &obc);
  vc_check("ports are separate", port_of(obc, id) == g_port && port_of(obc, id2) != g_port && port_of(obc, id2) != nullptr);
  long n = vc_int("m", 256, 256 + vc_is_symbolic()); g_data = new u8[n]; vc_bytes("data", g_data, n, 1);
  g_len = vc_int("length", 1, 255); g_q = vc_int("q", 0, 255); g_old = g_data[g_q];
  if (!vc_is_symbolic()) {   // native: the real port
    vc_assume(g_rg != 255 && ad2 != g_ad);
    u8 v = g_data[0], w = 77; c.WriteRegister(g_rg, &v, 1); e.WriteRegister(g_rg, &w, 1); d.WriteRegister(g_rg, &w, 1);
    c.ReadRegister(g_rg, g_data, (u8)g_len);
    vc_check("read reaches the device and register named by the component", g_data[0] == v); vc_check("read fills exactly the requested bytes with the register's value", g_q < g_len || g_data[g_q] == g_old);
    return;
  }
  long op = vc_int("operation", 0, 2);
  if (op == 0) {
    vc_loop_frame(g_data);
    c.ReadRegister(g_rg, g_data, (u8)g_len);
    vc_check("read fills exactly the requested bytes with the register's value", g_data[g_q] == (g_q < g_len ? g_val : g_old));
  } else if (op == 1) {
    c.WriteRegister(g_rg, g_data, (u8)g_len);
    vc_check("every byte is written once", gv_count == g_len);
  } else {
    c.ReadCommand(g_data, (u8)g_len);
    vc_check("the command is read once", gv_count == 1);
  }
}
