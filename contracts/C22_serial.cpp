// VC-SOURCES: components/real/cdh/on_board_computer.cpp components/base/component.cpp components/base/uart_communication_with_obc.cpp components/ports/i2c_port.cpp components/ports/power_port.cpp components/ports/uart_port.cpp components/ports/gpio_port.cpp utilities/ring_buffer.cpp environment/global/clock_generator.cpp simulation/hils/hils_port_manager.cpp
// VC-REPLACE: s2e::components::UartPort::UartPort(unsigned int, unsigned int) WITH vc_new
// VC-REPLACE: s2e::components::UartPort::~UartPort() WITH vc_del
// VC-REPLACE: s2e::components::UartPort::WriteTx WITH vc_wtx
// VC-REPLACE: s2e::components::UartPort::WriteRx WITH vc_wrx
// VC-REPLACE: s2e::components::UartPort::ReadTx WITH vc_rtx
// VC-REPLACE: s2e::components::UartPort::ReadRx WITH vc_rrx
#include "vc_s2e.hpp"
#include "components/real/cdh/on_board_computer.hpp"
#include "components/base/uart_communication_with_obc.hpp"
using namespace s2e::components;
typedef unsigned char u8;
struct Dev : public UartCommunicationWithObc {
  int parsed = 0, size = -7, tlm;
  Dev(unsigned id, unsigned tx, unsigned rx, OnBoardComputer* o) : UartCommunicationWithObc(id, tx, rx, o) { tlm = 0; }
  int ParseCommand(const int n) override { parsed++; size = n; return 5; }
  int GenerateTelemetry() override { return tlm; }
};
// the port operations' contracts (C20), recording which queue of which port is used with which memory
static Dev* g_dev; static UartPort* g_port; static int g_op, g_ret; static u8* g_buf; static long g_off, g_n; static int g_news = 0; static unsigned g_tx, g_rx;
extern "C" void vc_new(UartPort* p, unsigned a, unsigned b) { g_news++; g_tx = a; g_rx = b; }
extern "C" void vc_del(UartPort*) {}
static int op(int k, UartPort* p, u8* b, long off, long n) {
  vc_check("one queue operation per request", g_op == 0); g_op = k;
  vc_check("the port of the given number is used", p == g_port);
  g_buf = b; g_off = off; g_n = n; return g_ret;
}
extern "C" int vc_wtx(UartPort* p, u8* b, unsigned o, unsigned n) { return op(1, p, b, o, n); }
extern "C" int vc_wrx(UartPort* p, u8* b, unsigned o, unsigned n) { return op(2, p, b, o, n); }
extern "C" int vc_rtx(UartPort* p, u8* b, unsigned o, unsigned n) { return op(3, p, b, o, n); }
extern "C" int vc_rrx(UartPort* p, u8* b, unsigned o, unsigned n) { return op(4, p, b, o, n); }
#define SETUP() s2e::environment::ClockGenerator clk; OnBoardComputer obc(1, &clk, new PowerPort()); \
  int id = (int)vc_int("port", 0, 1000000), id2 = (int)vc_int("other_port", 0, 1000000); vc_assume(id != id2)
PROP(serial_through_obc) {
  SETUP();
  if (!vc_is_symbolic()) {
    u8 a[4] = {1, 2, 3, 4}, b[4] = {0, 0, 0, 0}; unsigned sz = (unsigned)vc_int("size", 2, 5000);
    vc_check("unconnected ports transfer nothing", obc.SendFromObc(id, a, 0, 1) == -1);
    Dev c((unsigned)id, sz, sz, &obc), d((unsigned)id2, sz, sz, &obc);
    long q = vc_int("q", 1, 3), n = q < (long)sz - 1 ? q : sz - 1; if (n > 1023) n = 1023;
    obc.SendFromObc(id, a, 0, (int)n); obc.SendFromObc(id2, a + 1, 0, 1);
    int r = c.ReceiveCommand(0, 2 < sz ? 2 : sz); vc_check("received command bytes are handed to the component", r == 5 && c.size == (n < 2 ? n : 2) && c.rx_buffer_[0] == 1);
    c.tx_buffer_[0] = 9; c.tlm = 1; c.SendTelemetry(0); r = obc.ReceivedByObc(id, b, 0, 3);
    vc_check("telemetry goes to the computer's receive queue", r == 1 && b[0] == 9);
    vc_check("ports are separate", obc.ReceivedByObc(id2, b, 0, 1) == 0);
    return;
  }
  u8 buf[8]; g_op = 0; int w = (int)vc_int("which", 0, 3), off = (int)vc_int("offset", 0, 1000), len = (int)vc_int("length", 0, 1000);
  auto call = [&](int i) { return w == 0 ? obc.SendFromObc(i, buf, off, len) : w == 1 ? obc.SendFromCompo(i, buf, off, len) : w == 2 ? obc.ReceivedByCompo(i, buf, off, len) : obc.ReceivedByObc(i, buf, off, len); };
  vc_check("unconnected ports transfer nothing", call(id) == -1 && g_op == 0 && obc.CloseComPort(id) == -1);
  unsigned tx = (unsigned)vc_int("tx", 1, 100000), rx = (unsigned)vc_int("rx", 1, 100000);
  vc_check("a free port can be connected", obc.ConnectComPort(id, (int)tx, (int)rx) == 0 && g_news == 1 && g_tx == tx && g_rx == rx);
  g_port = obc.uart_ports_[id];
  vc_check("ports are separate", obc.ConnectComPort(id2, (int)tx, (int)rx) == 0 && obc.uart_ports_[id2] != g_port && obc.uart_ports_[id] == g_port);
  vc_check("a used port cannot be taken over", obc.ConnectComPort(id, 5, 5) == -1 && obc.uart_ports_[id] == g_port && g_news == 2);
  g_ret = (int)vc_int("stored", 0, 1000);
  int r = call(id);
  vc_check("each direction has its own queue", g_op == w + 1 && r == g_ret && g_buf == buf && g_off == off && g_n == len);
  UartPort* keep = obc.uart_ports_[id2];
  vc_check("a closed port is free again", obc.CloseComPort(id) == 0 && obc.uart_ports_[id] == nullptr && obc.uart_ports_[id2] == keep);
}
PROP(component_transfer) {
  if (!vc_is_symbolic()) return;
  SETUP();
  unsigned tx = (unsigned)vc_int("tx", 1, 100000), rx = (unsigned)vc_int("rx", 1, 100000);
  Dev d((unsigned)id, tx, rx, &obc);
  long T = tx > 1024 ? 1024 : tx, Rr = rx > 1024 ? 1024 : rx;
  g_port = obc.uart_ports_[id];
  vc_check("the component's own port is opened with its buffer sizes", d.IsConnected() && g_news == 1 && g_tx == (unsigned)T && g_rx == (unsigned)Rr && (long)d.tx_buffer_.size() == T && (long)d.rx_buffer_.size() == Rr);
  g_op = 0; unsigned off = vc_u32("offset"), len = vc_u32("length");
  if (vc_bool("receive")) {
    g_ret = (int)vc_int("stored", 0, 1024);
    int r = d.ReceiveCommand(off, len);
    if (g_op == 0) vc_check("refused or empty requests transfer nothing", ((long)off + (long)len > Rr ? r == -1 : len == 0 && r == 0) && d.parsed == 0);
    else {
      vc_check("received command bytes go into the component's receive buffer", g_op == 3 && g_buf == &d.rx_buffer_.front() && g_off == (long)off && g_n == (long)len && g_off + g_n <= (long)d.rx_buffer_.size() && g_off + g_n <= Rr);
      vc_check("received command bytes are handed to the component", g_ret == 0 ? r == 0 && d.parsed == 0 : r == 5 && d.parsed == 1 && d.size == g_ret);
    }
  } else {
    d.tlm = (int)vc_int("telemetry_size", 0, 1024); vc_assume(d.tlm <= T);
    g_ret = 0; vc_assume(off < 1000000);
    int r = d.SendTelemetry(off);
    if (g_op == 0) vc_check("telemetry that does not fit is refused", r == -1 && (long)off + d.tlm > T);
    else vc_check("telemetry goes to the computer's receive queue", r == 0 && g_op == 2 && g_buf == &d.tx_buffer_.front() && g_off == (long)off && g_n == d.tlm && g_off + g_n <= T && g_off + g_n <= (long)d.tx_buffer_.size());
  }
}
PROP(taken_port) {
  if (!vc_is_symbolic()) return;
  SETUP();
  UartPort* p;
  { Dev a((unsigned)id, 16, 16, &obc); p = obc.uart_ports_[id];
    { Dev b((unsigned)id, 16, 16, &obc); vc_check("a second component on a used port is not connected", !b.IsConnected() && a.IsConnected() && obc.uart_ports_[id] == p); }
    vc_check("an unconnected component leaves the port alone", obc.uart_ports_[id] == p);
  }
  vc_check("a component closes its port", obc.uart_ports_[id] == nullptr);
}
