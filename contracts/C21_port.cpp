// VC-SOURCES: components/ports/i2c_port.cpp
// VC-REPLACE: ~std::map<std::pair<unsigned char, unsigned char>, unsigned char, .*>::operator\[\] WITH vc_map
// VC-LOOP: s2e::components::I2cPort::WriteCommand WITH vc_inv_write
// VC-LOOP: s2e::components::I2cPort::ReadCommand WITH vc_inv_read
#include "vc_s2e.hpp"
#include "components/ports/i2c_port.hpp"
using namespace s2e::components;
typedef unsigned char u8; typedef std::pair<u8, u8> Key; typedef std::map<Key, u8> Map;
// contract of std::map::operator[]: a total function from keys to values; one table per map
static I2cPort* g_port; static u8* g_reg; static u8* g_cmd;
static long key(u8 a, u8 r) { return (long)a * 256 + r; }
extern "C" u8* vc_map(Map* m, const Key* k) { return (m == &g_port->device_registers_ ? g_reg : g_cmd) + key(k->first, k->second); }
static u8 reg(I2cPort& p, long k) { return vc_is_symbolic() ? g_reg[k] : p.device_registers_[Key(k / 256, k % 256)]; }
static u8 cmd(I2cPort& p, long k) { return vc_is_symbolic() ? g_cmd[k] : p.command_buffer_[Key(k / 256, k % 256)]; }
// a port in an arbitrary state: any register count, any register and command contents, any current register
#define PORT() u8 maxr = vc_u8("register_count"); I2cPort p(maxr); p.saved_register_address_ = vc_u8("current"); g_port = &p; \
  if (vc_is_symbolic()) { long n = vc_int("n", 65536, 65537); g_reg = new u8[n]; vc_bytes("registers", g_reg, n, 1); g_cmd = new u8[n]; vc_bytes("commands", g_cmd, n, 1); } \
  else { u8 f = vc_u8("fill"); for (int a = 0; a < 256; a++) for (int r = 0; r < 256; r++) { p.device_registers_[Key(a, r)] = (u8)(a * 7 + r * 13 + f); p.command_buffer_[Key(a, r)] = (u8)(a * 5 + r * 11 + f); } } \
  u8 ad = vc_u8("address"), rg = vc_u8("register"), val = vc_u8("value"); u8 cur = p.saved_register_address_; \
  long j = vc_int("other", 0, 65535); u8 oreg = reg(p, j), ocmd = cmd(p, j)
PROP(i2c_write_register) {
  PORT();
  int ret = p.WriteRegister(ad, rg, val);
  bool ok = rg < maxr;
  vc_check("write of a register is accepted exactly when it exists", ret == (ok ? 1 : 0));
  vc_check("the written register holds the value; no other register or device changes", reg(p, j) == (ok && j == key(ad, rg) ? val : oreg));
  vc_check("commands untouched by register write", cmd(p, j) == ocmd);
  vc_check("current register follows the write", p.saved_register_address_ == (ok ? rg : cur));
}
PROP(i2c_select_register) {
  PORT();
  int ret = p.WriteRegister(ad, rg);
  bool ok = rg < maxr;
  vc_check("selecting a register is accepted exactly when it exists", ret == (ok ? 1 : 0));
  vc_check("selection changes no contents", reg(p, j) == oreg && cmd(p, j) == ocmd);
  vc_check("current register is the selected one", p.saved_register_address_ == (ok ? rg : cur));
}
PROP(i2c_read_register) {
  PORT();
  bool ok = rg < maxr; u8 want = reg(p, key(ad, rg));
  u8 ret = p.ReadRegister(ad, rg);
  vc_check("read returns the register of that device, zero if it does not exist", ret == (ok ? want : 0));
  vc_check("read changes no contents", reg(p, j) == oreg && cmd(p, j) == ocmd);
  vc_check("current register follows the read", p.saved_register_address_ == (ok ? rg : cur));
}
PROP(i2c_read_next) {
  PORT();
  vc_assume(cur < maxr); u8 want = reg(p, key(ad, cur));
  u8 ret = p.ReadRegister(ad);
  vc_check("sequential read returns the current register of that device", ret == want);
  vc_check("sequential read changes no contents", reg(p, j) == oreg && cmd(p, j) == ocmd);
  vc_check("sequential read advances and wraps at the register count", p.saved_register_address_ == (cur + 1 >= maxr ? 0 : cur + 1));
}
// command of an arbitrary length; the bytes come back unchanged, other devices' commands are untouched
static long g_q, g_j, g_len; static u8 g_val, g_old, *g_rx;
extern "C" void vc_inv_write(const double*, int, const long* i, int) {
  bool done = (g_q >= 0) & (g_q < i[0]);
  vc_inv((i[0] >= 0) & (i[0] <= g_len));
  vc_inv(!done | (g_cmd[g_j] == g_val)); vc_inv(done | (g_cmd[g_j] == g_old));
}
extern "C" void vc_inv_read(const double*, int, const long* i, int) {
  bool done = g_q < i[0];
  vc_inv((i[0] >= 0) & (i[0] <= g_len));
  vc_inv(!done | (g_rx[g_q] == g_val)); vc_inv(done | (g_rx[g_q] == g_old));
}
PROP(i2c_command) {
  PORT();
  long n = vc_int("m", 256, 256 + vc_is_symbolic()); u8* data = new u8[n]; vc_bytes("data", data, n, 1);
  u8 len = (u8)vc_int("length", 0, 255);
  long q = j - key(ad, 0); bool inside = q >= 0 && q < len;
  g_q = q; g_j = j; g_len = len; g_old = ocmd; g_val = data[inside ? q : 0]; u8 d0 = data[0], d1 = data[1];
  if (vc_is_symbolic()) vc_loop_frame(g_cmd);
  u8 w = p.WriteCommand(ad, data, len);
  vc_check("command length accepted", w == len);
  vc_check("command stored for that device only", cmd(p, j) == (inside ? g_val : ocmd));
  bool set = len == 2 && d0 < maxr;
  vc_check("two byte command sets one register, others set none", reg(p, j) == (set && j == key(ad, d0) ? d1 : oreg));
  vc_check("one or two byte command selects its register", p.saved_register_address_ == ((len == 1 || len == 2) && d0 < maxr ? d0 : cur));
}
PROP(i2c_read_command) {
  PORT();
  long n = vc_int("m", 256, 256 + vc_is_symbolic()); u8* rx = new u8[n]; vc_bytes("rx", rx, n, 1);
  u8 len = (u8)vc_int("length", 0, 255), z = vc_u8("z"), want = cmd(p, key(ad, z)), keep = rx[z];
  g_rx = rx; g_q = z; g_len = len; g_old = keep; g_val = want;
  if (vc_is_symbolic()) vc_loop_frame(rx);
  u8 w = p.ReadCommand(ad, rx, len);
  vc_check("command length returned", w == len);
  vc_check("component receives the command of its device", rx[z] == (z < len ? want : keep));
  vc_check("reading a command changes nothing", cmd(p, j) == ocmd && reg(p, j) == oreg);
}
