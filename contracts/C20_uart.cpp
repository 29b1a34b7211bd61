// VC-SOURCES: components/ports/uart_port.cpp utilities/ring_buffer.cpp
// VC-REPLACE: s2e::utilities::RingBuffer::Write WITH vc_write
// VC-REPLACE: s2e::utilities::RingBuffer::Read WITH vc_read
#include "vc_s2e.hpp"
#include "components/ports/uart_port.hpp"
using namespace s2e::components;
using s2e::utilities::RingBuffer;
typedef unsigned char u8;
struct Call { int kind; const void* ring; const void* buf; unsigned off, len; int ret; };
static Call g_call[4]; static int g_n = 0;
// recorders standing for the ring buffer contracts (C20_ring)
extern "C" int vc_write(RingBuffer* r, const u8* b, unsigned off, unsigned len) { int ret = (int)vc_int("written", 0, 1000000); if (g_n < 4) g_call[g_n++] = Call{1, r, b, off, len, ret}; return ret; }
extern "C" int vc_read(RingBuffer* r, u8* b, unsigned off, unsigned len) { int ret = (int)vc_int("read", 0, 1000000); if (g_n < 4) g_call[g_n++] = Call{2, r, b, off, len, ret}; return ret; }
PROP(uart_directions) {
  unsigned rx = (unsigned)vc_int("rx_size", 0, 4096), tx = (unsigned)vc_int("tx_size", 0, 4096);
  UartPort p(rx, tx);
  vc_check("separate queues per direction", p.rx_buffer_ != p.tx_buffer_);
  vc_check("receive capacity as requested, default if zero", p.rx_buffer_->buffer_size_ == (rx == 0 ? 1024 : rx));
  vc_check("transmit capacity as requested, default if zero", p.tx_buffer_->buffer_size_ == (tx == 0 ? 1024 : tx));
  if (!vc_is_symbolic()) {   // native: the real ring buffers, one byte through each direction
    if (rx == 1 || tx == 1) return;
    u8 a[2] = {1, 2}, b[4] = {0};
    vc_check("transmit queue", p.WriteTx(a, 1, 1) == 1 && p.ReadRx(b, 0, 4) == 0 && p.ReadTx(b, 0, 4) == 1 && b[0] == 2);
    vc_check("receive queue", p.WriteRx(a, 1, 1) == 1 && p.ReadTx(b, 0, 4) == 0 && p.ReadRx(b, 0, 4) == 1 && b[0] == 2);
    return;
  }
  u8 buf[16]; unsigned off = (unsigned)vc_int("offset", 0, 1000000), len = (unsigned)vc_int("length", 0, 1000000);
  long op = vc_int("operation", 0, 3); int ret; g_n = 0;
  if (op == 0) ret = p.WriteTx(buf, off, len);
  else if (op == 1) ret = p.ReadTx(buf, off, len);
  else if (op == 2) ret = p.WriteRx(buf, off, len);
  else ret = p.ReadRx(buf, off, len);
  bool tx_op = op < 2;
  vc_check("one queue operation per call", g_n == 1);
  vc_check("write appends, read consumes", g_call[0].kind == ((op & 1) ? 2 : 1));
  vc_check("transmit queue", !tx_op || g_call[0].ring == p.tx_buffer_);
  vc_check("receive queue", tx_op || g_call[0].ring == p.rx_buffer_);
  vc_check("same bytes", g_call[0].buf == buf && g_call[0].off == off && g_call[0].len == len);
  vc_check("the queue's count is returned", ret == g_call[0].ret);
}
