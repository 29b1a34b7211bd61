// VC-SOURCES: utilities/ring_buffer.cpp
#include "vc_s2e.hpp"
#include "utilities/ring_buffer.hpp"
using namespace s2e::utilities;
typedef unsigned char u8;
static long idx(long p, long k, long n) { long x = p + k; return x >= n ? x - n : x; }
static long stored(const RingBuffer& r) { long d = (long)r.write_pointer_ - (long)r.read_pointer_; return d < 0 ? d + (long)r.buffer_size_ : d; }
// a ring in an arbitrary reachable state: capacity n, pointers inside it, any content
#define RING(n, hi) long n = vc_int("capacity", 1, hi); RingBuffer r((int)n); \
  long wp = vc_int("write_pointer", 0, hi - 1), rp = vc_int("read_pointer", 0, hi - 1); vc_assume(wp < n); vc_assume(rp < n); \
  r.write_pointer_ = wp; r.read_pointer_ = rp; vc_bytes("content", r.buffer_, n, 1); long S = stored(r)
static const long kMax = 1 << 20;
static long cap() { return vc_is_symbolic() ? kMax : 8; }

PROP(ring_write) {
  vc_option("merge");
  long hi = cap(); RING(n, hi);
  long len = vc_int("length", 0, hi), off = vc_int("offset", 0, hi); vc_assume(len <= n - 1 - S);
  u8* in = new u8[off + len + 1]; vc_bytes("data", in, off + len + 1, 1);
  long k = vc_int("k", 0, hi); vc_assume(k < S + len);
  u8 before = k < S ? r.buffer_[idx(rp, k, n)] : in[off + k - S];
  long ret = r.Write(in, (unsigned)off, (unsigned)len);
  vc_check("write accepts everything that fits", ret == len);
  vc_check("capacity unchanged by write", r.buffer_size_ == n);
  vc_check("pointers stay inside the buffer", r.write_pointer_ < n && r.read_pointer_ < n);
  vc_check("write does not consume", r.read_pointer_ == rp);
  vc_check("write appends exactly its bytes", stored(r) == S + len);
  vc_check("stored bytes keep their order and values, new bytes follow", r.buffer_[idx(rp, k, n)] == before);
  delete[] in;
}
PROP(ring_read) {
  vc_option("merge");
  long hi = cap(); RING(n, hi);
  long len = vc_int("length", 0, hi), off = vc_int("offset", 0, hi);
  u8* out = new u8[off + len + 1]; vc_bytes("old", out, off + len + 1, 1);
  long take = len < S ? len : S;
  long k = vc_int("k", 0, 2 * hi); vc_assume(k < off + len + 1);
  bool in = k >= off && k < off + take;
  u8 expect = in ? r.buffer_[idx(rp, k - off, n)] : out[k];
  long j = vc_int("j", 0, hi); vc_assume(j < n); u8 kept = r.buffer_[j];
  long ret = r.Read(out, (unsigned)off, (unsigned)len);
  vc_check("read returns what is available up to the request", ret == take);
  vc_check("bytes come out in order; nothing else of the destination changes", out[k] == expect);
  vc_check("read consumes exactly what it returned", stored(r) == S - take);
  vc_check("pointers stay inside the buffer", r.write_pointer_ < n && r.read_pointer_ < n);
  vc_check("read position advances by the bytes returned", r.read_pointer_ == idx(rp, take, n));
  vc_check("read leaves the stored bytes and the write position", r.buffer_[j] == kept && r.write_pointer_ == wp && r.buffer_size_ == n);
  delete[] out;
}
// a write of up to the whole capacity, even into a ring that cannot hold it, stays inside the buffer (bounds are obligations)
PROP(ring_write_any) {
  vc_option("merge");
  long hi = cap(); RING(n, hi);
  long len = vc_int("length", 0, hi), off = vc_int("offset", 0, hi); vc_assume(len <= n);
  u8* in = new u8[off + len + 1]; vc_bytes("data", in, off + len + 1, 1);
  long ret = r.Write(in, (unsigned)off, (unsigned)len);
  vc_check("write returns the requested length", ret == len);
  vc_check("pointers stay inside the buffer", r.write_pointer_ < n && r.read_pointer_ < n);
  delete[] in;
}
PROP(ring_new) {
  long n = vc_int("capacity", 1, cap()); RingBuffer r((int)n);
  vc_check("a new ring is empty", stored(r) == 0 && r.write_pointer_ < n);
  u8 b[4]; vc_check("nothing can be read from a new ring", r.Read(b, 0, 4) == 0);
}
