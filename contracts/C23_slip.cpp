// VC-SOURCES: utilities/slip.cpp
#include "vc_s2e.hpp"
#include "utilities/slip.hpp"
typedef unsigned char u8;
namespace u = s2e::utilities;
static bool same(const std::vector<u8>& a, const std::vector<u8>& b) { if (a.size() != b.size()) return false; bool r = true; for (size_t i = 0; i < a.size(); i++) r &= a[i] == b[i]; return r; }
static std::vector<u8> any_bytes(int most) { std::vector<u8> v; int n = 0; while (n < most && vc_bool("one more")) { v.push_back(vc_u8("byte")); n++; } return v; }
// RFC 1055 written out
static std::vector<u8> framed(const std::vector<u8>& x) { std::vector<u8> r; for (size_t i = 0; i < x.size(); i++) { if (x[i] == 0xc0) { r.push_back(0xdb); r.push_back(0xdc); } else if (x[i] == 0xdb) { r.push_back(0xdb); r.push_back(0xdd); } else r.push_back(x[i]); } r.push_back(0xc0); return r; }
PROP(slip_encode) {
  vc_assumption("frames of at most five bytes (bounded)");
  std::vector<u8> x = any_bytes(5), y = u::encode_slip(x), h = u::encode_slip_with_header(x), e = framed(x);
  vc_check("a frame is the escaped bytes and an end mark", same(y, e));
  e.insert(e.begin(), 0xc0); vc_check("a frame with header starts with an end mark", same(h, e));
}
PROP(slip_round_trip) {
  vc_assumption("frames of at most four bytes (bounded)");
  std::vector<u8> x = any_bytes(4), f = framed(x), t = f; if (vc_bool("another")) t.push_back(vc_u8("next frame")); 
  if (vc_bool("header")) { t.insert(t.begin(), 0xc0); vc_check("decoding with header gives the bytes back", same(u::decode_slip_with_header(t), x)); }
  else vc_check("decoding gives the bytes back, whatever follows the frame", same(u::decode_slip(t), x));
}
PROP(slip_any_input) {
  vc_assumption("received data of at most five bytes (bounded)");
  std::vector<u8> x = any_bytes(5), y = u::decode_slip(x), z = u::decode_slip_with_header(x);   // obligations: no access outside the data
  vc_check("decoding never lengthens the data", y.size() <= x.size() && z.size() <= x.size());
}
