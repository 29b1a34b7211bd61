// VC-SOURCES: utilities/endian.cpp utilities/quantization.cpp
#include "vc_s2e.hpp"
#include "utilities/endian.hpp"
#include "utilities/quantization.hpp"
typedef unsigned char u8;
PROP(byte_order) {
  vc_assumption("at most 8 bytes (bounded)");
  u8 a[10], b[10], d[10]; for (int i = 0; i < 10; i++) { a[i] = vc_u8("source"); b[i] = d[i] = vc_u8("before"); }
  int n = 0; while (n < 8 && vc_bool("one more")) n++;
  void* r = s2e::utilities::endian_memcpy(b + 1, a, n); bool ok = r == b + 1, out = true;
  for (int i = 0; i < 10; i++) if (i >= 1 && i <= n) ok &= b[i] == a[n - i]; else out &= b[i] == d[i];
  vc_check("bytes are written in reverse order", ok); vc_check("nothing beyond the given size is written", out);
}
PROP(quantisation) {
  double r = any_pos("resolution", 1e-3, 10), x = any_real("value", -1e3, 1e3); vc_assume(x / r < 2147483647.0); vc_assume(x / r > -2147483648.0);
  double q = s2e::utilities::quantization(x, r);
  vc_check("a quantised value is at most one step from the value, towards zero", x >= 0 ? q <= x && x < q + r : q >= x && x > q - r);
  int n = (int)vc_int("steps", -1000000, 1000000); double e = s2e::utilities::quantization((n + (n >= 0 ? 0.5 : -0.5)) * r, r);
  vc_eq("quantised values are whole steps", e, n * r);
}
