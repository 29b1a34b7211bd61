// VC-SOURCES: math_physics/time_system/epoch_time.cpp math_physics/time_system/date_time_format.cpp
#include "vc_s2e.hpp"
#include "math_physics/time_system/epoch_time.hpp"
using namespace s2e::time_system;
static EpochTime any_epoch(const char* n, const char* f) {
  double fr = vc_real_in(f, 0, 1); if (!vc_is_symbolic()) { long k = (long)(fr * 32); fr = (double)(k % 32) / 32; }   // binary fractions: exact sums and carries
  vc_assume(fr < 1); return EpochTime((uint64_t)vc_int(n, 0, 1L << 40), fr);
}
PROP(epoch_sum) {
  EpochTime a = any_epoch("a", "af"), b = any_epoch("b", "bf");
  EpochTime s = a + b, r = b + a, d = s - b;
  double sf = a.GetFraction_s() + b.GetFraction_s(); uint64_t c = sf >= 1 ? 1 : 0;
  vc_check("the fraction of a sum stays in [0,1)", s.GetFraction_s() >= 0 && s.GetFraction_s() < 1);
  vc_check("a sum is exact, with carry", s.GetTime_s() == a.GetTime_s() + b.GetTime_s() + c); vc_eq("a sum is exact, with carry", s.GetFraction_s(), sf - (double)c);
  vc_check("addition commutes", s == r);
  vc_check("subtraction undoes addition", d.GetTime_s() == a.GetTime_s() && d == a);
}
PROP(epoch_difference) {
  EpochTime a = any_epoch("a", "af"), b = any_epoch("b", "bf"); vc_assume(a >= b);
  EpochTime d = a - b, s = d + b; double df = a.GetFraction_s() - b.GetFraction_s(); uint64_t c = df < 0 ? 1 : 0;
  vc_check("the fraction of a difference stays in [0,1)", d.GetFraction_s() >= 0 && d.GetFraction_s() < 1);
  vc_check("a difference is exact, with borrow", d.GetTime_s() == a.GetTime_s() - b.GetTime_s() - c); vc_eq("a difference is exact, with borrow", d.GetFraction_s(), df + (double)c);
  vc_check("addition undoes subtraction", s == a);
}
PROP(epoch_order) {
  EpochTime a = any_epoch("a", "af"), b = any_epoch("b", "bf");
  bool lt = a.GetTime_s() < b.GetTime_s() || (a.GetTime_s() == b.GetTime_s() && a.GetFraction_s() < b.GetFraction_s());
  bool eq = a.GetTime_s() == b.GetTime_s() && a.GetFraction_s() == b.GetFraction_s();
  vc_check("times are ordered by seconds, then fraction", (a < b) == lt && (a > b) == (!lt && !eq) && (a == b) == eq);
  vc_check("comparisons are consistent with one another", (a <= b) == (lt || eq) && (a >= b) == !lt && (a != b) == !eq);
  EpochTime x = vc_bool("w") ? a : b, c = any_epoch("c", "cf");
  vc_check("adding a time keeps the order", !(a < b) || (a + c < b + c));
}
PROP(epoch_value) {
  EpochTime a((uint64_t)vc_int("a", 0, 1L << 40), vc_real_in("f", 0, 0.999)); 
  vc_eqs("the value in seconds is the seconds plus the fraction", a.GetTimeWithFraction_s(), (double)a.GetTime_s() + a.GetFraction_s(), 1e6);
}
// from a calendar date
PROP(epoch_invalid_date) {
  size_t y = vc_u64("year"), mo = vc_u64("month"), d = vc_u64("day"), h = vc_u64("hour"), mi = vc_u64("minute"); double s = any_real("second", 0, 100); vc_assume(s >= 0 && s < 1e6);
  vc_assume(y < 1970 || mo < 1 || mo > 12 || d < 1 || d > 31 || mi > 59 || s >= 60);
  EpochTime e(DateTime(y, mo, d, h, mi, s));
  vc_check("an invalid date gives the epoch itself, not an indeterminate time", e.GetTime_s() == 0 && e.GetFraction_s() == 0);
}
