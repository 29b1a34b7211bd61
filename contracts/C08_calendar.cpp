// VC-SOURCES: math_physics/time_system/epoch_time.cpp math_physics/time_system/date_time_format.cpp math_physics/time_system/gps_time.cpp
#include "vc_s2e.hpp"
#include "math_physics/time_system/epoch_time.hpp"
#include "math_physics/time_system/gps_time.hpp"
using namespace s2e::time_system;
static const long MAXT = 4102444800L - 1;   // end of 2099
static double any_frac() { double f = vc_real_in("fraction", 0, 0.96875); if (!vc_is_symbolic()) f = (double)(long)(f * 32) / 32; return f; }
// every second from 1970 to 2099
PROP(epoch_to_date_to_epoch) {
  long t = vc_int("t", 0, MAXT); double f = any_frac();
  EpochTime e((uint64_t)t, f); DateTime d(e);
  vc_check("date fields are in their ranges", d.GetYear() >= 1970 && d.GetYear() <= 2099 && d.GetMonth() >= 1 && d.GetMonth() <= 12 && d.GetDay() >= 1 && d.GetDay() <= 31 && d.GetHour() <= 23 && d.GetMinute() <= 59);
  vc_check("seconds are in their range", d.GetSecond() >= 0 && d.GetSecond() < 60);
  bool leap = d.GetYear() % 4 == 0; long mo = (long)d.GetMonth();
  long len = mo == 2 ? (leap ? 29 : 28) : mo == 4 || mo == 6 || mo == 9 || mo == 11 ? 30 : 31;
  vc_check("the day exists in its month", (long)d.GetDay() <= len);
  EpochTime b(d);
  vc_check("an epoch time survives the conversion to a date and back", (long)b.GetTime_s() == t); vc_eq("an epoch time survives the conversion to a date and back", b.GetFraction_s(), f);
}
// every valid date from 1970 to 2099
PROP(date_to_epoch_to_date) {
  long q = vc_int("quad", 0, 32), yy = vc_int("year_in_quad", 0, 3), mo = vc_int("month", 1, 12), da = vc_int("day", 1, 31), h = vc_int("hour", 0, 23), mi = vc_int("minute", 0, 59), se = vc_int("second", 0, 59); double f = any_frac();
  for (long k = 1; k < 12; k++) if (mo == k) { mo = k; break; }   // one path per month
  for (long k = 0; k < 3; k++) if (yy == k) { yy = k; break; }
  long y = 1970 + 4 * q + yy; vc_assume(y <= 2099); bool leap = yy == 2;   // 1972, 1976, ...
  static const int len[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
  vc_assume(da <= len[mo - 1] + (leap && mo == 2 ? 1 : 0));
  static const int before[] = {0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334};
  EpochTime e(DateTime((size_t)y, (size_t)mo, (size_t)da, (size_t)h, (size_t)mi, (double)se + f));
  long days = 1461 * q + 365 * yy + (yy == 3 ? 1 : 0) + before[mo - 1] + (leap && mo > 2 ? 1 : 0) + da - 1;
  vc_check("the epoch time is the number of seconds since 1970 began", (long)e.GetTime_s() == days * 86400 + h * 3600 + mi * 60 + se); vc_eq("the epoch time is the number of seconds since 1970 began", e.GetFraction_s(), f);
}
PROP(gps_time) {
  long t = vc_int("t", 315964800L, MAXT); double f = any_frac();
  GpsTime g(EpochTime((uint64_t)t, f));
  double w = g.GetElapsedTimeFromWeek_s();
  vc_check("time of week is within the week", w >= 0 && w < 604800);
  vc_check("weeks count from 6 January 1980", (long)g.GetWeek() == (t - 315964800L) / 604800); vc_eqs("weeks count from 6 January 1980", (double)g.GetWeek() * 604800.0 + w, (double)(t - 315964800L) + f, 1e9);
  DateTime d = g.GetDateTime(); EpochTime b(d);
  if (t % 4096 == 0) vc_check("date and epoch expressions agree", (long)b.GetTime_s() == t);
}
PROP(gps_week) {
  long wk = vc_int("week", 0, 6000), s = vc_int("s", 0, 604799); double f = any_frac();
  GpsTime g((size_t)wk, (double)s + f);
  vc_check("week and time of week give the epoch time", (long)g.GetEpochTime().GetTime_s() == 315964800L + wk * 604800 + s); vc_eq("week and time of week give the epoch time", g.GetEpochTime().GetFraction_s(), f);
}
PROP(gps_utc) {
  long t = vc_int("t", 315964800L, MAXT); GpsTime g(EpochTime((uint64_t)t, 0));
  EpochTime u(g.GetDateTimeAsUtc());
  vc_check("UTC is behind GPS time by the leap seconds", (long)u.GetTime_s() == t - 18);
}
