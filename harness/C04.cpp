// C04: dates that do not exist are rejected, dates that exist are accepted.
#include "vh.hpp"
using namespace ngpt;
static inline bool exists(const ref::Year &q, long m, long d) { return m >= 1 && m <= 12 && d >= 1 && d <= ref::month_len(q, (int)m); }
struct Any { ref::Year q; year y; long m, d; };
static inline Any any() {
  ref::Year q = ref::any_year(); long m = V_in("month", -2147483648L, 2147483647L), d = V_in("day", -2147483648L, 2147483647L);
  return Any{q, year{(int)q.y}, m, d};
}
template <class F> static inline void rejects(F f, const char *) {
  Any x = any(); bool ok = exists(x.q, x.m, x.d);
  int how = 0; // 0 returned, 1 std::out_of_range, 2 other std exception, 3 anything else
  try { f(x.y, month{(int)x.m}, day_of_month{(int)x.d}); }
  catch (const std::out_of_range &) { how = 1; }
  catch (const std::exception &) { how = 2; }
  catch (...) { how = 3; }
  V_check(ok || how == 1, "a date that does not exist is answered with std::out_of_range");
  V_check(!ok || how == 0, "a date that exists is converted");
}
extern "C" {
void E_cal2mjd() { rejects([](year y, month m, day_of_month d) { cal2mjd(y, m, d); }, ""); }
void E_mjd_ctor() { rejects([](year y, month m, day_of_month d) { modified_julian_day(y, m, d); }, ""); }
void E_valid_dom() {
  Any x = any();
  V_check(day_of_month{(int)x.d}.is_valid(x.y, month{(int)x.m}) == exists(x.q, x.m, x.d), "day_of_month::is_valid is true exactly for existing dates");
}
void E_valid_ymd() {
  Any x = any();
  V_check(ymd_date(x.y, month{(int)x.m}, day_of_month{(int)x.d}).is_valid() == exists(x.q, x.m, x.d), "ymd_date::is_valid is true exactly for existing dates");
}
void E_valid_month() {
  long m = V_in("month", -2147483648L, 2147483647L);
  V_check(month{(int)m}.is_valid() == (m >= 1 && m <= 12), "month::is_valid is true exactly for 1..12");
}
void E_valid_doy() {
  ref::Year q = ref::any_year(); long n = V_in("doy", -2147483648L, 2147483647L);
  bool ok = n >= 1 && n <= ref::year_len(q);
  V_check(day_of_year{(int)n}.is_valid(year{(int)q.y}) == ok, "day_of_year::is_valid is true exactly for existing days");
  V_check(ydoy_date(year{(int)q.y}, day_of_year{(int)n}).is_valid() == ok, "ydoy_date::is_valid is true exactly for existing days");
}
void E_valid_week() {
  long w = V_in("week", -9223372036854775807L - 1, 9223372036854775807L);
  V_check(gps_week{w}.is_valid() == (w >= 0), "gps_week::is_valid is true exactly for non-negative weeks");
}
}
