// C05: one leap-year rule everywhere, for every representable year.
#include "vh.hpp"
using namespace ngpt;
static inline ref::Year every_year() { // all of int: k covers negative cycles too
  ref::Year q = ref::any_year(-5368709, 5368709);
  V_assume(q.y >= -2147483647L - 1); V_assume(q.y <= 2147483647L);
  return q;
}
extern "C" {
void E_free() { ref::Year q = every_year(); V_check(is_leap((int)q.y) == ref::leap(q), "is_leap(int) is the Gregorian rule"); }
void E_type() { ref::Year q = every_year(); V_check(year{(int)q.y}.is_leap() == ref::leap(q), "year::is_leap is the Gregorian rule"); }
void E_february() {
  ref::Year q = every_year();
  V_check(day_of_month{29}.is_valid(year{(int)q.y}, month{2}) == ref::leap(q), "February 29 is valid exactly in leap years");
  V_check(ymd_date(year{(int)q.y}, month{2}, day_of_month{29}).is_valid() == ref::leap(q), "February 29 is a valid date exactly in leap years");
}
void E_yearlen() {
  ref::Year q = every_year();
  V_check(day_of_year{366}.is_valid(year{(int)q.y}) == ref::leap(q), "day 366 is valid exactly in leap years");
  V_check(ydoy_date(year{(int)q.y}, day_of_year{366}).is_valid() == ref::leap(q), "day 366 is a valid date exactly in leap years");
}
void E_conversion() {
  ref::Year q = every_year(); bool thrown = false;
  try { cal2mjd(year{(int)q.y}, month{2}, day_of_month{29}); } catch (const std::exception &) { thrown = true; }
  V_check(thrown == !ref::leap(q), "February 29 converts to a day number exactly in leap years");
}
void E_march() { // the day after the end of February
  ref::Year q = ref::any_year();
  long feb28 = cal2mjd(year{(int)q.y}, month{2}, day_of_month{28}).as_underlying_type(), mar1 = cal2mjd(year{(int)q.y}, month{3}, day_of_month{1}).as_underlying_type();
  V_check(mar1 - feb28 == (ref::leap(q) ? 2 : 1), "February has 29 days exactly in leap years");
  long dec31 = cal2mjd(year{(int)q.y}, month{12}, day_of_month{31}).as_underlying_type(), jan1 = cal2mjd(year{(int)q.y}, month{1}, day_of_month{1}).as_underlying_type();
  V_check(dec31 - jan1 + 1 == (ref::leap(q) ? 366 : 365), "the year has 366 days exactly in leap years");
}
void E_doy() {
  ref::Year q = ref::any_year();
  V_check(ymd_date(year{(int)q.y}, month{12}, day_of_month{31}).to_ydoy().__doy.as_underlying_type() == (ref::leap(q) ? 366 : 365), "December 31 is day 366 exactly in leap years");
  ymd_date g = ydoy_date(year{(int)q.y}, day_of_year{60}).to_ymd();
  V_check((g.__month.as_underlying_type() == 2) == ref::leap(q), "day 60 is in February exactly in leap years");
}
}
