// C02: Modified Julian Day -> calendar date is the exact inverse, from -4799-01-01 on.
// Every MJD of the range is ref::mjd of exactly one valid date (both are counts of days).
#include "vh.hpp"
using namespace ngpt;
static inline void same(const ymd_date &g, const ref::Date &x) {
  V_check(g.__year.as_underlying_type() == x.q.y, "the year of the calendar date is the right one");
  V_check(g.__month.as_underlying_type() == x.m, "the month of the calendar date is the right one");
  V_check(g.__dom.as_underlying_type() == x.d, "the day of the calendar date is the right one");
}
extern "C" {
void E_to_ymd() { ref::Date x = ref::any_date(); same(modified_julian_day{x.mjd}.to_ymd(), x); }
#define ALL(S) void E_as_ymd_##S() { ref::Date x = ref::any_date(); same(datetime<S>(modified_julian_day{x.mjd}, S{0}).as_ymd(), x); }
ALL(seconds) ALL(milliseconds) ALL(microseconds)
}
