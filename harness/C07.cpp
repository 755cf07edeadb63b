// C07: construction and shifting never gain or lose time.
#define RESULT(d, base, total, u) do { \
  long got_ = ((d).mjd().as_underlying_type() - (base)) * DAY<S> + (d).sec().as_underlying_type(); \
  if ((u) == 1) V_check(got_ == (total), "the instant is exactly the sum of what was given"); \
  else { long e_ = got_ * (u) - (total); V_check(e_ < (u) && e_ > -(u), "the instant is within one unit of the sum of what was given"); } } while (0)
#define RESULTI(d, base, total) V_check(((d).days().as_underlying_type() - (base)) * DAY<S> + (d).sec().as_underlying_type() == (total), "the interval is exactly the sum of what was given")
#define RESULTI0(d) do { } while (0)
// the day number of the date is proved first and then used
#define GIVEN_DATE(q) V_check(cal2mjd((q).y, month{(q).m}, day_of_month{(q).d}).as_underlying_type() == (q).mjd, "the day number of the date given")
#include "ops.hpp"
