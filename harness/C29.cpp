// C29: range limits are what they say.
#include "vh.hpp"
using namespace ngpt;
using ref::DAY;
#define V(x) (long)(x).as_underlying_type()
static constexpr long LO = -9223372036854775807L - 1, HI = 9223372036854775807L;
extern "C" void E_mjd() {
  modified_julian_day d{V_in("mjd", LO, HI)};
  V_check(V(modified_julian_day::max()) == HI && V(modified_julian_day::min()) == LO, "the extreme day numbers are those of the underlying type");
  V_check(modified_julian_day::min() <= d && d <= modified_julian_day::max(), "every day number lies within them");
}
template <class S> void E_datetime() {
  auto a = datetime<S>::max(), b = datetime<S>::min();
  V_check(V(a.mjd()) == HI && V(a.sec()) == 0, "the maximum datetime is midnight of the last day");
  V_check(V(b.mjd()) == LO && V(b.sec()) == 0, "the minimum datetime is midnight of the first day");
  datetime<S> d(modified_julian_day{V_in("mjd", LO, HI)}, S{0}), e(modified_julian_day{V_in("mjd2", LO, HI - 1)}, ref::any_tod<S>());
  V_check(d <= a && b <= d, "every midnight lies within them"); V_check(e < a && b <= e, "and every instant before the last midnight");
}
template <class S> void E_days() {
  long n = max_days_allowed<S>();
  V_check(n == HI / DAY<S>, "max_days_allowed is the number of whole days the count can hold");
  S s = mjd_sec_diff<S>(modified_julian_day{n}, modified_julian_day{0});
  V_check(V(s) == n * DAY<S> && V(s) > HI - DAY<S>, "that many days are held, one more does not fit");
}
extern "C" { FOR_S(E_datetime) FOR_S(E_days) }
