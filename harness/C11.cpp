// C11: GPS week and second of week identify exactly the same instant.
#include "vh.hpp"
using namespace ngpt;
using ref::DAY; using ref::PS;
#define V(x) (long)(x).as_underlying_type()
template <class S> static inline datetime<S> any() { return datetime<S>(modified_julian_day{V_in("mjd", 44244, ref::DAYS)}, ref::any_tod<S>()); }
template <class S> void E_to() {
  auto d = any<S>(); S sow; gps_week w = d.as_gps_wsow(sow);
  V_check(V(sow) >= 0 && V(sow) < 7 * DAY<S>, "0 <= second of week < one week");
  V_check((V(w) * 7 + 44244 - V(d.mjd())) * DAY<S> + V(sow) == V(d.sec()), "week and second of week count from the GPS epoch");
}
template <class S> void E_to_long() {
  auto d = any<S>(); long sow; gps_week w = d.as_gps_wsow(sow);
  V_check(sow >= 0 && sow < 7 * 86400L, "0 <= second of week < one week (whole seconds)");
  long e = ((V(d.mjd()) - V(w) * 7 - 44244) * 86400 - sow) * PS<S> + V(d.sec());
  V_check(e >= 0 && e < PS<S>, "week and whole second of week count from the GPS epoch");
}
template <class S> void E_same() {
  auto d = any<S>(); S a; long b; gps_week v = d.as_gps_wsow(a), w = d.as_gps_wsow(b);
  V_check(V(v) == V(w), "both forms report the same week"); long e = V(a) - b * PS<S>; V_check(e >= 0 && e < PS<S>, "both forms report the same second of week");
}
template <class S> void E_back() {
  auto d = any<S>(); S sow; gps_week w = d.as_gps_wsow(sow); datetime<S> e(w, sow);
  V_check(V(e.mjd()) == V(d.mjd()) && V(e.sec()) == V(d.sec()), "week and second of week rebuild the same datetime");
}
template <class S> void E_from() {
  long w = V_in("week", -10000000, 10000000); S s = ref::any_amount<S>("sow"); datetime<S> d(gps_week{w}, s);
  V_check((V(d.mjd()) - 44244 - 7 * w) * DAY<S> + V(d.sec()) == V(s), "any week and second of week build epoch + weeks + seconds");
  V_check(V(d.sec()) >= 0 && V(d.sec()) < DAY<S>, "with a time of day");
}
template <class S> void E_dow() {
  S s{V_in("sow", 0, 7 * DAY<S> - 1)}; int n = day_of_week(s);
  V_check(n >= 0 && n <= 6, "day of week 0..6"); long r = V(s) - n * DAY<S>; V_check(r >= 0 && r < DAY<S>, "day of week is the whole number of days in the second of week");
}
template <class S> void E_dow_of_date() { // the n-th day of the week that holds the datetime
  auto d = any<S>(); S sow; gps_week w = d.as_gps_wsow(sow);
  V_check(V(w) * 7 + 44244 + day_of_week(sow) == V(d.mjd()), "the day of week is the datetime's day");
}
extern "C" { FOR_S(E_to) FOR_S(E_to_long) FOR_S(E_same) FOR_S(E_back) FOR_S(E_from) FOR_S(E_dow) FOR_S(E_dow_of_date) }
