// C28: dividing an interval by an integer splits it evenly.
#include "vh.hpp"
using namespace ngpt;
using ref::DAY; using ref::PS;
#define V(x) (long)(x).as_underlying_type()
template <class S> void E_divide() {
  long days = V_in("days", 0, ref::DAYS / 2), n = V_in("n", 1, 2147483647); S s = ref::any_tod<S>("sec");
  datetime_interval<S> i(modified_julian_day{days}, s), q = i / (int)n;
  long part = V(q.days()) * DAY<S> + V(q.sec()), rest = days * DAY<S> + V(s) - n * part;
  V_check(rest >= 0 && rest < n, "n parts differ from the interval by less than n units");
  V_check(V(q.sec()) >= 0 && V(q.sec()) < DAY<S> && V(q.days()) >= 0, "a part is a normalized, non-negative interval");
}
extern "C" { FOR_S(E_divide) }
