// C13: comparison operators order datetimes by time.
#include "vh.hpp"
using namespace ngpt;
using ref::DAY;
#define V(x) (long)(x).as_underlying_type()
#define SIX(a, b, lt, eq, what) \
  V_check((a == b) == (eq), what " =="); V_check((a != b) == !(eq), what " !="); V_check((a < b) == (lt), what " <"); \
  V_check((a <= b) == ((lt) || (eq)), what " <="); V_check((a > b) == (!(lt) && !(eq)), what " >"); V_check((a >= b) == !(lt), what " >=")
// the order of two instants; first reduced to day, then time of day (and that reduction checked)
#define ORDER(dj, dt, d) bool lt = (dj) < 0 || ((dj) == 0 && (dt) < 0), eq = (dj) == 0 && (dt) == 0; \
  V_check(lt == ((d) < 0), "earlier instant"); V_check(eq == ((d) == 0), "same instant")
template <class S> void E_datetime() {
  auto a = ref::any_dt<S>("mjd1", "tod1"), b = ref::any_dt<S>("mjd2", "tod2");
  long d = (V(a.mjd()) - V(b.mjd())) * DAY<S> + V(a.sec()) - V(b.sec());
  ORDER(V(a.mjd()) - V(b.mjd()), V(a.sec()) - V(b.sec()), d); SIX(a, b, lt, eq, "datetimes compare as their instants:");
}
template <class S> void E_datetime_full() { // the whole range of the day number
  long i = V_in("mjd1", -9223372036854775807L - 1, 9223372036854775807L), j = V_in("mjd2", -9223372036854775807L - 1, 9223372036854775807L);
  S s = ref::any_tod<S>("tod1"), t = ref::any_tod<S>("tod2"); datetime<S> a(modified_julian_day{i}, s), b(modified_julian_day{j}, t);
  bool lt = i < j || (i == j && V(s) < V(t)), eq = i == j && V(s) == V(t); SIX(a, b, lt, eq, "datetimes compare by day, then time of day:");
}
template <class S> void E_interval() {
  auto i = ref::any_mjd("d1"), j = ref::any_mjd("d2"); S s = ref::any_tod<S>("s1"), t = ref::any_tod<S>("s2");
  datetime_interval<S> a(i, s), b(j, t); long d = (V(i) - V(j)) * DAY<S> + V(s) - V(t);
  ORDER(V(i) - V(j), V(s) - V(t), d); SIX(a, b, lt, eq, "intervals compare as their lengths:");
}
template <class T> void elementary() {
  constexpr bool l = sizeof(typename T::underlying_type) == 8;
  long lo = l ? -9223372036854775807L - 1 : -2147483648L, hi = l ? 9223372036854775807L : 2147483647L;
  long x = V_in("x", lo, hi), y = V_in("y", lo, hi); T a{(typename T::underlying_type)x}, b{(typename T::underlying_type)y};
  SIX(a, b, x < y, x == y, "elementary values compare as their numbers:");
}
extern "C" {
FOR_S(E_datetime) FOR_S(E_datetime_full) FOR_S(E_interval)
#define EL(T) void E_elem_##T() { elementary<T>(); }
EL(year) EL(month) EL(gps_week) EL(day_of_month) EL(day_of_year) EL(modified_julian_day) EL(hours) EL(minutes) EL(seconds) EL(milliseconds) EL(microseconds)
}
