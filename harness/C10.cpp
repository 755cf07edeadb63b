// C10: hours/minutes/seconds split and recombine exactly.
#include "vh.hpp"
using namespace ngpt;
using ref::DAY; using ref::PS;
#define V(x) (long)(x).as_underlying_type()
#define PARTS(t, x) do { long h_ = V(std::get<0>(t)), m_ = V(std::get<1>(t)), s_ = V(std::get<2>(t)), f_ = std::get<3>(t); \
  V_check(h_ >= 0 && h_ <= 23, "hours 0..23"); V_check(m_ >= 0 && m_ <= 59, "minutes 0..59"); V_check(s_ >= 0 && s_ <= 59, "seconds 0..59"); \
  V_check(f_ >= 0 && f_ < PS<S>, "sub-second count below the units per second"); \
  V_check(((h_ * 60 + m_) * 60 + s_) * PS<S> + f_ == (x), "the parts recombine to the original"); } while (0)
template <class S> void E_split() { S s = ref::any_tod<S>(); auto t = s.to_hmsf(); PARTS(t, V(s)); }
template <class S> void E_split_dt() { auto d = ref::any_dt<S>(); auto t = d.as_hmsf(); PARTS(t, V(d.sec())); }
template <class S> void E_build() {
  int h = (int)V_in("h", -2147483648L, 2147483647L), m = (int)V_in("m", -2147483648L, 2147483647L); S s{V_in("amount", -10000 * DAY<S>, 10000 * DAY<S>)};
  V_check(V(S(hours{h}, minutes{m}, s)) == (h * 3600L + m * 60L) * PS<S> + V(s), "(hours,minutes,S) is exactly the total");
}
template <class S> void E_rebuild() {
  S s = ref::any_tod<S>(); auto t = s.to_hmsf();
  V_check(V(S(std::get<0>(t), std::get<1>(t), S{V(std::get<2>(t)) * PS<S> + std::get<3>(t)})) == V(s), "splitting and building is the identity");
}
template <class S> void E_whole_days() { // day counts that fit the returned int
  S s = ref::any_amount<S>(); long n = V(s); S r = s; int d = r.remove_days();
  V_check(V(r) + d * DAY<S> == n, "remove_days returns exactly what was removed");
  V_check(V(r) < DAY<S> && V(r) > -DAY<S>, "remove_days leaves less than one day");
  V_check(n < 0 || V(r) >= 0, "remove_days of a non-negative amount leaves a time of day");
  V_check(s.to_days() == d, "to_days counts the same days");
  V_check(s.more_than_day() == (n > DAY<S>), "more_than_day");
}
void E_hours_days_() {
  int n = (int)V_in("h", -2147483648L, 2147483647L); hours h{n}; long d = h.remove_days(), r = V(h);
  V_check(d * 24 + r == n, "hours::remove_days returns exactly what was removed"); V_check(r < 24 && r > -24, "hours::remove_days leaves less than a day"); V_check(n < 0 || r >= 0, "and not a negative one");
}
void E_minutes_hours_() {
  int n = (int)V_in("m", -2147483648L, 2147483647L); minutes m{n}; hours h = m.remove_hours(); long r = V(m);
  V_check(V(h) * 60 + r == n, "minutes::remove_hours returns exactly what was removed"); V_check(r < 60 && r > -60, "minutes::remove_hours leaves less than an hour"); V_check(n < 0 || r >= 0, "and not a negative one");
}
extern "C" { FOR_S(E_split) FOR_S(E_split_dt) FOR_S(E_build) FOR_S(E_rebuild) FOR_S(E_whole_days) void E_hours_days() { E_hours_days_(); } void E_minutes_hours() { E_minutes_hours_(); } }
