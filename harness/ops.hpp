// Every way to make or change a datetime or an interval; included by C06 (time of
// day stays in range), C07 (nothing gained or lost) and C21 (no undefined behaviour).
//   RESULT(d, base, total, unit): d was made from day `base` plus `total` units, where
//   `total` counts units `unit` times finer than d's resolution.
#include "vh.hpp"
using namespace ngpt;
#ifndef GIVEN_DATE
#define GIVEN_DATE(q) do { } while (0)
#endif
using ref::DAY; using ref::PS;
template <class S, class T> constexpr long RATIO = PS<T> > PS<S> ? PS<T> / PS<S> : 1; // units of T in one S
template <class S, class T> constexpr long UP = PS<S> > PS<T> ? PS<S> / PS<T> : 1;      // units of S in one T
static inline int any_h() { return (int)V_in("h", -100000, 100000); }
static inline int any_m() { return (int)V_in("m", -1000000, 1000000); }
#ifndef KHI
#define KHI 24
#endif
// ---- constructors
template <class S> void E_default() { datetime<S> d; RESULT(d, 51544, 0, 1); }
template <class S> void E_mjd() { auto j = ref::any_mjd(); S s = ref::any_amount<S>(); datetime<S> d(j, s); RESULT(d, j.as_underlying_type(), s.as_underlying_type(), 1); }
template <class S> void E_mjd_h() { auto j = ref::any_mjd(); int h = any_h(); datetime<S> d(j, hours{h}); RESULT(d, j.as_underlying_type(), h * 3600L * PS<S>, 1); }
template <class S> void E_mjd_hms() {
  auto j = ref::any_mjd(); int h = any_h(), m = any_m(); S s{V_in("sec", -1000 * DAY<S>, 1000 * DAY<S>)};
  datetime<S> d(j, hours{h}, minutes{m}, s); RESULT(d, j.as_underlying_type(), (h * 3600L + m * 60L) * PS<S> + s.as_underlying_type(), 1);
}
template <class S, class T> void E_ymd() { constexpr long R = RATIO<S, T>, P = UP<S, T>; (void)R; (void)P;
  auto q = ref::any_date(-12, KHI); T t = ref::any_amount<T>();
  GIVEN_DATE(q); datetime<S> d(q.y, month{q.m}, day_of_month{q.d}, t); RESULT(d, q.mjd, t.as_underlying_type(), R);
}
template <class S> void E_ymd_only() { auto q = ref::any_date(-12, KHI); GIVEN_DATE(q); datetime<S> d(q.y, month{q.m}, day_of_month{q.d}); RESULT(d, q.mjd, 0, 1); }
template <class S> void E_ymd_h() { auto q = ref::any_date(-12, KHI); int h = any_h(); GIVEN_DATE(q); datetime<S> d(q.y, month{q.m}, day_of_month{q.d}, hours{h}); RESULT(d, q.mjd, h * 3600L * PS<S>, 1); }
template <class S, class T> void E_ymd_hms() { constexpr long R = RATIO<S, T>, P = UP<S, T>; (void)R; (void)P;
  auto q = ref::any_date(-12, KHI); int h = any_h(), m = any_m(); T t{V_in("sec", -1000 * DAY<T>, 1000 * DAY<T>)};
  GIVEN_DATE(q); datetime<S> d(q.y, month{q.m}, day_of_month{q.d}, hours{h}, minutes{m}, t); RESULT(d, q.mjd, (h * 3600L + m * 60L) * PS<S> * R + t.as_underlying_type(), R);
}
template <class S, class T> void E_ydoy() { constexpr long R = RATIO<S, T>, P = UP<S, T>; (void)R; (void)P;
  auto q = ref::any_ydate(-12, KHI); T t = ref::any_amount<T>();
  datetime<S> d(q.y, day_of_year{q.doy}, t); RESULT(d, q.mjd, t.as_underlying_type(), R);
}
template <class S, class T> void E_ydoy_hms() { constexpr long R = RATIO<S, T>, P = UP<S, T>; (void)R; (void)P;
  auto q = ref::any_ydate(-12, KHI); int h = any_h(), m = any_m(); T t{V_in("sec", -1000 * DAY<T>, 1000 * DAY<T>)};
  datetime<S> d(q.y, day_of_year{q.doy}, hours{h}, minutes{m}, t); RESULT(d, q.mjd, (h * 3600L + m * 60L) * PS<S> * R + t.as_underlying_type(), R);
}
template <class S> void E_ydoy_only() { auto q = ref::any_ydate(-12, KHI); datetime<S> d(q.y, day_of_year{q.doy}); RESULT(d, q.mjd, 0, 1); }
// whole seconds given as a real number
template <class S> void E_ymd_real() {
  auto q = ref::any_date(-12, KHI); int h = any_h(), m = any_m(); long n = V_in("n", -100000000L, 100000000L);
  GIVEN_DATE(q); datetime<S> d(q.y, month{q.m}, day_of_month{q.d}, hours{h}, minutes{m}, (double)n); RESULT(d, q.mjd, (h * 3600L + m * 60L + n) * PS<S>, 1);
}
template <class S> void E_ydoy_real() {
  auto q = ref::any_ydate(-12, KHI); int h = any_h(), m = any_m(); long n = V_in("n", -100000000L, 100000000L);
  datetime<S> d(q.y, day_of_year{q.doy}, hours{h}, minutes{m}, (double)n); RESULT(d, q.mjd, (h * 3600L + m * 60L + n) * PS<S>, 1);
}
template <class S> void E_gps() {
  long w = V_in("week", -10000000, 10000000); S s = ref::any_amount<S>("sow");
  datetime<S> d(gps_week{w}, s); RESULT(d, 44244 + 7 * w, s.as_underlying_type(), 1);
}
template <class S> void E_sod_constructor() { // the (hours, minutes, S) constructor of the second types, brought into a datetime
  int h = any_h(), m = any_m(); S s{V_in("sec", -1000 * DAY<S>, 1000 * DAY<S>)}; S t(hours{h}, minutes{m}, s);
  datetime<S> d(modified_julian_day{0}, t); RESULT(d, 0, (h * 3600L + m * 60L) * PS<S> + s.as_underlying_type(), 1);
}
// ---- adding and removing
template <class S> void E_add() { auto d = ref::any_dt<S>(); long j = d.mjd().as_underlying_type(), t = d.sec().as_underlying_type(); S s = ref::any_amount<S>(); d.add_seconds(s); RESULT(d, j, t + s.as_underlying_type(), 1); }
template <class S> void E_remove() { auto d = ref::any_dt<S>(); long j = d.mjd().as_underlying_type(), t = d.sec().as_underlying_type(); S s = ref::any_amount<S>(); d.remove_seconds(s); RESULT(d, j, t - s.as_underlying_type(), 1); }
template <class S, class T> void E_add_mixed() { constexpr long R = RATIO<S, T>, P = UP<S, T>; (void)R; (void)P;
  auto d = ref::any_dt<S>(); long j = d.mjd().as_underlying_type(), t = d.sec().as_underlying_type(); T s = ref::any_amount<T>();
  d.add_seconds(s); RESULT(d, j, t * R + s.as_underlying_type() * P, R);
}
template <class S, class T> void E_remove_mixed() { constexpr long R = RATIO<S, T>, P = UP<S, T>; (void)R; (void)P;
  auto d = ref::any_dt<S>(); long j = d.mjd().as_underlying_type(), t = d.sec().as_underlying_type(); T s = ref::any_amount<T>();
  d.remove_seconds(s); RESULT(d, j, t * R - s.as_underlying_type() * P, R);
}
template <class S, class T> void E_add_days() { constexpr long R = RATIO<S, T>, P = UP<S, T>; (void)R; (void)P;
  auto d = ref::any_dt<S>(); long j = d.mjd().as_underlying_type(), t = d.sec().as_underlying_type(); T s = ref::any_amount<T>(); long n = V_in("days", -ref::DAYS, ref::DAYS);
  datetime<S> e = d.add(modified_julian_day{n}, s); RESULT(e, j + n, t * R + s.as_underlying_type(), R);
  V_check(d.mjd().as_underlying_type() == j && d.sec().as_underlying_type() == t, "add() leaves the object it is called on unchanged");
}
template <class S> void E_twice() { // a sequence of operations
  auto d = ref::any_dt<S>(); long j = d.mjd().as_underlying_type(), t = d.sec().as_underlying_type(); S a{V_in("a", -1000 * DAY<S>, 1000 * DAY<S>)}, b{V_in("b", -1000 * DAY<S>, 1000 * DAY<S>)};
  d.add_seconds(a); d.remove_seconds(b); RESULT(d, j, t + a.as_underlying_type() - b.as_underlying_type(), 1);
}
template <class S> void E_plus_interval() {
  auto d = ref::any_dt<S>(); long j = d.mjd().as_underlying_type(), t = d.sec().as_underlying_type(); long n = V_in("days", -ref::DAYS, ref::DAYS); S s = ref::any_amount<S>();
  datetime_interval<S> i(modified_julian_day{n}, s); d += i; RESULT(d, j + n, t + s.as_underlying_type(), 1);
}
template <class S> void E_normalize() { auto d = ref::any_dt<S>(); long j = d.mjd().as_underlying_type(), t = d.sec().as_underlying_type(); d.normalize(); RESULT(d, j, t, 1); }
template <class S, class T> void E_cast() { constexpr long R = RATIO<S, T>, P = UP<S, T>; (void)R; (void)P; // S is the target
  auto d = ref::any_dt<T>(); long j = d.mjd().as_underlying_type(), t = d.sec().as_underlying_type();
  datetime<S> e = d.template cast_to<S>(); RESULT(e, j, t * P, R);
}
// ---- intervals
template <class S> void E_interval() { auto j = ref::any_mjd("days"); S s = ref::any_amount<S>(); datetime_interval<S> d(j, s); RESULTI(d, j.as_underlying_type(), s.as_underlying_type()); }
template <class S> void E_interval0() { datetime_interval<S> d; RESULTI0(d); }
template <class S> void E_interval_norm() { auto j = ref::any_mjd("days"); S s = ref::any_tod<S>(); datetime_interval<S> d(j, s); d.normalize(); RESULTI(d, j.as_underlying_type(), s.as_underlying_type()); }
template <class S> void E_delta() {
  auto a = ref::any_dt<S>("mjd1", "tod1"), b = ref::any_dt<S>("mjd2", "tod2"); auto i = a.delta_date(b);
  RESULTI(i, a.mjd().as_underlying_type() - b.mjd().as_underlying_type(), a.sec().as_underlying_type() - b.sec().as_underlying_type());
}
template <class S> void E_delta_free() {
  auto a = ref::any_dt<S>("mjd1", "tod1"), b = ref::any_dt<S>("mjd2", "tod2"); auto i = delta_date(a, b);
  RESULTI(i, a.mjd().as_underlying_type() - b.mjd().as_underlying_type(), a.sec().as_underlying_type() - b.sec().as_underlying_type());
}
extern "C" {
FOR_S(E_default) FOR_S(E_mjd) FOR_S(E_mjd_h) FOR_S(E_mjd_hms) FOR_FINE(E_ymd) FOR_S(E_ymd_only) FOR_S(E_ymd_h) FOR_FINE(E_ymd_hms)
FOR_FINE(E_ydoy) FOR_FINE(E_ydoy_hms) FOR_S(E_ydoy_only) FOR_S(E_ymd_real) FOR_S(E_ydoy_real) FOR_S(E_gps) FOR_S(E_sod_constructor)
FOR_S(E_add) FOR_S(E_remove) FOR_ST(E_add_mixed) FOR_ST(E_remove_mixed) FOR_FINE(E_add_days) FOR_S(E_twice) FOR_S(E_plus_interval) FOR_S(E_normalize) FOR_ST(E_cast)
FOR_S(E_interval) FOR_S(E_interval0) FOR_S(E_interval_norm) FOR_S(E_delta) FOR_S(E_delta_free)
}
