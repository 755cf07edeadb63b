// C24: real-valued views. Each is compared with the exact value; tolerances are a few units in the last place
// of the largest magnitude in the range, over a small and the full range.
#include "vh.hpp"
using namespace ngpt;
constexpr long LO = -2431739, HI = 2973483; // -4799-01-01 .. 9999-12-31
template <class S> S amount(long days) { return S{V_in("amount", -days * ref::DAY<S>, days * ref::DAY<S>)}; }
template <class S> void days1(long d, double tol) { S s = amount<S>(d); V_close(s.fractional_days(), (double)s.as_underlying_type() / (double)ref::DAY<S>, tol, "fractional days are the amount divided by the day length"); }
template <class S> void secs1(long d, double tol) { S s = amount<S>(d); V_close(s.to_fractional_seconds(), (double)s.as_underlying_type() / (double)ref::PS<S>, tol, "fractional seconds are the amount divided by the units per second"); }
template <class S> void fd_day() { days1<S>(1, 1e-15); } template <class S> void fd_year() { days1<S>(366, 4e-13); }
template <class S> void fs_day() { secs1<S>(1, 1e-10); } template <class S> void fs_year() { secs1<S>(366, 4e-8); }
template <class S> void mjd() { // datetime
  datetime<S> t(modified_julian_day{V_in("mjd", LO, HI)}, ref::any_tod<S>());
  V_close(t.as_mjd(), (double)t.mjd().as_underlying_type() + (double)t.sec().as_underlying_type() / (double)ref::DAY<S>, 4e-9, "the fractional Modified Julian Date is the day plus the fraction of the day");
}
template <class S> void far() {
  datetime<S> t(modified_julian_day{V_in("mjd", -2147483648L, 2147483647L)}, ref::any_tod<S>());
  V_close(t.as_mjd(), (double)t.mjd().as_underlying_type() + (double)t.sec().as_underlying_type() / (double)ref::DAY<S>, 2e-6, "the fractional Modified Julian Date of a far date is the day plus the fraction of the day");
}
template <class S> void span() { // interval of up to a year, either sign
  datetime_interval<S> t(modified_julian_day{V_in("days", -366, 366)}, ref::any_tod<S>());
  V_close(t.as_mjd(), (double)t.days().as_underlying_type() + (double)t.sec().as_underlying_type() / (double)ref::DAY<S>, 4e-13, "the length of an interval in days is its days plus the fraction of a day");
}
template <class S> void near() { // close to the epoch the fraction is held to 1e-14 days (a nanosecond)
  datetime<S> t(modified_julian_day{V_in("mjd", -10, 10)}, ref::any_tod<S>());
  V_close(t.as_mjd(), (double)t.mjd().as_underlying_type() + (double)t.sec().as_underlying_type() / (double)ref::DAY<S>, 1e-14, "the fractional Modified Julian Date is the day plus the fraction of the day");
}
extern "C" {
#define EL(n) void E_##n##_s() { n<seconds>(); } void E_##n##_ms() { n<milliseconds>(); } void E_##n##_us() { n<microseconds>(); }
EL(fd_day) EL(fd_year) EL(fs_day) EL(fs_year) EL(mjd) EL(span) EL(near) EL(far)
void E_jd() {
  modified_julian_day m{V_in("mjd", LO, HI)};
  V_close(m.to_julian_day() - 2400000.5, (double)m.as_underlying_type(), 4e-9, "the Julian Day is the Modified Julian Day plus 2400000.5");
}
// far dates (any year an int can hold a day count for)
void E_jd_far() {
  modified_julian_day m{V_in("mjd", -2147483648L, 2147483647L)};
  V_close(m.to_julian_day() - 2400000.5, (double)m.as_underlying_type(), 2e-6, "the Julian Day of a far date is the Modified Julian Day plus 2400000.5");
}
// whole and fraction of a number of milliseconds
void E_split() {
  milliseconds s = amount<milliseconds>(366); double f = 0; seconds w = s.resolve_sec(f); long n = s.as_underlying_type();
  V_close(f, (double)(n - 1000 * w.as_underlying_type()) * 1e-3, 1e-15, "whole and fraction of the seconds add up to the amount");
  V_close(f, 0, 0.9999, "the fraction of a second is less than one second");
}
}
