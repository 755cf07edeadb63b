// C01: calendar date -> Modified Julian Day, for every valid date from -4799 on.
#include "vh.hpp"
using namespace ngpt;
using ref::any_date; using ref::Date;
extern "C" {
void E_cal2mjd() {
  Date x = any_date();
  V_check(cal2mjd(x.y, month{x.m}, day_of_month{x.d}).as_underlying_type() == x.mjd, "cal2mjd(year,month,day) is the day count from 1858-11-17");
}
void E_mjd_type() {
  Date x = any_date();
  V_check(modified_julian_day(x.y, month{x.m}, day_of_month{x.d}).as_underlying_type() == x.mjd, "modified_julian_day(year,month,day) is the day count from 1858-11-17");
}
}
template <class S> static inline void by_sec() {
  Date x = any_date();
  V_check(datetime<S>(x.y, month{x.m}, day_of_month{x.d}, S{0}).mjd().as_underlying_type() == x.mjd, "datetime(y,m,d,S) falls on the right day");
}
template <class S> static inline void by_hms() {
  Date x = any_date();
  V_check(datetime<S>(x.y, month{x.m}, day_of_month{x.d}, hours{0}, minutes{0}, S{0}).mjd().as_underlying_type() == x.mjd, "datetime(y,m,d,h,m,S) falls on the right day");
}
template <class S> static inline void by_date() {
  Date x = any_date();
  V_check(datetime<S>(x.y, month{x.m}, day_of_month{x.d}).mjd().as_underlying_type() == x.mjd, "datetime(y,m,d) falls on the right day");
}
template <class S> static inline void by_real() {
  Date x = any_date();
  V_check(datetime<S>(x.y, month{x.m}, day_of_month{x.d}, hours{0}, minutes{0}, 0e0).mjd().as_underlying_type() == x.mjd, "datetime(y,m,d,h,m,real) falls on the right day");
}
template <class S, class T> static inline void by_other() {
  Date x = any_date();
  V_check(datetime<S>(x.y, month{x.m}, day_of_month{x.d}, T{0}).mjd().as_underlying_type() == x.mjd, "datetime(y,m,d,T) falls on the right day");
  V_check(datetime<S>(x.y, month{x.m}, day_of_month{x.d}, hours{0}, minutes{0}, T{0}).mjd().as_underlying_type() == x.mjd, "datetime(y,m,d,h,m,T) falls on the right day");
}
extern "C" {
#define ALL(S) void E_sec_##S() { by_sec<S>(); } void E_hms_##S() { by_hms<S>(); } void E_date_##S() { by_date<S>(); } void E_real_##S() { by_real<S>(); }
ALL(seconds) ALL(milliseconds) ALL(microseconds)
void E_other_seconds_milliseconds() { by_other<seconds, milliseconds>(); }
void E_other_seconds_microseconds() { by_other<seconds, microseconds>(); }
void E_other_milliseconds_microseconds() { by_other<milliseconds, microseconds>(); }
}
