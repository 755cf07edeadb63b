// C03: day-of-year conversions agree with the calendar.
#include "vh.hpp"
using namespace ngpt;
extern "C" {
void E_ymd_to_ydoy() {
  ref::Date x = ref::any_date();
  ydoy_date g = ymd_date(x.y, month{x.m}, day_of_month{x.d}).to_ydoy();
  V_check(g.__year.as_underlying_type() == x.q.y, "date to day-of-year keeps the year");
  V_check(g.__doy.as_underlying_type() == ref::before_month(x.q, x.m) + x.d, "date to day-of-year counts from January 1st");
}
void E_ydoy_to_ymd() {
  ref::Date x = ref::any_date(); // every valid day of year is that of exactly one date
  ymd_date g = ydoy_date(x.y, day_of_year{ref::before_month(x.q, x.m) + x.d}).to_ymd();
  V_check(g.__year.as_underlying_type() == x.q.y, "day-of-year to date keeps the year");
  V_check(g.__month.as_underlying_type() == x.m, "day-of-year to date gives the month");
  V_check(g.__dom.as_underlying_type() == x.d, "day-of-year to date gives the day");
}
void E_mjd_to_ydoy() {
  ref::YDate x = ref::any_ydate();
  ydoy_date g = modified_julian_day{x.mjd}.to_ydoy();
  V_check(g.__year.as_underlying_type() == x.q.y, "MJD to day-of-year gives the year");
  V_check(g.__doy.as_underlying_type() == x.doy, "MJD to day-of-year gives the day");
}
void E_ydoy2mjd() {
  ref::YDate x = ref::any_ydate();
  V_check(ydoy2mjd(x.y, day_of_year{x.doy}).as_underlying_type() == x.mjd, "ydoy2mjd counts from January 1st");
}
void E_mjd_ctor() {
  ref::YDate x = ref::any_ydate();
  V_check(modified_julian_day(x.y, day_of_year{x.doy}).as_underlying_type() == x.mjd, "modified_julian_day(year,doy) counts from January 1st");
}
}
template <class S> static inline void back() {
  ref::YDate x = ref::any_ydate();
  ydoy_date g = datetime<S>(modified_julian_day{x.mjd}, S{0}).as_ydoy();
  V_check(g.__year.as_underlying_type() == x.q.y && g.__doy.as_underlying_type() == x.doy, "datetime::as_ydoy gives the day it holds");
}
template <class S> static inline void ctors() {
  ref::YDate x = ref::any_ydate();
  V_check(datetime<S>(x.y, day_of_year{x.doy}).mjd().as_underlying_type() == x.mjd, "datetime(year,doy) falls on the right day");
  V_check(datetime<S>(x.y, day_of_year{x.doy}, S{0}).mjd().as_underlying_type() == x.mjd, "datetime(year,doy,S) falls on the right day");
  V_check(datetime<S>(x.y, day_of_year{x.doy}, hours{0}, minutes{0}, S{0}).mjd().as_underlying_type() == x.mjd, "datetime(year,doy,h,m,S) falls on the right day");
  V_check(datetime<S>(x.y, day_of_year{x.doy}, hours{0}, minutes{0}, 0e0).mjd().as_underlying_type() == x.mjd, "datetime(year,doy,h,m,real) falls on the right day");
}
extern "C" {
#define ALL(S) void E_as_ydoy_##S() { back<S>(); } void E_ctor_##S() { ctors<S>(); }
ALL(seconds) ALL(milliseconds) ALL(microseconds)
void E_ctor_finer() {
  ref::YDate x = ref::any_ydate();
  V_check(datetime<seconds>(x.y, day_of_year{x.doy}, microseconds{0}).mjd().as_underlying_type() == x.mjd, "datetime<seconds>(year,doy,microseconds) falls on the right day");
  V_check(datetime<seconds>(x.y, day_of_year{x.doy}, hours{0}, minutes{0}, milliseconds{0}).mjd().as_underlying_type() == x.mjd, "datetime<seconds>(year,doy,h,m,milliseconds) falls on the right day");
}
}
