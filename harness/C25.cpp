// C25: real-valued seconds.
#include "vh.hpp"
using namespace ngpt;
namespace {
// n units hold x seconds: not later than the exact time and less than one unit before it (to rounding, 1e-4 units)
template <class S> void holds(long n, double x) {
  V_close(static_cast<double>(n) + 0.5, x * static_cast<double>(ref::PS<S>), 0.5001, "real-valued seconds are held to within one unit of the resolution, not later than the exact time");
}
}
template <class S> void tod() {
  int h = (int)V_in("hours", 0, 23), m = (int)V_in("minutes", 0, 59); double x = V_real("seconds", 0, 86400);
  S s(hours{h}, minutes{m}, x);
  holds<S>(s.as_underlying_type() - (h * 3600L + m * 60L) * ref::PS<S>, x);
}
template <class S> void ymd() {
  ref::Date d = ref::any_date(); int h = (int)V_in("hours", 0, 23), m = (int)V_in("minutes", 0, 59); double x = V_real("seconds", 0, 86400);
  datetime<S> t(d.y, month{d.m}, day_of_month{d.d}, hours{h}, minutes{m}, x);
  holds<S>((t.mjd().as_underlying_type() - d.mjd) * ref::DAY<S> + t.sec().as_underlying_type() - (h * 3600L + m * 60L) * ref::PS<S>, x);
}
template <class S> void ydoy() {
  ref::YDate d = ref::any_ydate(); int h = (int)V_in("hours", 0, 23), m = (int)V_in("minutes", 0, 59); double x = V_real("seconds", 0, 86400);
  datetime<S> t(d.y, day_of_year{d.doy}, hours{h}, minutes{m}, x);
  holds<S>((t.mjd().as_underlying_type() - d.mjd) * ref::DAY<S> + t.sec().as_underlying_type() - (h * 3600L + m * 60L) * ref::PS<S>, x);
}
extern "C" {
#define EL(n) void E_##n##_s() { n<seconds>(); } void E_##n##_ms() { n<milliseconds>(); } void E_##n##_us() { n<microseconds>(); }
EL(tod) EL(ymd) EL(ydoy)
}
