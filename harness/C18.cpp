// C18: the text writers.
#include "vh.hpp"
#include "datetime_write.hpp"
using namespace ngpt;
using ref::DAY; using ref::PS;
template <class S> struct When { ref::Date q; long h, mi, s, f; datetime<S> d; };
template <class S> When<S> any_when() {
  auto q = ref::any_date(0, 24); long h = V_in("h", 0, 23), mi = V_in("mi", 0, 59), s = V_in("s", 0, 59), f = V_in("f", 0, PS<S> - 1);
  return {q, h, mi, s, f, datetime<S>(modified_julian_day{q.mjd}, S{((h * 60 + mi) * 60 + s) * PS<S> + f})};
}
// the date of the instant is proved first and then used
template <class S> void fields(const When<S>& w) {
  auto c = w.d.as_ymd();
  V_check(c.__year.as_underlying_type() == w.q.q.y, "the year of the instant");
  V_check(c.__month.as_underlying_type() == w.q.m, "the month of the instant");
  V_check(c.__dom.as_underlying_type() == w.q.d, "the day of the instant");
}
#define DATE(s, sep, n, pad) V_out_int(s, w.q.q.y, n); V_out_chr(s, sep); V_out_int(s, w.q.m, pad); V_out_chr(s, sep); V_out_int(s, w.q.d, pad); V_out_chr(s, ' ')
#define HM(s, pad) V_out_int(s, w.h, pad); V_out_chr(s, ':'); V_out_int(s, w.mi, pad); V_out_chr(s, ':')
template <class S> void E_hms() {
  char del = (char)V_in("del", 32, 126); auto w = any_when<S>(); fields(w);
  std::string s = strftime_ymd_hms(w.d, del); void* p = &s;
  DATE(p, del, 4, 2); HM(p, 2); V_out_int(p, w.s, 2); V_out_end(p, "date, hours, minutes and whole seconds, in order and padded");
}
template <class S> void E_hmfs() {
  char del = (char)V_in("del", 32, 126); auto w = any_when<S>(); fields(w);
  std::string s = strftime_ymd_hmfs(w.d, del); void* p = &s;
  DATE(p, del, 4, 2); HM(p, 2); V_out_real(p, w.s * PS<S> + w.f, PS<S>); V_out_end(p, "date, hours, minutes and seconds with their fraction, in order");
}
template <class S> void E_default_del() {
  auto w = any_when<S>(); fields(w);
  std::string s = strftime_ymd_hms(w.d); void* p = &s;
  DATE(p, '-', 4, 2); HM(p, 2); V_out_int(p, w.s, 2); V_out_end(p, "the default delimiter is a dash");
  std::string r = strftime_ymd_hmfs(w.d); p = &r;
  DATE(p, '-', 4, 2); HM(p, 2); V_out_real(p, w.s * PS<S> + w.f, PS<S>); V_out_end(p, "the default delimiter is a dash");
}
template <class S> void E_stringify() {
  auto w = any_when<S>(); fields(w);
  std::string s = w.d.stringify(); void* p = &s;
  DATE(p, '/', 0, 0);
  HM(p, 0); V_out_real(p, w.s * PS<S> + w.f, PS<S>); V_out_end(p, "the datetime's own text has the same fields separated by '/', ' ' and ':'");
}
extern "C" { FOR_S(E_hms) FOR_S(E_hmfs) FOR_S(E_default_del) FOR_S(E_stringify) }
