// C27: what the writers print, the readers read back.
#include "vh.hpp"
#include "datetime_write.hpp"
#include "datetime_read.hpp"
#include <cerrno>
using namespace ngpt;
using ref::DAY; using ref::PS;
template <class S> struct When { ref::Date q; long h, mi, s, f; datetime<S> d; };
template <class S> When<S> any_when() {
  auto q = ref::any_date(0, 24); long h = V_in("h", 0, 23), mi = V_in("mi", 0, 59), s = V_in("s", 0, 59), f = V_in("f", 0, PS<S> - 1);
  return {q, h, mi, s, f, datetime<S>(modified_julian_day{q.mjd}, S{((h * 60 + mi) * 60 + s) * PS<S> + f})};
}
// any delimiter that is not a digit
static inline char any_del() { long c = V_in("del", -128, 127); V_given(c != 0); V_given((unsigned long)(c - 48) > 9ul); return (char)c; }
// the date of the instant is proved first and then used
template <class S> void fields(const When<S>& w) {
  auto c = w.d.as_ymd();
  V_check(c.__year.as_underlying_type() == w.q.q.y, "the year of the instant");
  V_check(c.__month.as_underlying_type() == w.q.m, "the month of the instant");
  V_check(c.__dom.as_underlying_type() == w.q.d, "the day of the instant");
}
// whole: the text has whole seconds only
template <class S, bool WHOLE> void back(const When<S>& w, const std::string& s) {
  const void* p = &s; const char* t = V_out_schema(p); errno = (int)V_in("errno", 0, 133);
  datetime<S> got = strptime_ymd_hms<S>(t);
  V_reach("read");
  long u = (got.mjd().as_underlying_type() - w.q.mjd) * DAY<S> + got.sec().as_underlying_type();
  long hm = (w.h * 60 + w.mi) * 60 * PS<S>;
  if constexpr (WHOLE || PS<S> == 1) V_check(u == hm + w.s * PS<S>, "the text read back is the instant printed, to the second");
  else {
    V_close((double)(u - hm) + 0.5, (double)(w.s * PS<S> + w.f), 0.5001, "the text read back is the instant printed or the unit just before it");
  }
}
template <class S> void E_hms() { char del = any_del(); auto w = any_when<S>(); fields(w); std::string s = strftime_ymd_hms(w.d, del); back<S, true>(w, s); }
template <class S> void E_hmfs() { char del = any_del(); auto w = any_when<S>(); fields(w); std::string s = strftime_ymd_hmfs(w.d, del); back<S, false>(w, s); }
template <class S> void E_default() { auto w = any_when<S>(); fields(w); std::string s = strftime_ymd_hms(w.d); back<S, true>(w, s); std::string r = strftime_ymd_hmfs(w.d); back<S, false>(w, r); }
template <class S> void E_stringify() { auto w = any_when<S>(); fields(w); std::string s = w.d.stringify(); back<S, false>(w, s); }
extern "C" { FOR_S(E_hms) FOR_S(E_hmfs) FOR_S(E_default) FOR_S(E_stringify) }
