// C17: well-formed text is read to exactly the instant it names, whatever happened before.
#include "vh.hpp"
#include <cerrno>
using namespace ngpt;
namespace {
// a text is a sequence of fields; a field of digits is a number of unknown length (leading zeros, any width) and a value
struct Text {
  long id; long len = 0; int n[3] = {0, 0, 0};
  Text() : id(V_schema("text")) {}
  const char *nth(int k) { // a name of its own for every input
    static const char *const t[3][12] = {{"digits1", "digits2", "digits3", "digits4", "digits5", "digits6"},
      {"separator1", "separator2", "separator3", "separator4", "separator5", "separator6"}, {"upper1", "upper2", "upper3"}};
    return t[k][n[k]++];
  }
  void num(long v) { long l = V_in(nth(0), 1, 1000); V_seg_int(id, l, v); len += l; }
  void real(double v) { long l = V_in(nth(0), 1, 1000); V_seg_real(id, l, v); len += l; }
  void chr(int c) { V_seg_chr(id, c); ++len; }
  // any single character that is not part of a number; 8-bit characters included
  void sep() { int c = (int)V_in(nth(1), -128, 127); V_given(c != 0); V_given((unsigned)(c - 48) > 9u); chr(c); }
  const char *text() { errno = (int)V_in("errno", 0, 133); return V_schema_text(id); } // whatever the program did before
};
const char names[] = "janfebmaraprmayjunjulaugsepoctnovdec";
void name(Text &t, int m) {
  for (int i = 0; i < 3; ++i) { int up = (int)V_in(t.nth(2), 0, 1); t.chr(names[3 * (m - 1) + i] - 32 * up); }
}
}
template <class S, int R> static inline datetime<S> rd(const char *t, char **e) {
  if constexpr (R == 0) return strptime_ymd<S>(t, e);
  else if constexpr (R == 1) return strptime_ydoy<S>(t, e);
  else if constexpr (R == 2) return strptime_ymd_hms<S>(t, e);
  else if constexpr (R == 3) return strptime_yod_hms<S>(t, e);
  else return strptime_ydoy_hms<S>(t, e);
}
// MORE: something other than a number's continuation follows; STOP: the caller asks where reading ended
template <class S, int R, bool MORE, bool STOP> void read() {
  Text x; int y; long mjd, h = 0, n = 0; double s = 0;
  if constexpr (R == 1 || R == 4) { ref::YDate d = ref::any_ydate(0); y = d.y.as_underlying_type(); mjd = d.mjd; x.num(y); x.sep(); x.num(d.doy); }
  else {
    ref::Date d = ref::any_date(0); y = d.y.as_underlying_type(); mjd = d.mjd; x.num(y); x.sep();
    if constexpr (R == 3) name(x, d.m); else x.num(d.m);
    x.sep(); x.num(d.d);
  }
  if constexpr (R >= 2) {
    h = V_in("hours", 0, 23); n = V_in("minutes", 0, 59); s = V_real("seconds", 0, 86400);
    x.sep(); x.num(h); x.sep(); x.num(n); x.sep(); x.real(s);
  }
  long len = x.len;
  if constexpr (MORE) { int c = (int)V_in("after", -128, 127); V_given(c != 0); V_given(c != '.'); V_given((unsigned)(c - '0') > 9u); V_given((unsigned)(c - 'A') > 25u); V_given((unsigned)(c - 'a') > 25u); x.chr(c); }
  const char *t = x.text(); char *e = nullptr; datetime<S> got;
  got = rd<S, R>(t, STOP ? &e : nullptr);
  V_reach("read");
  long u = (got.mjd().as_underlying_type() - mjd) * ref::DAY<S> + got.sec().as_underlying_type();
  V_check(got.sec().as_underlying_type() >= 0 && got.sec().as_underlying_type() < ref::DAY<S>, "the datetime read has a time of day");
  if constexpr (R < 2) V_check(u == 0, "the datetime read is midnight of exactly the day the text names");
  else V_close((double)(u - (h * 3600 + n * 60) * ref::PS<S>) + 0.5, s * (double)ref::PS<S>, 0.5001, "the datetime read has exactly the fields of the text, seconds to within one unit of the resolution");
  if constexpr (STOP) V_check(e == t + len - 1, "the stop position is the last character read");
}
template <class S, int R> void pair_() { read<S, R, false, true>(); }
template <class S, int R> void more_() { read<S, R, true, false>(); }
extern "C" {
#define ER(n, r) void E_##n##_s() { pair_<seconds, r>(); } void E_##n##_ms() { pair_<milliseconds, r>(); } void E_##n##_us() { pair_<microseconds, r>(); } \
  void E_##n##_more_s() { more_<seconds, r>(); } void E_##n##_more_ms() { more_<milliseconds, r>(); } void E_##n##_more_us() { more_<microseconds, r>(); }
ER(ymd, 0) ER(ydoy, 1) ER(ymdhms, 2) ER(yodhms, 3) ER(ydoyhms, 4)
}
