// C15: the readers touch nothing outside the text they are given.
#include "vh.hpp"
using namespace ngpt;
// every text of up to a million characters; the classes OOB and CTYPE are armed inside the readers
template <class S, int R> static inline datetime<S> rd(const char *t, char **e) {
  if constexpr (R == 0) return strptime_ymd<S>(t, e);
  else if constexpr (R == 1) return strptime_ydoy<S>(t, e);
  else if constexpr (R == 2) return strptime_ymd_hms<S>(t, e);
  else if constexpr (R == 3) return strptime_yod_hms<S>(t, e);
  else return strptime_ydoy_hms<S>(t, e);
}
template <class S, int R> void stop() {
  const char *t = V_text("text", 1000000); long n = V_textlen(t); char *e = nullptr;
  try { (void)rd<S, R>(t, &e); } catch (...) { return; }
  V_reach("read"); V_check(e >= t && e <= t + n, "the stop position lies within the text");
}
template <class S, int R> void nostop() { const char *t = V_text("text", 1000000); try { (void)rd<S, R>(t, nullptr); V_reach("read"); } catch (...) { V_reach("rejected"); } }
template <class S> void ymd() { stop<S, 0>(); } template <class S> void ymd0() { nostop<S, 0>(); }
template <class S> void ydoy() { stop<S, 1>(); } template <class S> void ydoy0() { nostop<S, 1>(); }
template <class S> void ymdhms() { stop<S, 2>(); } template <class S> void ymdhms0() { nostop<S, 2>(); }
template <class S> void yodhms() { stop<S, 3>(); } template <class S> void yodhms0() { nostop<S, 3>(); }
template <class S> void ydoyhms() { stop<S, 4>(); } template <class S> void ydoyhms0() { nostop<S, 4>(); }
extern "C" {
#define EL(n) void E_##n##_s() { n<seconds>(); } void E_##n##_ms() { n<milliseconds>(); } void E_##n##_us() { n<microseconds>(); }
EL(ymd) EL(ymd0) EL(ydoy) EL(ydoy0) EL(ymdhms) EL(ymdhms0) EL(yodhms) EL(yodhms0) EL(ydoyhms) EL(ydoyhms0)
// the name of a month is read up to its terminator
void E_month() { const char *t = V_text("text", 1000000); try { month m(t); V_reach("month"); } catch (...) { V_reach("rejected"); } }
}
