// C20: constructing a datetime from a bad date can be caught.
#include "vh.hpp"
using namespace ngpt;
static inline bool exists(const ref::Year &q, long m, long d) { return m >= 1 && m <= 12 && d >= 1 && d <= ref::month_len(q, (int)m); }
struct Any { ref::Year q; year y; long m, d; bool ok; };
static inline Any any() {
  ref::Year q = ref::any_year(-12, 5368708); long m = V_in("month", -2147483648L, 2147483647L), d = V_in("day", -2147483648L, 2147483647L);
  return Any{q, year{(int)q.y}, m, d, exists(q, m, d)};
}
#define HOW(expr) int how = 0; try { expr; } catch (const std::exception &) { how = 1; } catch (...) { how = 2; } \
  V_check(x.ok || how == 1, "a date that does not exist is answered with a standard exception that can be caught"); \
  V_check(!x.ok || how == 0, "a date that exists is constructed")
#define YMD x.y, month{(int)x.m}, day_of_month{(int)x.d}
template <class S> void E_s() { Any x = any(); S s = ref::any_tod<S>(); HOW(datetime<S>(YMD, s)); }
template <class S> void E_only() { Any x = any(); HOW(datetime<S>(YMD)); }
template <class S> void E_h() { Any x = any(); HOW(datetime<S>(YMD, hours{1})); }
template <class S> void E_hm() { Any x = any(); HOW(datetime<S>(YMD, hours{1}, minutes{2})); }
template <class S> void E_real() { Any x = any(); HOW(datetime<S>(YMD, hours{1}, minutes{2}, 3.5)); }
template <class S, class T> void E_t() { Any x = any(); T t = ref::any_tod<T>(); HOW(datetime<S>(YMD, t)); }
template <class S, class T> void E_hmt() { Any x = any(); T t = ref::any_tod<T>(); HOW(datetime<S>(YMD, hours{1}, minutes{2}, t)); }
extern "C" { FOR_S(E_s) FOR_S(E_only) FOR_S(E_h) FOR_S(E_hm) FOR_S(E_real) FOR_FINE(E_t) FOR_FINE(E_hmt)
void E_mjd() { Any x = any(); HOW(modified_julian_day(YMD)); }
void E_cal2mjd() { Any x = any(); HOW(cal2mjd(YMD)); }
}
