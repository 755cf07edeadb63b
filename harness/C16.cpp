// C16: bad text is answered with an exception, never a crash or a made-up date.
#include "vh.hpp"
#include <cerrno>
#include <climits>
#include <cfloat>
#include <cmath>
#include <cstdlib>
#include <cctype>
#include <cstring>
using namespace ngpt;
namespace {
// what the documentation asks of a text, written down independently: integer fields in decimal, each
// followed by one separating character (or the end)
struct Fields { bool ok; long v[6]; double s; };
bool field(const char *&p, long &v) {
  char *e; errno = 0; v = std::strtol(p, &e, 10);
  if (e == p) return false;             // missing or not numeric
  if (errno == ERANGE) return false;    // out of range
  if (v > INT_MAX || v < INT_MIN) return false;
  v = std::abs(v);                      // a minus sign is a separator
  p = *e ? e + 1 : e; return true;
}
bool real(const char *p, double &v) {
  char *e; errno = 0; v = std::strtod(p, &e);
  return e != p && errno != ERANGE && std::abs(v) <= DBL_MAX; // present and finite
}
bool leap(long y) { return y % 4 == 0 && (y % 100 != 0 || y % 400 == 0); }
bool date_exists(long y, long m, long d) {
  if (m < 1 || m > 12 || d < 1) return false;
  if (m == 2) return d <= (leap(y) ? 29 : 28);
  return d <= ((m == 4 || m == 6 || m == 9 || m == 11) ? 30 : 31);
}
bool day_exists(long y, long n) { return n >= 1 && n <= (leap(y) ? 366 : 365); }
bool ymd(const char *t, bool hms) {
  long y, m, d, h, n; double s;
  if (!field(t, y) || !field(t, m) || !field(t, d)) return false;
  if (hms && (!field(t, h) || !field(t, n) || !real(t, s))) return false;
  return date_exists(y, m, d);
}
long named(const char *t) { // the month its first three letters name (C22 decides which those are)
  char b[4]; std::strncpy(b, t, 3); b[3] = 0;
  try { return month(b).as_underlying_type(); } catch (std::exception &) { return 0; }
}
bool yod(const char *t) {
  long y, m, d, h, n; double s;
  if (!field(t, y)) return false;
  if (*t && !std::isalpha(static_cast<unsigned char>(*t))) ++t; // one more separator
  m = named(t); if (!m) return false;
  t += t[3] ? 4 : 3;
  if (!field(t, d) || !field(t, h) || !field(t, n) || !real(t, s)) return false;
  return date_exists(y, m, d);
}
bool ydoy(const char *t, bool hms) {
  long y, d, h, n; double s;
  if (!field(t, y) || !field(t, d)) return false;
  if (hms && (!field(t, h) || !field(t, n) || !real(t, s))) return false;
  return day_exists(y, d);
}
}
namespace {
// every number has exactly one representation 400k+100a+4b+c: name the one of the first field (loses no text)
template <int PART> void name_year(const char *t) { // PART: -1 any year, 0 from 0 on, 1 below, 2 what does not belong to a whole cycle
  long v = std::strtol(t, nullptr, 10);
  bool far = v >= 2147483600 || v <= -2147483600;
  if constexpr (PART == 0) V_assume(!far && v >= 0);
  if constexpr (PART == 1) V_assume(!far && v < 0);
  if constexpr (PART == 2) V_assume(far);
  errno = (int)V_in("errno", 0, 133); // whatever the program did before
  if (v > INT_MAX || v < INT_MIN) return;
  if (far) { // the last, incomplete cycle
    long r = V_in("last", 0, 48);
    if (v < 0) V_assume(v == -2147483600 - r); else V_assume(v == 2147483600 + r);
    return;
  }
  ref::Year q = ref::any_year(0, 5368708);
  if (v < 0) V_assume(v == -q.y); else V_assume(v == q.y);
}
}
template <class S, int R> static inline datetime<S> rd(const char *t, char **e) {
  if constexpr (R == 0) return strptime_ymd<S>(t, e);
  else if constexpr (R == 1) return strptime_ydoy<S>(t, e);
  else if constexpr (R == 2) return strptime_ymd_hms<S>(t, e);
  else if constexpr (R == 3) return strptime_yod_hms<S>(t, e);
  else return strptime_ydoy_hms<S>(t, e);
}
template <class S, int R, int PART = -1> void read() {
  const char *t = V_text("text", 1000000); char *e; bool got = false;
  name_year<PART>(t);
  try { (void)rd<S, R>(t, &e); got = true; }
  catch (std::exception &) { V_reach("rejected"); return; }
  catch (...) { V_check(false, "only exceptions derived from std::exception are thrown"); return; }
  V_reach("read");
  if constexpr (R == 0 || R == 2) V_check(ymd(t, R == 2), "a date is only made of text whose fields are present, numeric, in range and name an existing date");
  else if constexpr (R == 1 || R == 4) V_check(ydoy(t, R == 4), "a date is only made of text whose fields are present, numeric, in range and name an existing day of year");
  else V_check(yod(t), "a date is only made of text whose fields are present, numeric (or the name of a month), in range and name an existing date");
}
template <class S> void r_ymd() { read<S, 0>(); } template <class S> void r_ydoy() { read<S, 1>(); }
template <class S> void r_ymdhms() { read<S, 2>(); } template <class S> void r_yodhms_early() { read<S, 3, 1>(); } template <class S> void r_yodhms() { read<S, 3, 0>(); } template <class S> void r_yodhms_far() { read<S, 3, 2>(); } template <class S> void r_ydoyhms() { read<S, 4>(); }
extern "C" {
#define EL(n) void E_##n##_s() { r_##n<seconds>(); } void E_##n##_ms() { r_##n<milliseconds>(); } void E_##n##_us() { r_##n<microseconds>(); }
EL(ymd) EL(ydoy) EL(ymdhms) EL(ydoyhms) EL(yodhms) EL(yodhms_early) EL(yodhms_far)
}
