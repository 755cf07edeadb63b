// Entry points for the static analyser (never compiled to a program, never run).
#pragma once
#include "dtfund.hpp"
#include "dtcalendar.hpp"
#include "datetime_read.hpp"
#include "datetime_write.hpp"
#include <exception>
#include <stdexcept>

extern "C" {
long V_in(const char *name, long lo, long hi);
double V_real(const char *name, double lo, double hi);
void V_assume(bool);
void V_given(bool); // the same, without splitting the inputs there
void V_check(bool, const char *rule);
void V_close(double a, double b, double tol, const char *rule);
const char *V_text(const char *name, long maxlen);
long V_textlen(const char *text);
void V_out_int(const void *text, long value, int width);   // expected: the integer, zero padded to the width (0: padding is free)
void V_out_chr(const void *text, char c);                  // expected: this character
void V_out_real(const void *text, long n, long per_unit);  // expected: n / per_unit as a decimal number, exactly
void V_out_end(const void *text, const char *rule);        // the text is exactly what was expected since the last end
const char *V_out_schema(const void *text);                // the text written, to be read again
long V_schema(const char *name);
void V_seg_int(long schema, long len, long value);
void V_seg_chr(long schema, int c);
void V_seg_real(long schema, long len, double value);
const char *V_schema_text(long schema);
void V_reach(const char *name);
}

// The proleptic Gregorian calendar, written down independently of the library.
// A year is y = 400*k + 100*a + 4*b + c with 0<=a<4, 0<=b<25, 0<=c<4.
namespace ref {
struct Year { long k; int a, b, c; long y; };
inline bool leap(const Year &q) { return q.c == 0 && (q.b != 0 || q.a == 0); }
inline int month_len(const Year &q, int m) {
  if (m == 2) return leap(q) ? 29 : 28;
  return (m == 4 || m == 6 || m == 9 || m == 11) ? 30 : 31;
}
inline int year_len(const Year &q) { return leap(q) ? 366 : 365; }
// days of the year before month m
inline int before_month(const Year &q, int m) {
  const int t[13] = {0, 0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334};
  return t[m] + ((m > 2 && leap(q)) ? 1 : 0);
}
// MJD of January 1st: whole cycles, centuries, quads and years; 0000-01-01 is -678941
inline long jan1(const Year &q) {
  long d = 146097L * q.k + 36524L * q.a + 1461L * q.b + 365L * q.c - 678941L;
  if (q.a > 0) d += 1;                            // the leap day of year 0 of the cycle
  if (q.a > 0 && q.b > 0) d -= 1;                 // the century year itself is common
  if (q.c > 0 && (q.b != 0 || q.a == 0)) d += 1;  // the leap day of this quad
  return d;
}
inline long mjd(const Year &q, int m, int d) { return jan1(q) + before_month(q, m) + d - 1; }
// any year of the 400-year cycles klo..khi (default: from -4799 to the largest representable cycle)
inline Year any_year(long klo = -12, long khi = 5368708) {
  Year q; q.k = V_in("k", klo, khi); q.a = (int)V_in("a", 0, 3); q.b = (int)V_in("b", 0, 24); q.c = (int)V_in("c", 0, 3);
  if (klo == -12 && q.k == -12) V_assume(q.a + q.b + q.c > 0); // -4800 is outside the documented range
  q.y = 400 * q.k + 100 * q.a + 4 * q.b + q.c;
  return q;
}
struct Date { Year q; int m, d; ngpt::year y; long mjd; };
inline Date any_date(long klo = -12, long khi = 5368708) {
  Year q = any_year(klo, khi);
  int m = (int)V_in("month", 1, 12), d = (int)V_in("day", 1, 31);
  V_assume(d <= month_len(q, m));
  return Date{q, m, d, ngpt::year{(int)q.y}, mjd(q, m, d)};
}
struct YDate { Year q; int doy; ngpt::year y; long mjd; };
inline YDate any_ydate(long klo = -12, long khi = 5368708) {
  Year q = any_year(klo, khi);
  int n = (int)V_in("doy", 1, 366);
  V_assume(n <= year_len(q));
  return YDate{q, n, ngpt::year{(int)q.y}, jan1(q) + n - 1};
}
} // namespace ref

// Second types, with their scale written down independently of the library.
namespace ref {
template <class S> struct unit;
template <> struct unit<ngpt::seconds> { static constexpr long per_sec = 1; };
template <> struct unit<ngpt::milliseconds> { static constexpr long per_sec = 1000; };
template <> struct unit<ngpt::microseconds> { static constexpr long per_sec = 1000000; };
template <class S> constexpr long PS = unit<S>::per_sec;
template <class S> constexpr long DAY = 86400L * unit<S>::per_sec;
template <class S, class T> constexpr bool finer = unit<S>::per_sec > unit<T>::per_sec; // S finer than T
constexpr long DAYS = 100000000L; // day numbers and amounts of up to 1e8 days (273 000 years), both signs
template <class S> inline S any_amount(const char *n = "amount") { return S{V_in(n, -DAYS * DAY<S>, DAYS * DAY<S>)}; }
template <class S> inline S any_tod(const char *n = "tod") { return S{V_in(n, 0, DAY<S> - 1)}; }
inline ngpt::modified_julian_day any_mjd(const char *n = "mjd") { return ngpt::modified_julian_day{V_in(n, -DAYS, DAYS)}; }
template <class S> inline ngpt::datetime<S> any_dt(const char *n = "mjd", const char *m = "tod") { return ngpt::datetime<S>(any_mjd(n), any_tod<S>(m)); }
}
#define FOR_S(name) void name##_s() { name<seconds>(); } void name##_ms() { name<milliseconds>(); } void name##_us() { name<microseconds>(); }
// every pair (resolution of the datetime, resolution of the operand)
#define FOR_ST(name) \
  void name##_s_s() { name<seconds, seconds>(); } void name##_s_ms() { name<seconds, milliseconds>(); } void name##_s_us() { name<seconds, microseconds>(); } \
  void name##_ms_s() { name<milliseconds, seconds>(); } void name##_ms_ms() { name<milliseconds, milliseconds>(); } void name##_ms_us() { name<milliseconds, microseconds>(); } \
  void name##_us_s() { name<microseconds, seconds>(); } void name##_us_ms() { name<microseconds, milliseconds>(); } void name##_us_us() { name<microseconds, microseconds>(); }
// pairs where the operand is as fine or finer
#define FOR_FINE(name) \
  void name##_s_s() { name<seconds, seconds>(); } void name##_s_ms() { name<seconds, milliseconds>(); } void name##_s_us() { name<seconds, microseconds>(); } \
  void name##_ms_ms() { name<milliseconds, milliseconds>(); } void name##_ms_us() { name<milliseconds, microseconds>(); } void name##_us_us() { name<microseconds, microseconds>(); }
