// C12: TAI-UTC at every date since 1972, against the dates announced by IERS.
#include "vh.hpp"
using namespace ngpt;
namespace {
struct Step { int y, m; };
// first day (January 1st or July 1st) after each leap second announced in IERS Bulletin C
const Step steps[27] = {{1972, 7}, {1973, 1}, {1974, 1}, {1975, 1}, {1976, 1}, {1977, 1}, {1978, 1}, {1979, 1}, {1980, 1},
  {1981, 7}, {1982, 7}, {1983, 7}, {1985, 7}, {1988, 1}, {1990, 1}, {1991, 1}, {1992, 7}, {1993, 7}, {1994, 7}, {1996, 1},
  {1997, 7}, {1999, 1}, {2006, 1}, {2009, 1}, {2012, 7}, {2015, 7}, {2017, 1}};
inline long first_day(const Step &s) { ref::Year q; q.k = s.y / 400; q.a = s.y % 400 / 100; q.b = s.y % 100 / 4; q.c = s.y % 4; q.y = s.y; return ref::mjd(q, s.m, 1); }
inline int by_day(long mjd) { int n = 10; for (int i = 0; i < 27; i++) { if (mjd < first_day(steps[i])) break; n = 11 + i; } return n; }
inline int by_month(long y, long m) { int n = 10; for (int i = 0; i < 27; i++) { if (12 * y + m < 12L * steps[i].y + steps[i].m) break; n = 11 + i; } return n; }
}
extern "C" {
void E_day() { long j = V_in("mjd", 41317, 9223372036854775807L); V_check(dat(modified_julian_day{j}) == by_day(j), "TAI-UTC by Modified Julian Day is the published value"); }
void E_month() { long y = V_in("year", 1972, 100000000), m = V_in("month", 1, 12); V_check(dat(year{(int)y}, month{(int)m}) == by_month(y, m), "TAI-UTC by year and month is the published value"); }
void E_agree() { // the same date through all lookups
  auto q = ref::any_date(4, 24); V_assume(q.q.k > 4 || (q.q.a == 3 && q.q.b >= 18));
  int a = dat(q.y, month{q.m}), b = dat(modified_julian_day{q.mjd});
  V_check(a == b, "the lookups by month and by day agree");
}
void E_order() { long i = V_in("earlier", 41317, 9223372036854775807L), j = V_in("later", 41317, 9223372036854775807L); V_assume(i <= j);
  int a = dat(modified_julian_day{i}), b = dat(modified_julian_day{j}); V_check(a <= b, "TAI-UTC never decreases"); }
}
template <class S> void E_datetime() { long j = V_in("mjd", 41317, ref::DAYS); datetime<S> d(modified_julian_day{j}, ref::any_tod<S>()); V_check(dat(d) == by_day(j), "TAI-UTC by datetime is the published value"); }
extern "C" { FOR_S(E_datetime) }
