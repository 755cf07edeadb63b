// C09: changing time resolution is exact scaling.
#include "vh.hpp"
using namespace ngpt;
using ref::DAY; using ref::PS;
template <class S> static inline long val(S s) { return s.as_underlying_type(); }
static inline bool within(long rest, long unit, long whole) { return whole >= 0 ? rest >= 0 && rest < unit : rest <= 0 && rest > -unit; }
template <class A, class B> void E_cast() { // A -> B
  if constexpr (PS<B> >= PS<A>) {
    constexpr long r = PS<B> / PS<A>; A a{V_in("count", -ref::DAYS * DAY<A>, ref::DAYS * DAY<A>)};
    B b = cast_to<A, B>(a);
    V_check(val(b) == val(a) * r, "casting to a finer resolution multiplies by the ratio of the units");
    V_check(val(cast_to<B, A>(b)) == val(a), "finer and back is the identity");
  } else {
    constexpr long r = PS<A> / PS<B>; A a{V_in("count", -9223372036854775807L, 9223372036854775807L)};
    B b = cast_to<A, B>(a);
    V_check(within(val(a) - val(b) * r, r, val(a)), "casting to a coarser resolution drops only the part below one unit");
    V_check(val(static_cast<B>(a)) == val(b), "the explicit conversion agrees with cast_to");
  }
}
template <class S> void E_units() {
  V_check(S::max_in_day == DAY<S>, "units per day");
  V_check(S::template sec_factor<long>() == PS<S>, "units per second (long)");
  V_check(S::template sec_factor<int>() == PS<S>, "units per second (int)");
  V_check(S::template sec_factor<double>() == (double)PS<S>, "units per second (double)");
  V_check(S::max_in_day == 86400L * S::template sec_factor<long>(), "units per day and per second are consistent");
}
void E_chain() {
  microseconds u{V_in("count", -9223372036854775807L, 9223372036854775807L)};
  V_check(val(static_cast<seconds>(static_cast<milliseconds>(u))) == val(static_cast<seconds>(u)), "microseconds to seconds via milliseconds is the direct conversion");
  V_check(val(cast_to<milliseconds, seconds>(cast_to<microseconds, milliseconds>(u))) == val(cast_to<microseconds, seconds>(u)), "cast_to composes");
}
template <class A, class B> void E_datetime() {
  auto a = ref::any_dt<A>(); datetime<B> b = a.template cast_to<B>();
  V_check(b.mjd().as_underlying_type() == a.mjd().as_underlying_type(), "casting a datetime keeps the day");
  if constexpr (PS<B> >= PS<A>) {
    V_check(val(b.sec()) == val(a.sec()) * (PS<B> / PS<A>), "casting a datetime to a finer resolution scales the time of day");
    auto c = b.template cast_to<A>(); V_check(c.mjd().as_underlying_type() == a.mjd().as_underlying_type() && val(c.sec()) == val(a.sec()), "finer and back is the identity on datetimes");
  } else { long e = val(a.sec()) - val(b.sec()) * (PS<A> / PS<B>); V_check(e >= 0 && e < PS<A> / PS<B>, "casting a datetime to a coarser resolution drops only the part below one unit"); }
}
extern "C" { void E_chain_() { E_chain(); } FOR_ST(E_cast) FOR_S(E_units) FOR_ST(E_datetime) }
