// C08: differences between datetimes are exact and undo addition.
#include "vh.hpp"
using namespace ngpt;
using ref::DAY; using ref::PS;
// number of units of the finer of S and T in one unit of S
template <class S, class T> constexpr long RAISE = PS<T> > PS<S> ? PS<T> / PS<S> : 1;
template <class S, class T> using fine = std::conditional_t<(PS<S> > PS<T>), S, T>;
// any two datetimes at most as many days apart as the finest resolution can count
#define TWO(S, T) auto a = near<S>("mjd1", "tod1"); auto b = near<T>("mjd2", "tod2")
template <class S> static inline datetime<S> near(const char *n, const char *m) { return datetime<S>(modified_julian_day{V_in(n, -ref::DAYS / 2, ref::DAYS / 2)}, ref::any_tod<S>(m)); }
#define J(x) (x).mjd().as_underlying_type()
#define Q(x) (x).sec().as_underlying_type()
template <class S> void E_member() {
  TWO(S, S); long d = a.delta_sec(b).as_underlying_type();
  V_check(d == (J(a) - J(b)) * DAY<S> + Q(a) - Q(b), "delta_sec is the exact difference of the instants");
  V_check(b.delta_sec(a).as_underlying_type() == -d, "delta_sec is antisymmetric");
}
template <class S, class T> void E_free() {
  TWO(S, T);
  fine<S, T> r = delta_sec(a, b), m = delta_sec(b, a);
  V_check(r.as_underlying_type() == (J(a) - J(b)) * DAY<fine<S, T>> + Q(a) * RAISE<S, T> - Q(b) * RAISE<T, S>, "the free delta_sec is the exact difference in the finer resolution");
  V_check(m.as_underlying_type() == -r.as_underlying_type(), "the free delta_sec is antisymmetric");
}
template <class S> void E_undo() {
  TWO(S, S);
  auto i = a.delta_date(b); auto c = b; c += i;
  V_check(J(c) == J(a) && Q(c) == Q(a), "adding the interval between two datetimes to the first gives the second");
}
template <class S> void E_undo_free() {
  TWO(S, S);
  auto i = delta_date(a, b); auto c = b.add(i.days(), i.sec());
  V_check(J(c) == J(a) && Q(c) == Q(a), "adding days and seconds of the difference gives the other datetime");
}
template <class S> void E_undo_sec() {
  TWO(S, S);
  S s = a.delta_sec(b); auto c = b; c.add_seconds(s);
  V_check(J(c) == J(a) && Q(c) == Q(a), "adding delta_sec gives the other datetime");
  auto d = a; d.remove_seconds(s);
  V_check(J(d) == J(b) && Q(d) == Q(b), "removing delta_sec gives the other datetime");
}
template <class S> void E_days() {
  auto a = ref::any_mjd("mjd1"), b = ref::any_mjd("mjd2");
  V_assume(a.as_underlying_type() - b.as_underlying_type() <= ref::DAYS && b.as_underlying_type() - a.as_underlying_type() <= ref::DAYS);
  V_check(mjd_sec_diff<S>(a, b).as_underlying_type() == (a.as_underlying_type() - b.as_underlying_type()) * DAY<S>, "mjd_sec_diff is the exact number of units between two days");
}
extern "C" { FOR_S(E_member) FOR_ST(E_free) FOR_S(E_undo) FOR_S(E_undo_free) FOR_S(E_undo_sec) FOR_S(E_days) }
