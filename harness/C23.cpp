// C23: elementary arithmetic acts on the value and nothing else.
#include "vh.hpp"
using namespace ngpt;
#define V(x) (long)(x).as_underlying_type()
template <class T> struct lim { using U = typename T::underlying_type; static constexpr bool l = sizeof(U) == 8; static constexpr long M = l ? 4611686018427387903L : 1073741823L, LO = l ? -9223372036854775807L - 1 : -2147483648L, HI = l ? 9223372036854775807L : 2147483647L; };
template <class T> static inline T mk(long x) { return T{(typename T::underlying_type)x}; }
template <class T> void arith() {
  long x = V_in("x", -lim<T>::M, lim<T>::M), y = V_in("y", -lim<T>::M, lim<T>::M);
  { T a = mk<T>(x), b = mk<T>(y); T &r = (a += b); V_check(V(a) == x + y, "+= adds the values"); V_check(&r == &a, "+= returns the object"); V_check(V(b) == y, "+= leaves its operand"); }
  { T a = mk<T>(x), b = mk<T>(y); T &r = (a -= b); V_check(V(a) == x - y, "-= subtracts the values"); V_check(&r == &a, "-= returns the object"); V_check(V(b) == y, "-= leaves its operand"); }
}
template <class T, class I> void arith_int() {
  constexpr long M = sizeof(I) == 8 ? lim<T>::M : sizeof(I) == 4 ? 1073741823L : sizeof(I) == 2 ? 32767 : 127;
  long x = V_in("x", -lim<T>::M, lim<T>::M), y = V_in("y", -M, M);
  if (!lim<T>::l) V_assume(y <= 1073741823L && y >= -1073741823L);
  { T a = mk<T>(x); T &r = (a += (I)y); V_check(V(a) == x + y, "+= integer adds it"); V_check(&r == &a, "+= returns the object"); }
  { T a = mk<T>(x); T &r = (a -= (I)y); V_check(V(a) == x - y, "-= integer subtracts it"); V_check(&r == &a, "-= returns the object"); }
}
template <class T> void step() {
  long x = V_in("x", lim<T>::LO, lim<T>::HI - 1), y = V_in("y", lim<T>::LO + 1, lim<T>::HI);
  { T a = mk<T>(x); T &r = ++a; V_check(V(a) == x + 1 && &r == &a, "prefix ++ adds one and returns the object"); }
  { T a = mk<T>(x); T r = a++; V_check(V(a) == x + 1 && V(r) == x, "postfix ++ adds one and returns the old value"); }
  { T a = mk<T>(y); T &r = --a; V_check(V(a) == y - 1 && &r == &a, "prefix -- subtracts one and returns the object"); }
  { T a = mk<T>(y); T r = a--; V_check(V(a) == y - 1 && V(r) == y, "postfix -- subtracts one and returns the old value"); }
}
template <class T> void value() {
  long x = V_in("x", lim<T>::LO, lim<T>::HI);
  T a = mk<T>(x); V_check(V(a) == x && (long)a.__member_const_ref__() == x, "the accessor gives the value constructed");
  T b = a; V_check(V(b) == x, "a copy has the value"); T c = mk<T>(0); c = a; V_check(V(c) == x, "assignment copies the value");
  long r = V_in("r", lim<T>::LO, lim<T>::HI); a.__member_ref__() = (typename T::underlying_type)r; V_check(V(a) == r && V(b) == x, "the reference reaches this object's value only");
}
template <class T, class I> void assign() {
  constexpr long LO = sizeof(I) == 8 ? lim<T>::LO : sizeof(I) == 4 ? -2147483648L : sizeof(I) == 2 ? -32768 : -128, HI = -(LO + 1);
  long x = V_in("x", LO, HI); T a = mk<T>(7); T &r = (a = (I)x); V_check(V(a) == x && &r == &a, "assignment from an integer sets the value");
}
template <class T> void plus_minus() {
  long x = V_in("x", -lim<T>::M, lim<T>::M), y = V_in("y", -lim<T>::M, lim<T>::M); T a = mk<T>(x), b = mk<T>(y);
  T c = a + b, d = a - b; V_check(V(c) == x + y, "+ adds the values"); V_check(V(d) == x - y, "- subtracts the values"); V_check(V(a) == x && V(b) == y, "and leave their operands");
}
#define LIT(T, suffix) extern "C" void E_lit##suffix() { long x = V_in("x", 0, lim<T>::HI); T a = operator"" suffix((unsigned long long)x); V_check(V(a) == x, "the literal has the value written"); }
LIT(year, _Y) LIT(month, _M) LIT(day_of_month, _D) LIT(hours, _h) LIT(minutes, _m) LIT(seconds, _sec) LIT(milliseconds, _millisec) LIT(microseconds, _microsec)
extern "C" void E_defaults() {
  V_check(V(year{}) == 1900 && V(month{}) == 1 && V(gps_week{}) == 1 && V(day_of_month{}) == 1 && V(day_of_year{}) == 0 && V(modified_julian_day{}) == 1, "default dates as documented");
  V_check(V(hours{}) == 0 && V(minutes{}) == 0 && V(seconds{}) == 0 && V(milliseconds{}) == 0 && V(microseconds{}) == 0, "default times as documented");
}
#define EL(T) extern "C" { void E_arith_##T() { arith<T>(); } void E_arith_int_##T() { arith_int<T, int>(); } void E_arith_long_##T() { arith_int<T, long>(); } void E_arith_short_##T() { arith_int<T, short>(); } \
  void E_step_##T() { step<T>(); } void E_value_##T() { value<T>(); } void E_assign_int_##T() { assign<T, int>(); } void E_assign_short_##T() { assign<T, short>(); } void E_assign_char_##T() { assign<T, signed char>(); } }
EL(year) EL(gps_week) EL(day_of_month) EL(day_of_year) EL(modified_julian_day) EL(hours) EL(minutes) EL(seconds) EL(milliseconds) EL(microseconds)
extern "C" { void E_arith_month() { arith<month>(); } void E_arith_int_month() { arith_int<month, int>(); } void E_arith_long_month() { arith_int<month, long>(); } void E_step_month() { step<month>(); } void E_value_month() { value<month>(); } }
#define PM(T) extern "C" { void E_plus_minus_##T() { plus_minus<T>(); } void E_assign_long_##T() { assign<T, long>(); } }
PM(seconds) PM(milliseconds) PM(microseconds) PM(modified_julian_day)
