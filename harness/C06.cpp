// C06: the time part is a time of day after every constructor and operation.
#define RESULT(d, base, total, u) V_check((d).sec().as_underlying_type() >= 0 && (d).sec().as_underlying_type() < DAY<S>, "0 <= time part < one day")
#define RESULTI(d, base, total) RESULT(d, base, total, 1)
#define RESULTI0(d) RESULT(d, 0, 0, 1)
#define AS_I(d) V_check((d).sec_as_i() == (d).sec().as_underlying_type(), "sec_as_i is the number of the time part")
#include "ops.hpp"

// the bare number is the same time of day
template <class S> void E_sec_as_i() { auto d = ref::any_dt<S>(); AS_I(d); long n = V_in("add", 0, 1000 * DAY<S>); d.add_seconds(S{n}); AS_I(d); V_check(d.sec_as_i() >= 0 && d.sec_as_i() < DAY<S>, "0 <= time part < one day"); }
extern "C" { FOR_S(E_sec_as_i) }
