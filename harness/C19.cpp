// C19: every part of the library, instantiated so that its effects can be read off.
#include "vh.hpp"
#include "gnsstm.hpp"
using namespace ngpt;
template class ngpt::datetime<seconds>;
template class ngpt::datetime<milliseconds>;
template class ngpt::datetime<microseconds>;
template class ngpt::datetime_interval<seconds>;
template class ngpt::datetime_interval<milliseconds>;
template class ngpt::datetime_interval<microseconds>;
template <class S> std::string write(const datetime<S> &t, char c) { return strftime_ymd_hms<S>(t, c) + strftime_ymd_hmfs<S>(t, c) + t.stringify(); }
extern "C" {
std::string E_write_s(const datetime<seconds> &t, char c) { return write(t, c); }
std::string E_write_ms(const datetime<milliseconds> &t, char c) { return write(t, c); }
std::string E_write_us(const datetime<microseconds> &t, char c) { return write(t, c); }
}
