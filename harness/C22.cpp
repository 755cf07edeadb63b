// C22: month names.
#include "vh.hpp"
#include <cctype>
using namespace ngpt;
namespace {
const char *const names[12] = {"january", "february", "march", "april", "may", "june", "july", "august", "september", "october", "november", "december"};
// does the text spell the first n letters of the name, in any case, and end there?
bool spells(const char *t, const char *name, int n) {
  for (int i = 0; i < n; ++i) if (std::tolower(static_cast<unsigned char>(t[i])) != name[i]) return false;
  return t[n] == 0;
}
constexpr int len(const char *s) { int n = 0; while (s[n]) ++n; return n; }
int number(const char *t) {
  for (int k = 0; k < 12; ++k) if (spells(t, names[k], 3) || spells(t, names[k], len(names[k]))) return k + 1;
  return 0;
}
}
// any text at all: it is accepted exactly when it is a name, with the number of that name
extern "C" {
void E_read() {
  const char *t = V_text("text", 1000000); int want = number(t), got = 0;
  try { month m(t); got = m.as_underlying_type(); V_reach("accepted"); }
  catch (std::exception &) { V_reach("rejected"); }
  if (want) { V_check(got != 0, "a month name in any mix of upper and lower case is accepted"); V_check(got == want, "a month name gives the number of its month"); }
  else V_check(got == 0, "a text that is not a month name is rejected with a standard exception");
}
// names and numbers convert back and forth
void E_names() {
  int k = (int)V_in("month", 1, 12); month m(k);
  const char *s = m.short_name(), *l = m.long_name(); const char *want = names[k - 1];
  int n = len(want);
  for (int i = 0; i < 3; ++i) V_check(std::tolower(static_cast<unsigned char>(s[i])) == want[i], "the short name is the first three letters of the English name");
  V_check(s[3] == 0, "the short name has three letters");
  for (int i = 0; i < n; ++i) V_check(std::tolower(static_cast<unsigned char>(l[i])) == want[i], "the long name is the English name");
  V_check(l[n] == 0, "the long name ends where the English name ends");
  V_check(month(s) == m, "the short name reads back as the month"); V_check(month(l) == m, "the long name reads back as the month");
}
}
