// C21: every way to make or change a datetime, over the documented range, with no other obligation than the
// absence of undefined behaviour in library code.
#define RESULT(d, base, total, u) do { } while (0)
#define RESULTI(d, base, total) do { } while (0)
#define RESULTI0(d) do { } while (0)
#include "ops.hpp"
