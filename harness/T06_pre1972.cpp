// PROPERTY: T06
// SRC: core/lib/RefTime/TimeSystem.cpp core/lib/TimeHandling/TimeConverters.cpp core/lib/Utilities/Exception.cpp core/lib/Utilities/StringUtils.cpp
// BOUND: every day of the years 1960 to 1971
// OUTSIDE: fractions of a day before 1972
// OPT: query-timeout=40 merge=0
#include "symx.h"
#include "TimeSystem.hpp"
#include "Exception.hpp"
#include <cmath>
using namespace gpstk;
// USNO tai-utc.dat before 1972
struct Pre { int y, m, mjd; double a; int ref; double rate; };
static const Pre PRE[] = {{1960,1,36934,1.4178180,37300,0.0012960},{1961,1,37300,1.4228180,37300,0.0012960},{1961,8,37512,1.3728180,37300,0.0012960},{1962,1,37665,1.8458580,37665,0.0011232},{1963,11,38334,1.9458580,37665,0.0011232},{1964,1,38395,3.2401300,38761,0.0012960},
  {1964,4,38486,3.3401300,38761,0.0012960},{1964,9,38639,3.4401300,38761,0.0012960},{1965,1,38761,3.5401300,38761,0.0012960},{1965,3,38820,3.6401300,38761,0.0012960},{1965,7,38942,3.7401300,38761,0.0012960},{1965,9,39004,3.8401300,38761,0.0012960},
  {1966,1,39126,4.3131700,39126,0.0025920},{1968,2,39887,4.2131700,39126,0.0025920},{1972,1,41317,0,0,0}};
static void pre(int i) {
  const Pre &p = PRE[i]; static const int ml[] = {31,28,31,30,31,30,31,31,30,31,30,31};
  int k = symx_concretize(R("k", 0, 47)), y = p.y, m = p.m, j = p.mjd;            // k-th month of the piece
  for (; k > 0; k--) { j += ml[m - 1] + (m == 2 && y % 4 == 0); if (++m > 12) { m = 1; y++; } }
  if (j >= PRE[i + 1].mjd) symx_end();
  long d = R("d", 1, ml[m - 1] + (m == 2 && y % 4 == 0));
  ASSERT(fabs(getLeapSeconds(y, m, d) - (p.a + (j + d - 1 - p.ref) * p.rate)) < 1e-9, "TAI-UTC before 1972 is the published offset");
}
ENTRY check_pre1960() { pre(0); }
ENTRY check_pre1961a() { pre(1); }
ENTRY check_pre1961b() { pre(2); }
ENTRY check_pre1962() { pre(3); }
ENTRY check_pre1963() { pre(4); }
ENTRY check_pre1964a() { pre(5); }
ENTRY check_pre1964b() { pre(6); }
ENTRY check_pre1964c() { pre(7); }
ENTRY check_pre1965a() { pre(8); }
ENTRY check_pre1965b() { pre(9); }
ENTRY check_pre1965c() { pre(10); }
ENTRY check_pre1965d() { pre(11); }
ENTRY check_pre1966() { pre(12); }
ENTRY check_pre1968() { pre(13); }
