// PROPERTY: T06
// SRC: core/lib/RefTime/TimeSystem.cpp core/lib/TimeHandling/TimeConverters.cpp core/lib/Utilities/Exception.cpp core/lib/Utilities/StringUtils.cpp
// BOUND: every date of the years 1 to 4000, every pair of time systems except TDB
// OUTSIDE: TDB (periodic terms)
// OPT: query-timeout=40
#include "symx.h"
#include "TimeSystem.hpp"
#include "Exception.hpp"
#include <cmath>
using namespace gpstk;
// IERS Bulletin C / tai-utc.dat
static const int LEAP[][3] = {{1972,1,10},{1972,7,11},{1973,1,12},{1974,1,13},{1975,1,14},{1976,1,15},{1977,1,16},{1978,1,17},{1979,1,18},{1980,1,19},{1981,7,20},{1982,7,21},{1983,7,22},{1985,7,23},
  {1988,1,24},{1990,1,25},{1991,1,26},{1992,7,27},{1993,7,28},{1994,7,29},{1996,1,30},{1997,7,31},{1999,1,32},{2006,1,33},{2009,1,34},{2012,7,35},{2015,7,36},{2017,1,37}};
ENTRY check_leap() {
  long y = R("y", 1972, 4000), m = R("m", 1, 12); double d = F("d"); ASSUME(d >= 1 && d < 32);
  long want = 0; for (auto &l : LEAP) want = symx_ite_u64(symx_or(y > l[0], symx_and(y == l[0], m >= l[1])), l[2], want);
  ASSERT(getLeapSeconds((int)y, (int)m, d) == (double)want, "TAI-UTC since 1972 is the published number of leap seconds");
}
ENTRY check_before() {
  long y = R("y", 1, 1959), m = R("m", 1, 12), d = R("d", 1, 31); ASSERT(getLeapSeconds((int)y, (int)m, d) == 0.0, "no correction before 1960");
}
static bool known(int s) { return s == (int)TimeSystem::GPS || s == (int)TimeSystem::GAL || s == (int)TimeSystem::IRN || s == (int)TimeSystem::UTC || s == (int)TimeSystem::GLO || s == (int)TimeSystem::BDT || s == (int)TimeSystem::TAI || s == (int)TimeSystem::TT; }
// TAI minus the system
static double toTAI(int s, long leap) {
  switch ((TimeSystem)s) { case TimeSystem::GPS: case TimeSystem::GAL: case TimeSystem::IRN: return 19; case TimeSystem::BDT: return 33; case TimeSystem::UTC: case TimeSystem::GLO: return leap; case TimeSystem::TT: return -32.184; default: return 0; } }
ENTRY check_correction() {
  int n = (int)TimeSystem::Last, a = symx_concretize(R("a", 0, 20)), b = symx_concretize(R("b", 0, 20)); ASSUME(a < n && b < n);
  long y = R("y", 1972, 4000), m = R("m", 1, 12); double d = F("d"); ASSUME(d >= 1 && d < 32);
  if (a == (int)TimeSystem::TDB || b == (int)TimeSystem::TDB) symx_end();
  bool ok = a == b || (known(a) && known(b)); double c = 0; bool thrown = false;
  try { c = getTimeSystemCorrection((TimeSystem)a, (TimeSystem)b, (int)y, (int)m, d); } catch (Exception &) { thrown = true; }
  ASSERT(thrown == !ok, "conversion between time systems is refused exactly if one of them is unknown or not supported");
  if (thrown) symx_end();
  long leap = (long)getLeapSeconds((int)y, (int)m, d);
  double want = a == b ? 0 : toTAI(a, leap) - toTAI(b, leap);
  ASSERT(fabs(c - want) < 1e-9, "offset between time systems");
}
ENTRY check_names() {
  int n = (int)TimeSystem::Last, a = symx_concretize(R("a", 0, 30)); ASSUME(a < n);
  ASSERT(StringUtils::asTimeSystem(StringUtils::asString((TimeSystem)a)) == (TimeSystem)a, "time system names convert back");
}
