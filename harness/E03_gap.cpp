// PROPERTY: E03
// SRC: core/lib/TimeHandling/CommonTime.cpp core/lib/RefTime/TimeSystem.cpp core/lib/Utilities/Exception.cpp core/lib/Utilities/StringUtils.cpp core/lib/GNSSCore/SatelliteSystem.cpp 
// BOUND: tables of 4 and 5 records at any increasing whole days of a thousand, any requested day, any gap and interval limits in whole days
// OUTSIDE: longer tables and histories; the rounding of interpolated values
// ASSUMES: none
// OPT: fpmode=2 merge=0 query-timeout=40 max-paths=200000
#include "symx.h"
#include <sstream>
#include <map>
#include <list>
#include <set>
#include <vector>
#include <iomanip>
#define protected public
#define private public
#include "CommonTime.hpp"
#include "TabularSatStore.hpp"
#undef protected
#undef private
namespace gpstk { std::string printTime(const CommonTime &, const std::string &) { return ""; } }   // text of error messages only
using namespace gpstk;
static const int64_t DAY = 1000; static const int D0 = 2458850;
static CommonTime at(int64_t d) { CommonTime t(TimeSystem::GPS); t.m_day = D0 + d; t.m_msod = 0; t.m_fsod = 0; return t; }
static int64_t val(const CommonTime &t) { return ((int64_t)t.m_day - D0) * DAY + t.m_msod; }
static SatID sid(int s) { return SatID(s, SatelliteSystem::GPS); }
struct Tab : TabularSatStore<int> { int getValue(const SatID &, const CommonTime &) const { return 0; } };
typedef TabularSatStore<int>::DataTable::const_iterator It;
static void fill(Tab &s, int64_t *t, int n, int sat = 1, int64_t unit = 1) { int64_t lo = 0; for (int i = 0; i < n; i++) { t[i] = unit * R("t", lo, DAY / unit - 1); if (i) ASSUME(t[i] > t[i - 1]); s.tables[sid(sat)][at(t[i])] = i; } }
// position of a requested time in the table: records strictly before, and whether one matches
static int before(int64_t *t, int n, int64_t x, bool &match) { int b = 0; match = false; for (int i = 0; i < n; i++) { if (symx_concretize(t[i] < x)) b++; else { match = symx_concretize(t[i] == x); break; } } return b; }
// gaps and long intervals are refused when asked for
template <int N> static void gap(int nh, bool exact) {
  Tab s; int64_t t[N]; fill(s, t, N); int64_t x = R("x", 0, DAY - 1); bool m; int b = before(t, N, x, m), g = R("g", 1, 1000), l = R("l", 1, 1000); s.setGapInterval(86400.0 * g); s.setMaxInterval(86400.0 * l); It a, z; bool thrown = false;
  ASSERT(s.isDataGapCheck() && s.isIntervalCheck() && s.getGapInterval() == 86400.0 * g && s.getMaxInterval() == 86400.0 * l, "the limits are set");
  if (b < nh || N - b < nh || m) return; try { s.getTableInterval(sid(1), at(x), nh, a, z, exact); } catch (InvalidRequest &) { thrown = true; }
  ASSERT(thrown == (symx_or(t[b] - t[b - 1] > g, t[b + nh - 1] - t[b - nh] > l)), "a time in a gap and a window too long are refused, others are not");
}
ENTRY check_gap1() { gap<4>(1, true); }
ENTRY check_gap2() { gap<5>(2, true); }
ENTRY check_gapoff() { Tab s; int64_t t[4]; fill(s, t, 4); int64_t x = R("x", 0, DAY - 1); bool m; int b = before(t, 4, x, m); s.setGapInterval(1); s.setMaxInterval(1); s.disableDataGapCheck(); s.disableIntervalCheck(); It a, z; if (b != 2 || m) return; NOTHROW(s.getTableInterval(sid(1), at(x), 2, a, z), "limits that are off refuse nothing"); }
ENTRY check_gapany() {   // off-center windows: the gap around the time, or before the table, and the length of the window
  const int N = 5; Tab s; int64_t t[N]; fill(s, t, N); int64_t x = R("x", 0, DAY - 1); bool m; int b = before(t, N, x, m), g = R("g", 1, 1000), l = R("l", 1, 1000), nh = 2; s.setGapInterval(86400.0 * g); s.setMaxInterval(86400.0 * l); It a, z; bool thrown = false; if (b == N) return;
  try { s.getNonCenteredTableInterval(sid(1), at(x), nh, a, z, false); } catch (InvalidRequest &) { thrown = true; } int w = b - nh; if (w < 0) w = 0; if (w > N - 2 * nh) w = N - 2 * nh; bool wide = t[w + 2 * nh - 1] - t[w] > l;
  if (m) ASSERT(thrown == wide, "a window too long is refused, others are not"); else ASSERT(thrown == symx_or(wide, b ? t[b] - t[b - 1] > g : t[0] - x > g), "a time in a gap and a window too long are refused, others are not");
}
