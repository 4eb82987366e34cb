// PROPERTY: T04
// SRC: core/lib/TimeHandling/TimeRange.cpp core/lib/TimeHandling/CommonTime.cpp core/lib/RefTime/TimeSystem.cpp core/lib/Utilities/Exception.cpp core/lib/Utilities/StringUtils.cpp
// BOUND: all ranges and instants on the millisecond grid of the whole time line, all four boundary combinations, one-instant ranges included
// OUTSIDE: instants closer together than the comparison tolerance; text forms
// OPT: fpmode=2 query-timeout=40
#include "symx.h"
#define protected public
#include "CommonTime.hpp"
#include "TimeRange.hpp"
#include "TimeString.hpp"
#undef protected
namespace gpstk { std::string printTime(const CommonTime &, const std::string &) { return ""; } void mixedScanTime(TimeTag &, const std::string &, const std::string &) {} }   // text of error messages only
using namespace gpstk;
static const long DAYMS = 86400000;
static std::string nm(const char *n, char c) { return std::string(n) + c; }
static CommonTime mk(const char *n) {
  CommonTime t(TimeSystem::GPS); t.m_day = R(nm(n, 'd').c_str(), 0, 3442448); t.m_msod = R(nm(n, 'm').c_str(), 0, DAYMS - 1); t.m_fsod = 0; return t; }
static long v(const CommonTime &t) { return t.m_day * DAYMS + t.m_msod; }
struct Rg { TimeRange r; long a, b; bool ia, ib; };
// a range with at least one instant
static Rg rg(const char *n) {
  CommonTime s = mk(nm(n, 's').c_str()), e = mk(nm(n, 'e').c_str()); Rg g; g.a = v(s); g.b = v(e);
  g.ia = U(nm(n, 'i').c_str(), 1); g.ib = U(nm(n, 'j').c_str(), 1);
  ASSUME(symx_or(g.a < g.b, symx_and(g.a == g.b, symx_and(g.ia, g.ib))));
  g.r.start = s; g.r.end = e; g.r.includeStartTime = g.ia; g.r.includeEndTime = g.ib; return g; }
static bool bef(const Rg &x, const Rg &y) { return symx_or(x.b < y.a, symx_and(x.b == y.a, !symx_and(x.ib, y.ia))); }
static bool in(const Rg &g, long t) { return symx_and(symx_or(t > g.a, symx_and(t == g.a, g.ia)), symx_or(t < g.b, symx_and(t == g.b, g.ib))); }

ENTRY check_construct() {
  CommonTime s = mk("s"), e = mk("e"); bool i = U("i", 1), j = U("j", 1); int how = symx_concretize(R("how", 0, 2)); bool thrown = false; TimeRange t; CommonTime o1 = t.start, o2 = t.end;
  TimeRange::DTPair p(s, e);
  try { if (how == 0) t = TimeRange(s, e, i, j); else if (how == 1) t.set(s, e, i, j); else t = TimeRange(p, i, j); } catch (TimeRange::TimeRangeException &) { thrown = true; }
  ASSERT(thrown == (v(e) < v(s)), "exactly the ranges that end before they start are refused");
  if (thrown) { ASSERT(t.start == o1 && t.end == o2, "a refused range leaves the object unchanged"); symx_end(); }
  TimeRange c(t);
  ASSERT(v(c.getStart()) == v(s) && v(c.getEnd()) == v(e) && c.includeStartTime == i && c.includeEndTime == j, "a range keeps its bounds");
}
ENTRY check_inrange() { Rg g = rg("g"); CommonTime t = mk("t"); ASSERT(g.r.inRange(t) == in(g, v(t)), "an instant is in a range exactly if it lies between the bounds, bounds included as declared"); }
ENTRY check_prior() { Rg x = rg("x"), y = rg("y"); ASSERT(x.r.isPriorTo(y.r) == bef(x, y), "a range is prior to another exactly if all its instants are"); }
ENTRY check_after() { Rg x = rg("x"), y = rg("y"); ASSERT(x.r.isAfter(y.r) == bef(y, x), "a range is after another exactly if all its instants are"); }
ENTRY check_overlaps() { Rg x = rg("x"), y = rg("y"); ASSERT(x.r.overlaps(y.r) == !symx_or(bef(x, y), bef(y, x)), "ranges overlap exactly if they share an instant"); }
ENTRY check_subset() { Rg x = rg("x"), y = rg("y"); ASSERT(x.r.isSubsetOf(y.r) == symx_and(x.a >= y.a, x.b <= y.b), "a range is within another exactly if its bounds are"); }
ENTRY check_equal() { Rg x = rg("x"), y = rg("y"); ASSERT((x.r == y.r) == symx_and(symx_and(x.a == y.a, x.b == y.b), symx_and(x.ia == y.ia, x.ib == y.ib)), "ranges are equal exactly if bounds and inclusion agree"); }
// ranges are ordered by their first instant: an exclusive start comes after an inclusive start at the same time
ENTRY check_less() { Rg x = rg("x"), y = rg("y"); ASSERT((x.r < y.r) == symx_or(x.a < y.a, symx_and(x.a == y.a, symx_and(x.ia, !y.ia))), "ranges are ordered by their beginning"); }
ENTRY check_order() {
  Rg x = rg("x"), y = rg("y"), z = rg("z"); bool xy = x.r < y.r, yx = y.r < x.r, yz = y.r < z.r, xz = x.r < z.r, zy = z.r < y.r, zx = z.r < x.r;
  ASSERT(!symx_and(xy, yx), "the order of ranges is asymmetric");
  ASSERT(symx_or(!symx_and(xy, yz), xz), "the order of ranges is transitive");
  ASSERT(symx_or(symx_or(xy, yx), symx_or(symx_or(yz, zy), !symx_or(xz, zx))), "ranges that are not ordered form classes");
}
