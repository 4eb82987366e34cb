// PROPERTY: T05
// SRC: core/lib/TimeHandling/GPSZcount.cpp core/lib/TimeHandling/GPSWeekZcount.cpp core/lib/TimeHandling/GPSWeek.cpp core/lib/TimeHandling/Week.cpp core/lib/TimeHandling/TimeTag.cpp core/lib/TimeHandling/TimeCorrection.cpp core/lib/TimeHandling/TimeConverters.cpp core/lib/TimeHandling/CommonTime.cpp core/lib/RefTime/TimeSystem.cpp core/lib/Utilities/Exception.cpp core/lib/Utilities/StringUtils.cpp
// BOUND: all weeks (0..32767; 0..500000 for week/Z-count time tags), all Z-counts, increments up to 10^12 Z-counts, blocks of 1 Z-count to 100 weeks at any offset, reference weeks within 4 rollovers, years 1980..4700
// OUTSIDE: text forms (T02)
// OPT: fpmode=2 query-timeout=40
#include "symx.h"
#include <sstream>
#include <map>
#include <list>
#include <iomanip>
#define protected public
#define private public
#include "GPSZcount.hpp"
#include "GPSWeekZcount.hpp"
#include "GPSWeekSecond.hpp"
#include "BDSWeekSecond.hpp"
#include "GALWeekSecond.hpp"
#include "TimeCorrection.hpp"
#include "TimeConverters.hpp"
#undef protected
#undef private
using namespace gpstk;
static const long W = 403200;
static GPSZcount zc(const char *w, const char *z) { GPSZcount g(0, 0); g.week = (short)R(w, 0, 32767); g.zcount = R(z, 0, W - 1); return g; }
static GPSWeekZcount wz(const char *w, const char *z) { GPSWeekZcount g(0, 0, TimeSystem::GPS); g.week = (int)R(w, 0, 500000); g.zcount = (unsigned)R(z, 0, W - 1); return g; }
static long T(const GPSZcount &g) { return g.week * W + g.zcount; }
static long T(const GPSWeekZcount &g) { return g.week * W + (long)g.zcount; }
static long fdiv(long a, long b) { long q = a / b; return a % b < 0 ? q - 1 : q; }

ENTRY check_zset() {
  long w = R("w", -32768, 32767), z = R("z", -1000000, 1000000); bool thrown = false; GPSZcount g(7, 8);
  try { GPSZcount h((short)w, z); g = h; } catch (InvalidParameter &) { thrown = true; }
  ASSERT(thrown == symx_or(w < 0, symx_or(z < 0, z >= W)), "exactly the weeks and Z-counts in range are accepted");
  if (thrown) ASSERT(g.week == 7 && g.zcount == 8, "unchanged"); else ASSERT(g.getWeek() == w && g.getZcount() == z, "week and Z-count are kept");
}
ENTRY check_zfull() {
  long w = R("w", 0, 1023), z = R("z", 0, (1 << 19) - 1); bool thrown = false; GPSZcount g(7, 8);
  try { g.setFullZcount((w << 19) | z); } catch (InvalidParameter &) { thrown = true; }
  ASSERT(thrown == (z >= W), "a 29-bit Z-count is refused exactly if its Z-count is out of range");
  if (!thrown) ASSERT(g.week == w && g.zcount == z, "a 29-bit Z-count splits into week and Z-count");
}
ENTRY check_zadd() {
  GPSZcount g = zc("w", "z"), o = g; long n = R("n", -1000000000000, 1000000000000); bool thrown = false; long t = T(o) + n;
  try { g.addZcounts(n); } catch (InvalidRequest &) { thrown = true; }
  ASSERT(thrown == symx_or(t < 0, t >= 32768 * W), "a sum is refused exactly if it leaves the range of weeks");
  ASSERT(T(g) == (thrown ? T(o) : t), "Z-counts add exactly, a refused sum changes nothing");
  ASSERT(g.zcount >= 0 && g.zcount < W, "sum is normalised");
}
ENTRY check_zops() {
  GPSZcount g = zc("w", "z"), h = zc("v", "y"); ASSUME(g.week > 0); ASSUME(g.week < 32767); long n = R("n", -W, W);
  GPSZcount a = g + n, b = g - n, c = g, d = g; c += n; d -= n;
  ASSERT(T(a) == T(g) + n && T(b) == T(g) - n && T(c) == T(a) && T(d) == T(b), "adding to a copy and in place agree");
  GPSZcount p = g, q = g, r = g, s = g; long p0 = T(p++), q0 = T(++q), r0 = T(r--), s0 = T(--s);
  ASSERT(p0 == T(g) && q0 == T(g) + 1 && r0 == T(g) && s0 == T(g) - 1 && T(p) == q0 && T(r) == s0, "increment and decrement by one");
  ASSERT(g - h == (double)(T(g) - T(h)), "difference is the number of Z-counts between");
  ASSERT(g.getTotalZcounts() == (double)T(g), "total number of Z-counts");
}
ENTRY check_zorder() {
  GPSZcount g = zc("w", "z"), h = zc("v", "y"); long a = T(g), b = T(h);
  ASSERT((g < h) == (a < b) && (g > h) == (a > b) && (g == h) == (a == b) && (g != h) == (a != b) && (g <= h) == (a <= b) && (g >= h) == (a >= b), "order of Z-counts is the order in time");
}
ENTRY check_wadd() {
  GPSWeekZcount g = wz("w", "z"), o = g; long n = R("n", -1000000000000, 1000000000000); bool thrown = false; long t = T(o) + n;
  try { g.addZcounts(n); } catch (InvalidRequest &) { thrown = true; }
  ASSERT(thrown == (t < 0), "a sum is refused exactly if it is before the epoch");
  ASSERT(T(g) == (thrown ? T(o) : t), "Z-counts add exactly, a refused sum changes nothing");
  ASSERT(g.zcount < W, "sum is normalised");
}
ENTRY check_wweeks() {
  GPSWeekZcount g = wz("w", "z"), o = g; long n = R("n", -32768, 32767); bool thrown = false;
  try { g.addWeeks((short)n); } catch (InvalidRequest &) { thrown = true; }
  ASSERT(thrown == (o.week + n < 0), "adding weeks is refused exactly if the result is before the epoch");
  ASSERT(T(g) == (thrown ? T(o) : T(o) + n * W), "weeks add exactly, a refused sum changes nothing");
}
ENTRY check_wops() {
  GPSWeekZcount g = wz("w", "z"), h = wz("v", "y"); ASSUME(g.week > 0); long n = R("n", -W, W);
  GPSWeekZcount a = g + n, b = g - n, c = g, d = g; c += n; d -= n;
  ASSERT(T(a) == T(g) + n && T(b) == T(g) - n && T(c) == T(a) && T(d) == T(b), "adding to a copy and in place agree");
  GPSWeekZcount p = g, q = g, r = g, s = g; long p0 = T(p++), q0 = T(++q), r0 = T(r--), s0 = T(--s);
  ASSERT(p0 == T(g) && q0 == T(g) + 1 && r0 == T(g) && s0 == T(g) - 1 && T(p) == q0 && T(r) == s0, "increment and decrement by one");
  ASSERT(g - h == T(g) - T(h), "difference is the number of Z-counts between");
  ASSERT((long)g.getTotalZcounts() == T(g), "total number of Z-counts");
  ASSERT(g.getDayOfWeek() == g.zcount / 57600, "day of week");
}
ENTRY check_worder() {
  GPSWeekZcount g = wz("w", "z"), h = wz("v", "y"); long a = T(g), b = T(h);
  ASSERT((g < h) == (a < b) && (g > h) == (a > b) && (g == h) == (a == b) && (g != h) == (a != b) && (g <= h) == (a <= b) && (g >= h) == (a >= b), "order of Z-counts is the order in time");
}
ENTRY check_wfull() {
  GPSWeekZcount g = wz("w", "z"), o = g; unsigned v = U("v", 32); g.setZcount32(v);
  ASSERT((unsigned)g.week == v >> 19 && g.zcount == (v & 0x7ffff) && g.getZcount32() == v, "32-bit Z-count");
  g = o; unsigned u = v & 0x1fffffff; g.setZcount29(u);
  ASSERT((g.week & 1023) == (int)(u >> 19) && (g.week >> 10) == (o.week >> 10) && g.zcount == (u & 0x7ffff) && g.getZcount29() == u, "29-bit Z-count keeps the epoch");
}
// blocks of less than a week start at the beginning of each week (plus the offset), longer ones at the epoch
template<class G> static void block(G g, G h, long b, long off, long same) {
  ASSERT(g.inSameTimeBlock(h, b, off) == (bool)same, "two Z-counts are in the same block exactly if no block boundary lies between them"); }
template<class G> static void blockshort(G g, G h, long b) {
  long off = R("off", 0, b - 1); block(g, h, b, off, symx_and(g.week == h.week, fdiv((long)g.zcount - off, b) == fdiv((long)h.zcount - off, b))); }
template<class G> static void blocklong(G g, G h, long b) {
  long off = R("off", 0, b - 1); block(g, h, b, off, fdiv(T(g) - off, b) == fdiv(T(h) - off, b)); }
ENTRY check_zblock1() { blockshort(zc("w", "z"), zc("v", "y"), 1); }
ENTRY check_wblock1() { blockshort(wz("w", "z"), wz("v", "y"), 1); }
ENTRY check_zblock2() { blockshort(zc("w", "z"), zc("v", "y"), 4); }
ENTRY check_wblock2() { blockshort(wz("w", "z"), wz("v", "y"), 4); }
ENTRY check_zblock3() { blockshort(zc("w", "z"), zc("v", "y"), 40); }
ENTRY check_wblock3() { blockshort(wz("w", "z"), wz("v", "y"), 40); }
ENTRY check_zblock4() { blockshort(zc("w", "z"), zc("v", "y"), 2400); }
ENTRY check_wblock4() { blockshort(wz("w", "z"), wz("v", "y"), 2400); }
ENTRY check_zblock5() { blockshort(zc("w", "z"), zc("v", "y"), 57600); }
ENTRY check_wblock5() { blockshort(wz("w", "z"), wz("v", "y"), 57600); }
ENTRY check_zblock6() { blockshort(zc("w", "z"), zc("v", "y"), 1000); }
ENTRY check_wblock6() { blockshort(wz("w", "z"), wz("v", "y"), 1000); }
ENTRY check_zblock7() { blocklong(zc("w", "z"), zc("v", "y"), W); }
ENTRY check_wblock7() { blocklong(wz("w", "z"), wz("v", "y"), W); }
ENTRY check_zblock8() { blocklong(zc("w", "z"), zc("v", "y"), 10 * W); }
ENTRY check_wblock8() { blocklong(wz("w", "z"), wz("v", "y"), 10 * W); }
ENTRY check_zblock9() { blocklong(zc("w", "z"), zc("v", "y"), 100000007); }
ENTRY check_wblock9() { blocklong(wz("w", "z"), wz("v", "y"), 100000007); }

ENTRY check_rollover() {
  long ref = R("ref", 1, 10000), w = R("w", 0, 10000); ASSUME(w - ref <= 4096); ASSUME(ref - w <= 4096); long r0 = ref, x = timeAdjustWeekRollover(w, ref);
  ASSERT(ref == r0, "a given reference week is not changed");
  ASSERT((x - w) % 1024 == 0, "the adjusted week differs by whole rollovers");
  ASSERT(x - ref <= 512 && ref - x <= 512, "the adjusted week is within half a rollover of the reference");
}
template<class G> static void ewk() {
  G g(0, 0.0); g.week = (int)R("w", 0, 500000); int w0 = g.week; unsigned m = U("m", 13), e = U("e", 8);
  ASSERT((int)(g.getEpoch() * g.rollover() + g.getModWeek()) == w0 && (int)g.getModWeek() < g.rollover(), "epoch and week modulo rollover make up the week");
  g.setModWeek(m); ASSERT((int)g.getModWeek() == (int)(m & g.bitmask()) && (int)g.getEpoch() == w0 / g.rollover(), "setting the week modulo rollover keeps the epoch");
  g.setEpoch(e); ASSERT(g.getEpoch() == e && (int)g.getModWeek() == (int)(m & g.bitmask()), "setting the epoch keeps the week modulo rollover");
}
ENTRY check_weekgps() { ewk<GPSWeekSecond>(); }
ENTRY check_weekbds() { ewk<BDSWeekSecond>(); }
ENTRY check_weekgal() { ewk<GALWeekSecond>(); }
// a week of a year, known only modulo the rollover, is completed
template<class G> static void adj(long y0, long y1) {
  long y = R("y", y0, y1); long j0 = convertCalendarToJD((int)y, 1, 1), n = R("n", 0, 365); ASSUME(j0 + n <= convertCalendarToJD((int)y, 12, 31));
  G g(0, 0.0); long d = j0 + n - MJD_JDAY - g.MJDEpoch(); ASSUME(d >= 0); long w = d / 7;
  g.week = (int)(w & g.bitmask()); g.adjustToYear((unsigned)y);
  ASSERT(g.week == w, "a week of a year is recovered from the week modulo rollover");
}
ENTRY check_adjgps() { adj<GPSWeekSecond>(1980, 4700); }
ENTRY check_adjbds() { adj<BDSWeekSecond>(2006, 4700); }
ENTRY check_adjgal() { adj<GALWeekSecond>(1999, 4700); }
