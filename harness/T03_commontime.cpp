// PROPERTY: T03
// SRC: core/lib/TimeHandling/CommonTime.cpp core/lib/RefTime/TimeSystem.cpp core/lib/Utilities/Exception.cpp core/lib/Utilities/StringUtils.cpp
// BOUND: every day 0..3442448, every millisecond of day, every fraction of a millisecond; increments up to 10^9 s, 10^12 ms, 10^6 days, any double up to 86399 s, whole doubles up to 10^7 s
// OUTSIDE: accuracy below 1e-12 s
// OPT: fpmode=2 query-timeout=40
#include "symx.h"
#define protected public
#include "CommonTime.hpp"
#undef protected
#include <cmath>
using namespace gpstk;
static const long DAYMS = 86400000;
static CommonTime mk(const char *d, const char *m, const char *f, long lo = 0, long hi = 3442448) {
  CommonTime t(TimeSystem::GPS); double fs = F(f); ASSUME(fs >= 0.0 && fs < 0.001);
  t.m_day = R(d, lo, hi); t.m_msod = R(m, 0, DAYMS - 1); t.m_fsod = fs; return t;
}
static bool normal(const CommonTime &t) { return symx_and(symx_and(t.m_msod >= 0, t.m_msod < DAYMS), symx_and(t.m_fsod >= -1e-15, t.m_fsod <= 0.001 + 1e-15)); }
static long total(const CommonTime &t) { return t.m_day * DAYMS + t.m_msod; }
static CommonTime prev() { CommonTime t(TimeSystem::UTC); t.m_day = 7; t.m_msod = 8; t.m_fsod = 0.0005; return t; }
static bool same(const CommonTime &a, const CommonTime &b) { return a.m_day == b.m_day && a.m_msod == b.m_msod && a.m_fsod == b.m_fsod && a.m_timeSystem == b.m_timeSystem; }

// the instant is moved by exactly ms; a fraction within rounding of a full millisecond may be carried
static bool moved(const CommonTime &t, const CommonTime &o, long ms) {
  bool plain = symx_and(total(t) == total(o) + ms, fabs(t.m_fsod - o.m_fsod) < 1.1e-15);
  bool carry = symx_and(total(t) == total(o) + ms + 1, symx_and(o.m_fsod > 0.001 - 1e-15, t.m_fsod < 1e-15));
  return symx_and(symx_or(plain, carry), t.m_timeSystem == o.m_timeSystem);
}
ENTRY check_setreject() {
  long day = R("day", -1000, 4000000), sod = R("sod", -1000, 100000); double f = F("f"); ASSUME(f > -10.0 && f < 10.0);
  bool ok = symx_and(symx_and(day >= 0, day <= 3442448), symx_and(symx_and(sod >= 0, sod < 86400), symx_and(f >= 0, f < 1)));
  CommonTime t = prev(), o = t; bool thrown = false;
  try { t.set(day, sod, f, TimeSystem::GPS); } catch (InvalidParameter &) { thrown = true; }
  ASSERT(thrown == !ok, "exactly the components in range are accepted");
  if (thrown) { ASSERT(same(t, o), "a rejected set leaves the time unchanged"); symx_end(); }
  ASSERT(t.m_day == day && t.m_timeSystem == TimeSystem::GPS, "day and time system are kept");
}
ENTRY check_setaccept() {
  long day = R("day", 0, 3442448), sod = R("sod", 0, 86399); double f = F("f"); ASSUME(f >= 0.0 && f < 1.0);
  CommonTime t = prev(); t.set(day, sod, f, TimeSystem::GPS);
  long x = t.m_msod - sod * 1000;
  ASSERT(symx_and(x >= 0, x <= 999), "second of day is kept");
  ASSERT(fabs((double)x * 0.001 + t.m_fsod - f) < 1e-12, "fraction of a second is kept");
  ASSERT(t.m_fsod > -1e-12 && t.m_fsod < 0.001 + 1e-12, "stored fraction is in range");
}
ENTRY check_setinternal() {
  long day = R("day", -1000, 4000000), ms = R("ms", -1000, 90000000); double f = F("f"); ASSUME(f > -1.0 && f < 1.0);
  bool ok = symx_and(symx_and(day >= 0, day <= 3442448), symx_and(symx_and(ms >= 0, ms < DAYMS), symx_and(f >= 0, f < 0.001)));
  CommonTime t = prev(), o = t; bool thrown = false;
  try { t.setInternal(day, ms, f, TimeSystem::GPS); } catch (InvalidParameter &) { thrown = true; }
  ASSERT(thrown == !ok, "exactly the internal components in range are accepted");
  if (thrown) { ASSERT(same(t, o), "a rejected internal set leaves the time unchanged"); symx_end(); }
  long d2, m2; double f2; t.getInternal(d2, m2, f2);
  ASSERT(d2 == day && m2 == ms && f2 == f, "internal components are kept");
}
ENTRY check_get() {
  CommonTime t = mk("d", "m", "f"); long d, s; double f, sod; t.get(d, s, f);
  ASSERT(d == t.m_day && s == t.m_msod / 1000 && fabs(f - ((t.m_msod % 1000) * 0.001 + t.m_fsod)) < 1e-15, "components of a time");
  t.get(d, sod);
  ASSERT(d == t.m_day && fabs(sod - t.getSecondOfDay()) == 0 && fabs(sod - (s + f)) < 1e-10, "second of day");
}
ENTRY check_addms() {
  CommonTime t = mk("d", "m", "f"), o = t; long n = R("n", -1000000000000, 1000000000000); t.addMilliseconds(n);
  ASSERT(moved(t, o, n), "milliseconds add exactly"); ASSERT(normal(t), "millisecond sum is normalised");
}
ENTRY check_adds() {
  CommonTime t = mk("d", "m", "f"), o = t; long n = R("n", -1000000000, 1000000000); t.addSeconds(n);
  ASSERT(moved(t, o, 1000 * n), "whole seconds add exactly"); ASSERT(normal(t), "second sum is normalised");
}
ENTRY check_addd() {
  CommonTime t = mk("d", "m", "f"), o = t; long n = R("n", -1000000, 1000000); t.addDays(n);
  ASSERT(moved(t, o, DAYMS * n), "days add exactly"); ASSERT(normal(t), "day sum is normalised");
}
static void addf(double lo, double hi, double tol) {
  CommonTime t = mk("d", "m", "f"), o = t; double s = F("s"); ASSUME(s >= lo && s <= hi);
  t.addSeconds(s);
  ASSERT(normal(t), "sum with real seconds is normalised");
  double got = (double)(total(t) - total(o)) * 0.001 + (t.m_fsod - o.m_fsod);
  ASSERT(fabs(got - s) <= tol, "real seconds add within tolerance");
}
ENTRY check_addf1() { addf(-0.002, 0.002, 1e-14); }
ENTRY check_addf2() { addf(-86399.0, 86399.0, 1e-10); }
// beyond a day: whole seconds held in a double (the day-splitting path)
ENTRY check_addf3() {
  CommonTime t = mk("d", "m", "f"), o = t; long n = R("n", -symx_getopt("seclim", 10000000), symx_getopt("seclim", 10000000));
  t.addSeconds((double)n);
  ASSERT(normal(t), "sum with whole real seconds is normalised");
  ASSERT(symx_or(total(t) - total(o) == 1000 * n, symx_and(total(t) - total(o) == 1000 * n + 1, symx_and(o.m_fsod > 0.001 - 1e-15, t.m_fsod < 1e-15))), "whole real seconds add exactly");
}
ENTRY check_ops() {
  CommonTime t = mk("d", "m", "f"); double s = F("s"); ASSUME(s >= -86399.0 && s <= 86399.0);
  CommonTime a = t + s, b = t, c = t - (-s), d = t; b += s; d -= -s;
  ASSERT(same(a, b) && same(a, c) && same(a, d), "adding in place and to a copy agree, subtraction is addition of the negative");
}
ENTRY check_diff() {
  CommonTime a = mk("d1", "m1", "f1"), b = mk("d2", "m2", "f2");
  ASSUME(a.m_day - b.m_day <= 10000 && b.m_day - a.m_day <= 10000);
  double x = a - b; long ms = total(a) - total(b);
  double e = x - (double)ms * 0.001;
  ASSERT(fabs(e - (a.m_fsod - b.m_fsod)) < 1e-6, "difference is the elapsed time");
  ASSERT(symx_or(a.m_day != b.m_day, fabs(e - (a.m_fsod - b.m_fsod)) < 1e-10), "difference within a day keeps sub-nanosecond accuracy");
}
// exact lexicographic order of (day, millisecond, fraction)
static bool lt(const CommonTime &a, const CommonTime &b) {
  long x = total(a), y = total(b); return symx_or(x < y, symx_and(x == y, a.m_fsod < b.m_fsod)); }
ENTRY check_order() {
  CommonTime a = mk("d1", "m1", "f1"), b = mk("d2", "m2", "f2");
  bool l = lt(a, b), e = symx_and(total(a) == total(b), fabs(a.m_fsod - b.m_fsod) < CommonTime::eps);
  ASSERT((a < b) == l, "earlier-than is the order of the instants");
  ASSERT((a == b) == e, "equality is equality within the tolerance");
  ASSERT((a != b) == !e, "inequality negates equality");
  ASSERT((a <= b) == symx_or(l, e), "not-later-than");
  ASSERT((a > b) == !symx_or(l, e), "later-than");
  ASSERT((a >= b) == !l, "not-earlier-than");
}
static bool thr(int op, const CommonTime &a, const CommonTime &b) {
  try { volatile double x; switch (op) { case 0: x = a < b; break; case 1: x = a <= b; break; case 2: x = a > b; break; case 3: x = a >= b; break; default: x = a - b; } (void)x; return false; } catch (InvalidRequest &) { return true; } }
ENTRY check_systems() {
  CommonTime a = mk("d1", "m1", "f1"), b = mk("d2", "m2", "f2"); int n = (int)TimeSystem::Last;
  int x = R("x", 0, 20), y = R("y", 0, 20), op = symx_concretize(R("op", 0, 4)); ASSUME(x < n && y < n);
  a.setTimeSystem((TimeSystem)x); b.setTimeSystem((TimeSystem)y);
  bool mis = symx_and(x != y, symx_and(x != (int)TimeSystem::Any, y != (int)TimeSystem::Any));
  ASSERT(thr(op, a, b) == mis, "comparison and difference refuse mixed time systems");
  if (mis) ASSERT(!(a == b) && a != b, "times of different systems are never equal");
}
ENTRY check_copy() {
  CommonTime a = mk("d", "m", "f"), b(a), c; c = a; 
  ASSERT(same(a, b) && same(a, c), "copies keep every component");
  c.reset(); ASSERT(c.m_day == 0 && c.m_msod == 0 && c.m_fsod == 0.0 && c.m_timeSystem == TimeSystem::Unknown, "reset clears every component");
}
// documented: "@throw InvalidRequest on over-/under-flow"
template<class FN> static bool refuses(FN f) { CommonTime t = mk("d", "m", "f"); try { f(t); } catch (InvalidRequest &) { return true; } return symx_and(t.m_day >= 0, t.m_day <= 3442448); }
ENTRY check_overdays() { long n = R("n", -4000000, 4000000); ASSERT(refuses([n](CommonTime &t) { t.addDays(n); }), "adding days never leaves the span of representable times silently"); }
ENTRY check_overseconds() { long n = R("n", -400000000000, 400000000000); ASSERT(refuses([n](CommonTime &t) { t.addSeconds(n); }), "adding seconds never leaves the span of representable times silently"); }
ENTRY check_overms() { long n = R("n", -400000000000000, 400000000000000); ASSERT(refuses([n](CommonTime &t) { t.addMilliseconds(n); }), "adding milliseconds never leaves the span of representable times silently"); }
