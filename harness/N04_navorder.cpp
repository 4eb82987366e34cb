// PROPERTY: N04
// SRC: core/lib/NavFilter/NavOrderFilter.cpp core/lib/NavFilter/LNavOrderFilter.cpp core/lib/NavFilter/NavFilter.cpp core/lib/NavFilter/NavFilterKey.cpp core/lib/NavFilter/LNavFilterData.cpp
// SRC: core/lib/Utilities/Exception.cpp core/lib/TimeHandling/CommonTime.cpp core/lib/RefTime/TimeSystem.cpp core/lib/TimeHandling/GPSWeekZcount.cpp
// BOUND: histories of 3 messages (thorough: 4) at any millisecond of two days, depths 1 and 3 (thorough: 1 to 4), epochs of 6 s (thorough: 12 s)
// OUTSIDE: longer histories, depth 0
// OPT: merge=0 fpmode=2 query-timeout=40 max-paths=100000
#include "symx.h"
#include "NavOrderFilter.hpp"
#include "LNavOrderFilter.hpp"
using namespace gpstk;
typedef NavFilter::NavMsgList L;
static int find(const L &l, const NavFilterKey *k) { int n = 0; for (auto p : l) n += p == k; return n; }
static CommonTime at(int64_t ms) { CommonTime t(TimeSystem::GPS); int64_t d = ms >= 86400000; t.m_day = 2456000 + d; t.m_msod = ms - d * 86400000; t.m_fsod = 0; return t; }
template <class F, class K, int N> static void order(int deep) {
  bool th = symx_getopt("tier", 0);
  int depth = th && N == 3 ? (int)symx_concretize(R("depth", deep, deep + 1)) : deep, ep = 6 * (th && N == 3 ? (int)symx_concretize(R("ep", 1, 2)) : 1); int64_t D = (int64_t)depth * ep * 1000; F f(depth, ep); ASSERT(f.processingDepth() == (unsigned)depth, "depth");
  K d[4]; int64_t t[4]; L out; int64_t newest = 0;
  for (int i = 0; i < N; i++) {
    t[i] = R("t", 0, 2 * 86400000 - 1); d[i].timeStamp = at(t[i]); L in; in.push_back(&d[i]); bool tooold = i && t[i] < newest - D;
    f.validate(in, out); if (!i || t[i] > newest) newest = t[i];
    ASSERT(find(f.rejected, &d[i]) == (tooold ? 1 : 0), "a message is rejected on arrival exactly when it is too old");
    for (int j = 0; j <= i; j++) { int o = find(out, &d[j]), r = find(f.rejected, &d[j]); ASSERT(o + r <= 1, "no message is duplicated"); if (!r) ASSERT((o == 1) == (t[j] <= newest - D), "a message is released exactly when it is old enough"); }
  }
  f.finalize(out);
  for (int j = 0; j < N; j++) ASSERT(find(out, &d[j]) + find(f.rejected, &d[j]) == 1, "every message is released or rejected");
  const NavFilterKey *p = nullptr; bool ok = true; for (auto q : out) { if (p) ok = symx_and(ok, !(q->timeStamp < p->timeStamp)); p = q; }
  ASSERT(ok, "messages are released in time order");
}
ENTRY check_order() { order<NavOrderFilter, NavFilterKey, 3>(1); }
ENTRY check_orderdeep() { order<NavOrderFilter, NavFilterKey, 3>(3); }
ENTRY check_lnavorder() { order<LNavOrderFilter, LNavFilterData, 3>(1); }
ENTRY check_lnavorderdeep() { order<LNavOrderFilter, LNavFilterData, 3>(3); }
ENTRY check_t_order4() { order<NavOrderFilter, NavFilterKey, 4>(1); }
ENTRY check_t_lnavorder4() { order<LNavOrderFilter, LNavFilterData, 4>(1); }
ENTRY check_t_order4deep() { order<NavOrderFilter, NavFilterKey, 4>(3); }
ENTRY check_t_lnavorder4deep() { order<LNavOrderFilter, LNavFilterData, 4>(3); }
