// PROPERTY: E01
// SRC: core/lib/GNSSEph/OrbitEphStore.cpp core/lib/GNSSEph/OrbitEph.cpp core/lib/TimeHandling/CommonTime.cpp core/lib/RefTime/TimeSystem.cpp core/lib/Utilities/Exception.cpp core/lib/GNSSCore/SatelliteSystem.cpp core/lib/GNSSCore/ObsID.cpp
// BOUND: stores filled with 3 and 4 data sets (thorough: 5) of two satellites in any order, with any times (milliseconds of one day), copies of a data set included, then queried at any time
// OUTSIDE: longer histories; the satellite positions computed from the chosen data set (trigonometry)
// ASSUMES: later data sets of a satellite (by epoch) are first broadcast later, and copies of a data set end alike
// OPT: merge=0 query-timeout=40 max-paths=200000
#include "symx.h"
#include <sstream>
#include <map>
#include <list>
#include <set>
#include <iomanip>
#define protected public
#include "OrbitEphStore.hpp"
#undef protected
namespace gpstk { std::string printTime(const CommonTime &, const std::string &) { return ""; } }   // text of error messages only
using namespace gpstk;
static const int64_t DAY = 86400000;
static CommonTime at(int64_t ms) { CommonTime t(TimeSystem::GPS); t.m_day = 2456000; t.m_msod = ms; t.m_fsod = 0; return t; }
static int64_t val(const CommonTime &t) { return t.m_day < 2456000 ? -DAY : t.m_day > 2456000 ? 2 * DAY : t.m_msod; }
struct D { int64_t toe, b, e; int sat; bool kept; };
static SatID sid(int s) { return SatID(s, SatelliteSystem::GPS); }
static OrbitEph mk(const D &d, int i) { OrbitEph o; o.dataLoadedFlag = true; o.satID = sid(d.sat); o.ctToe = at(d.toe); o.ctToc = at(d.toe); o.beginValid = at(d.b); o.endValid = at(d.e); o.M0 = i; return o; }
static void any(D *d, int n, bool two) {
  for (int i = 0; i < n; i++) {
    d[i].toe = R("toe", 0, DAY - 1); d[i].b = R("b", 0, DAY - 1); d[i].e = R("e", 0, DAY - 1); d[i].sat = two && i ? 1 + (int)symx_concretize(U("sat", 1)) : 1; d[i].kept = false;
    ASSUME(d[i].b <= d[i].e);
    for (int j = 0; j < i; j++) if (d[j].sat == d[i].sat) {
      ASSUME(symx_or(d[i].toe != d[j].toe, d[i].e == d[j].e));
      ASSUME(symx_or(d[i].toe >= d[j].toe, d[i].b < d[j].b)); ASSUME(symx_or(d[i].toe <= d[j].toe, d[i].b > d[j].b));
    }
  }
}
template <int N> static void user(bool two) {
  D d[N]; any(d, N, two); OrbitEphStore s; ASSERT(s.SearchUser(), "the search method of an empty store can be chosen"); SatID q = sid(1);
  int64_t lo = 2 * DAY, hi = -1;
  for (int i = 0; i < N; i++) {
    bool dup = false, late = false; for (int j = 0; j < i; j++) if (d[j].sat == d[i].sat && d[j].toe == d[i].toe) { if (d[j].b <= d[i].b) dup = true; }
    OrbitEph o = mk(d[i], i), *r = nullptr; NOTHROW(r = s.addEphemeris(&o), "a sound data set is taken or ignored");
    ASSERT((r != nullptr) == !dup, "a data set is ignored exactly when an earlier broadcast of it is stored");
    if (r) ASSERT(r->M0 == i && r != &o, "the store keeps a copy");
    if (!dup) { for (int j = 0; j < i; j++) if (d[j].sat == d[i].sat && d[j].toe == d[i].toe) d[j].kept = false; d[i].kept = true; if (d[i].b < lo) lo = d[i].b; if (d[i].e > hi) hi = d[i].e; }
  }
  int n = 0, n1 = 0; for (int i = 0; i < N; i++) if (d[i].kept) { n++; n1 += d[i].sat == 1; }
  ASSERT(s.size() == n && s.size(q) == n1 && s.size(SatID(-1, SatelliteSystem::GPS)) == n && s.size(SatID(-1, SatelliteSystem::Glonass)) == 0, "one data set is kept per satellite and epoch");
  ASSERT(val(s.getInitialTime()) == lo && val(s.getFinalTime()) == hi, "the time span of the store is that of its data");
  ASSERT(s.isPresent(q) == (n1 > 0) && !s.isPresent(sid(9)) && s.findUserOrbitEph(sid(9), at(5)) == nullptr && s.size(sid(9)) == 0, "presence of a satellite");
  ASSERT(s.getIndexSet().size() == (n1 > 0) + (n > n1), "the satellites of the store are listed");
  int64_t t = R("t", 0, DAY - 1); int best = -1;
  for (int i = 0; i < N; i++) if (d[i].kept && d[i].sat == 1 && d[i].b <= t && (best < 0 || d[i].b > d[best].b)) best = i;
  const OrbitEph *r = s.findOrbitEph(q, at(t));
  if (best >= 0 && d[best].e >= t) ASSERT(r && r->M0 == best, "the most recently broadcast data set is found while it is valid");
  else ASSERT(!r, "no data set is found when the most recent one is no longer valid");
  Xvt::HealthStatus h = s.getSVHealth(q, at(t)); ASSERT((h == Xvt::HealthStatus::Healthy) == (r != nullptr) && (h == Xvt::HealthStatus::Unavailable) == (r == nullptr), "health is available exactly when a data set is found");
  std::list<OrbitEph *> l; ASSERT(s.addToList(l) == n && l.size() == n, "all data sets are listed"); std::list<OrbitEph *> l1; ASSERT(s.addToList(l1, q) == n1 && l1.size() == n1, "all data sets of a satellite are listed");
  s.clear(); ASSERT(s.size() == 0 && !s.isPresent(q) && s.findOrbitEph(q, at(t)) == nullptr, "a cleared store is empty");
}
ENTRY check_user() { user<3>(false); }
ENTRY check_user4() { user<4>(false); }
ENTRY check_user2() { user<3>(true); }
// editing keeps exactly the data sets of the interval
ENTRY check_edit() {
  D d[3]; any(d, 3, false); OrbitEphStore s; for (int i = 0; i < 3; i++) { if (i) ASSUME(symx_and(d[i - 1].toe < d[i].toe, d[i - 1].b < d[i].b)); OrbitEph o = mk(d[i], i); s.addEphemeris(&o); }
  int64_t a = R("a", 0, DAY - 1), z = R("z", 0, DAY - 1); ASSUME(a <= z); s.edit(at(a), at(z)); int n = 0; bool k[3];
  for (int i = 0; i < 3; i++) { bool in = symx_concretize(symx_and(a <= d[i].b, d[i].b <= z)); k[i] = in; n += in; ASSERT(s.isPresent(sid(1), at(d[i].b)) == in, "editing keeps exactly the data sets of the interval"); if (in) ASSERT(s.satTables[sid(1)][at(d[i].b)]->M0 == i, "kept data sets are unchanged"); }
  ASSERT(s.size() == n, "editing adds nothing"); int64_t t = R("t", 0, DAY - 1); NOTHROW(s.findOrbitEph(sid(1), at(t)), "an edited store can be searched");
  if (n) { int lo = 0, hi = 2; while (!k[lo]) lo++; while (!k[hi]) hi--;
    ASSERT(val(s.getInitialTime(sid(1))) == d[lo].b && val(s.getFinalTime(sid(1))) == d[hi].b, "the time limits of a satellite are its first and last key"); }
}
// the same start with another epoch is refused
ENTRY check_corrupt() {
  D d[2]; any(d, 1, false); d[1] = d[0]; d[1].toe = R("toe2", 0, DAY - 1); ASSUME(d[1].toe != d[0].toe); OrbitEphStore s; OrbitEph o = mk(d[0], 0), p = mk(d[1], 1); s.addEphemeris(&o);
  MUSTTHROW(InvalidParameter, s.addEphemeris(&p), "a data set with the start but not the epoch of a stored one is refused"); ASSERT(s.size() == 1 && s.findOrbitEph(sid(1), at(d[0].b))->M0 == 0, "a refused data set changes nothing");
}
