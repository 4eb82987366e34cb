// PROPERTY: E01
// SRC: core/lib/GNSSEph/OrbitEphStore.cpp core/lib/GNSSEph/OrbitEph.cpp core/lib/TimeHandling/CommonTime.cpp core/lib/RefTime/TimeSystem.cpp core/lib/Utilities/Exception.cpp core/lib/GNSSCore/SatelliteSystem.cpp core/lib/GNSSCore/ObsID.cpp
// BOUND: stores filled with 2 data sets in any order or 3 in ascending order (thorough: 3 in any order, 4 in ascending order), with any times (milliseconds of one day), copies of a data set included, then queried at any time
// OUTSIDE: longer histories; the satellite positions computed from the chosen data set (trigonometry)
// ASSUMES: nearness is measured with the time difference T03 decides; later data sets of a satellite (by epoch) are first broadcast later, and copies of a data set end alike
// OPT: merge=0 fpmode=2 query-timeout=40 max-paths=200000
#include "symx.h"
#include <sstream>
#include <map>
#include <list>
#include <set>
#include <iomanip>
#define protected public
#include "OrbitEphStore.hpp"
#undef protected
namespace gpstk { std::string printTime(const CommonTime &, const std::string &) { return ""; } }   // text of error messages only
using namespace gpstk;
static const int64_t DAY = 86400000;
static CommonTime at(int64_t ms) { CommonTime t(TimeSystem::GPS); t.m_day = 2456000; t.m_msod = ms; t.m_fsod = 0; return t; }
static int64_t val(const CommonTime &t) { return t.m_day < 2456000 ? -DAY : t.m_day > 2456000 ? 2 * DAY : t.m_msod; }
struct D { int64_t toe, b, e; int sat; bool kept; };
static SatID sid(int s) { return SatID(s, SatelliteSystem::GPS); }
static OrbitEph mk(const D &d, int i) { OrbitEph o; o.dataLoadedFlag = true; o.satID = sid(d.sat); o.ctToe = at(d.toe); o.ctToc = at(d.toe); o.beginValid = at(d.b); o.endValid = at(d.e); o.M0 = i; return o; }
static void any(D *d, int n, bool two) {
  for (int i = 0; i < n; i++) {
    d[i].toe = R("toe", 0, DAY - 1); d[i].b = R("b", 0, DAY - 1); d[i].e = R("e", 0, DAY - 1); d[i].sat = two && i ? 1 + (int)symx_concretize(U("sat", 1)) : 1; d[i].kept = false;
    ASSUME(d[i].b <= d[i].e);
    for (int j = 0; j < i; j++) if (d[j].sat == d[i].sat) {
      ASSUME(symx_or(d[i].toe != d[j].toe, d[i].e == d[j].e));
      ASSUME(symx_or(d[i].toe >= d[j].toe, d[i].b < d[j].b)); ASSUME(symx_or(d[i].toe <= d[j].toe, d[i].b > d[j].b));
    }
  }
}
template <int N> static void near(bool sorted, int part = 0) {
  D d[N]; any(d, N, false); if (sorted) for (int i = 1; i < N; i++) ASSUME(d[i].toe > d[i - 1].toe); OrbitEphStore s; ASSERT(s.SearchNear(), "the search method of an empty store can be chosen"); SatID q = sid(1); int n = 0;
  for (int i = 0; i < N; i++) {
    bool dup = false; for (int j = 0; j < i; j++) if (d[j].toe == d[i].toe) dup = true;
    OrbitEph o = mk(d[i], i), *r = nullptr; NOTHROW(r = s.addEphemeris(&o), "a sound data set is taken or ignored");
    ASSERT((r != nullptr) == !dup, "a data set is ignored exactly when its epoch is stored"); d[i].kept = !dup; n += !dup;
  }
  ASSERT(s.size(q) == n && !s.SearchNear() && !s.SearchUser(), "one data set is kept per epoch");
  int64_t t = R("t", 0, DAY - 1); if (part) ASSUME((part == 1) == (t < d[1].toe)); int p = -1, f = -1;
  for (int i = 0; i < N; i++) if (d[i].kept) { if (d[i].toe <= t && (p < 0 || d[i].toe > d[p].toe)) p = i; if (d[i].toe >= t && (f < 0 || d[i].toe < d[f].toe)) f = i; }
  const OrbitEph *r = s.findOrbitEph(q, at(t));
  bool pv = p >= 0 && d[p].b <= t && t <= d[p].e, fv = f >= 0 && d[f].b <= t && t <= d[f].e;
  if (p >= 0 && p == f) ASSERT(r && r->M0 == p, "the data set of the requested epoch is found");
  else if (p >= 0 && f >= 0) { bool pn = symx_concretize(at(t) - at(d[p].toe) < at(d[f].toe) - at(t)); int w = pn ? (pv ? p : fv ? f : -1) : (fv ? f : pv ? p : -1);
    if (w < 0) ASSERT(!r, "nothing is found in a gap"); else ASSERT(r && r->M0 == w, "the valid neighbour nearest in time is found"); }
  else { int w = p >= 0 ? p : f; bool wv = p >= 0 ? pv : fv; if (wv) ASSERT(r && r->M0 == w, "the outermost data set is used as long as it is valid"); else ASSERT(!r, "nothing is found outside the validity of the outermost data set"); }
}
ENTRY check_near2() { near<2>(false); }
ENTRY check_near3() { near<3>(true, 1); }
ENTRY check_near3late() { near<3>(true, 2); }
ENTRY check_t_near3() { near<3>(false); }
ENTRY check_t_near4() { near<4>(true); }
