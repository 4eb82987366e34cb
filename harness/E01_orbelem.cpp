// PROPERTY: E01
// SRC: core/lib/GNSSEph/OrbElemStore.cpp core/lib/GNSSEph/OrbElem.cpp core/lib/GNSSEph/OrbElemBase.cpp core/lib/TimeHandling/CommonTime.cpp core/lib/TimeHandling/WeekSecond.cpp core/lib/TimeHandling/MJD.cpp core/lib/TimeHandling/Week.cpp core/lib/TimeHandling/CivilTime.cpp core/lib/RefTime/TimeSystem.cpp core/lib/Utilities/Exception.cpp core/lib/Utilities/StringUtils.cpp core/lib/GNSSCore/SatelliteSystem.cpp core/lib/GNSSCore/ObsID.cpp core/lib/GNSSCore/Xvt.cpp core/lib/Math/Triple.cpp
// BOUND: stores of orbital elements filled with 3 data sets in any order or of two satellites in ascending order (thorough: 4), with any times (milliseconds of one day), copies of a data set included, then queried at any time, edited or rationalized
// OUTSIDE: longer histories; the satellite positions computed from the chosen data set (trigonometry)
// ASSUMES: later data sets of a satellite (by epoch) are first broadcast later and valid longer
// OPT: merge=0 query-timeout=40 max-paths=200000
#include "symx.h"
#include <sstream>
#include <map>
#include <list>
#include <set>
#include <iomanip>
#define protected public
#define private public
#include "StringUtils.hpp"
namespace gpstk { namespace StringUtils { template <> std::string formattedPrint<int>(const std::string &f, const std::string &, const std::string &, int) { return f; } template <> std::string formattedPrint<short>(const std::string &f, const std::string &, const std::string &, short) { return f; } template <> std::string formattedPrint<double>(const std::string &f, const std::string &, const std::string &, double) { return f; } template <> std::string formattedPrint<const char *>(const std::string &f, const std::string &, const std::string &, const char *) { return f; } template <> std::string formattedPrint<char *>(const std::string &f, const std::string &, const std::string &, char *) { return f; } } }
#include "CommonTime.hpp"
#include "OrbElemStore.hpp"
#include "OrbElem.hpp"
#undef protected
#undef private
namespace gpstk { std::string printTime(const CommonTime &, const std::string &) { return ""; } void convertJDtoCalendar(long, int &y, int &m, int &d) { y = 2020; m = d = 1; } void convertSODtoTime(double, int &h, int &m, double &s) { h = m = 0; s = 0; } long convertCalendarToJD(int, int, int) { return 0; } double convertTimeToSOD(int, int, double) { return 0; } }   // text of error messages only
using namespace gpstk;
static const int64_t DAY = 86400000; static const int D0 = 2444245 + 2000 * 7 + 3;
static CommonTime at(int64_t ms) { CommonTime t(TimeSystem::GPS); t.m_day = D0; t.m_msod = ms; t.m_fsod = 0; return t; }
static int64_t val(const CommonTime &t) { return ((int64_t)t.m_day - D0) * DAY + t.m_msod; }
static SatID sid(int s) { return SatID(s, SatelliteSystem::GPS); }
struct Elem : OrbElem { int tag; int64_t second; int *alive;
  Elem(int sat, int i, int64_t toe, int64_t b, int64_t e) : tag(i), second(b) { dataLoadedFlag = true; satID = sid(sat); ctToe = ctToc = at(toe); beginValid = at(b); endValid = at(e); setHealthy(true); }
  OrbElem *clone() const { return new Elem(*this); } std::string getName() const { return ""; } std::string getNameLong() const { return ""; } void adjustBeginningValidity() { beginValid = at(second); } void dumpTerse(std::ostream &) const {} };
struct D { int64_t toe, b, e; int sat, keeper; };
static void any(D *d, int n, bool sorted, bool two) {
  for (int i = 0; i < n; i++) {
    d[i].toe = R("toe", 0, DAY - 1); d[i].b = R("b", 0, DAY - 1); d[i].e = R("e", 0, DAY - 1); d[i].sat = two && i ? 1 + (int)symx_concretize(U("sat", 1)) : 1; ASSUME(d[i].b < d[i].e);
    for (int j = 0; j < i; j++) if (d[j].sat == d[i].sat) {
      if (sorted) ASSUME(d[i].toe >= d[j].toe);
      if (symx_concretize(d[i].toe == d[j].toe)) ASSUME(d[i].e == d[j].e); else if (symx_concretize(d[i].toe > d[j].toe)) { ASSUME(d[i].b > d[j].b); ASSUME(d[i].e >= d[j].e); } else { ASSUME(d[i].b < d[j].b); ASSUME(d[i].e <= d[j].e); }
    }
  }
}
static void fill(OrbElemStore &s, D *d, int n) {   // keeper: 1 if the data set stays in the store in this form
  for (int i = 0; i < n; i++) {
    int old = -1; for (int j = 0; j < i; j++) if (d[j].keeper && d[j].sat == d[i].sat && symx_concretize(d[j].toe == d[i].toe)) old = j;
    bool take = old < 0 || symx_concretize(d[i].b < d[old].b), r = false; Elem o(d[i].sat, i, d[i].toe, d[i].b, d[i].e); NOTHROW(r = s.addOrbElem(&o), "sound data is taken or ignored"); ASSERT(r == take, "data is taken exactly if it is new or broadcast earlier than its copy"); d[i].keeper = take; if (take && old >= 0) d[old].keeper = 0;
  }
}
static int tag(const OrbElemBase *p) { return ((const Elem *)p)->tag; }
template <int N> static void user(bool sorted, bool two, bool near = false) {
  D d[N]; any(d, N, sorted, two); OrbElemStore s; ASSERT(s.size() == 0, "an empty store is empty"); fill(s, d, N); unsigned n = 0; int64_t lo = DAY, hi = -1; for (auto &x : d) { n += x.keeper; if (x.b < lo) lo = x.b; if (x.e > hi) hi = x.e; }
  ASSERT(s.size() == n, "one copy of each data set is kept"); ASSERT(val(s.getInitialTime()) == lo && val(s.getFinalTime()) == hi, "the time span of the store is that of its data");
  int q = two ? 1 + (int)symx_concretize(U("q", 1)) : 1; int64_t t = R("t", 0, DAY - 1); int w = -1, f = -1; bool have = false;
  for (int i = 0; i < N; i++) if (d[i].keeper && d[i].sat == q) { have = true; if (d[i].b <= t) { if (w < 0 || d[i].b > d[w].b) w = i; } else if (f < 0 || d[i].b < d[f].b) f = i; }
  ASSERT(s.isPresent(sid(q)) == have, "a satellite is present exactly if it has data"); int prior = w; if (w >= 0 && t > d[w].e) w = -1;
  const OrbElemBase *r = nullptr; bool thrown = false; try { r = s.findOrbElem(sid(q), at(t)); } catch (InvalidRequest &) { thrown = true; } ASSERT(thrown == (w < 0), "nothing is found exactly when nothing is valid"); if (w >= 0) ASSERT(tag(r) == w, "the data broadcast last before the time is found");
  if (!near) return; const OrbElemBase *p = nullptr; thrown = false; try { p = s.findNearOrbElem(sid(q), at(t)); } catch (InvalidRequest &) { thrown = true; } ASSERT(thrown == !have, "something near is found unless there is nothing"); if (!have) return;
  if (w >= 0) ASSERT(tag(p) == w, "valid data is nearest"); else if (prior < 0) ASSERT(tag(p) == f, "before all data the first is nearest"); else if (f < 0) ASSERT(tag(p) == prior, "after all data the last is nearest"); else { int64_t a = t - d[prior].e, z = d[f].b - t; if (a < z) ASSERT(tag(p) == prior, "in a gap the nearer data is found"); if (a > z) ASSERT(tag(p) == f, "in a gap the nearer data is found"); }
}
ENTRY check_orbelem() { user<3>(false, false); }
ENTRY check_orbelem2() { user<3>(true, true); }
ENTRY check_orbnear() { user<2>(true, false, true); }
ENTRY check_orbnear2() { user<2>(true, true, true); }
ENTRY check_orbnear3() { user<3>(false, false, true); }
ENTRY check_orbelem4() { user<4>(true, true); }
// one more transmission of any of three data sets, early or late
ENTRY check_orbcopy() {
  D d[4]; for (int i = 0; i < 3; i++) { d[i].sat = 1; d[i].toe = 7200000 * (i + 1); d[i].b = R("b", 0, DAY - 1); d[i].e = R("e", 0, DAY - 1); ASSUME(d[i].b < d[i].e); if (i) { ASSUME(d[i - 1].b < d[i].b); ASSUME(d[i - 1].e <= d[i].e); } }
  int k = symx_concretize(R("k", 0, 2)); d[3] = d[k]; d[3].b = R("c", 0, DAY - 1); ASSUME(d[3].b < d[3].e); if (k) ASSUME(d[3].b > d[k - 1].b); if (k < 2) ASSUME(d[3].b < d[k + 1].b); OrbElemStore s; fill(s, d, 4); ASSERT(s.size() == 3, "one copy of each data set is kept");
}
ENTRY check_orbedit() {
  D d[3]; any(d, 3, true, true); OrbElemStore s; fill(s, d, 3); int64_t a = R("a", 0, DAY - 1), z = R("z", 0, DAY - 1); ASSUME(a <= z); s.edit(at(a), at(z)); unsigned n = 0; for (auto &x : d) if (x.keeper) n += x.keeper = symx_concretize(symx_and(a <= x.b, x.b <= z));
  ASSERT(s.size() == n, "editing keeps the data of the interval"); std::list<OrbElemBase *> l; ASSERT(s.addToList(l) == (int)n && l.size() == n, "the data of the store is listed"); for (OrbElemBase *p : l) ASSERT(d[tag(p)].keeper, "editing removes the data outside the interval");
  NOTHROW(s.rationalize(), "what is left is rationalized"); ASSERT(s.size() == n, "no data set is lost"); s.clear(); ASSERT(s.size() == 0 && !s.isPresent(sid(1)), "clearing empties the store");
}
ENTRY check_orbtoe() {
  D d[3]; any(d, 3, true, true); OrbElemStore s; s.timeSysForStore = TimeSystem::GPS; fill(s, d, 3); int64_t t = R("t", 0, DAY - 1); int w = -1; for (int i = 0; i < 3; i++) if (d[i].keeper && d[i].sat == 1 && symx_concretize(d[i].toe == t)) w = i;
  const OrbElemBase *r = nullptr; bool thrown = false; try { r = s.findToe(sid(1), at(t)); } catch (InvalidRequest &) { thrown = true; } ASSERT(thrown == (w < 0), "data is found by its epoch"); if (w >= 0) ASSERT(tag(r) == w, "data is found by its epoch"); CommonTime u = at(t); u.setTimeSystem(TimeSystem::UTC); MUSTTHROW(InvalidRequest, s.findToe(sid(1), u), "an epoch of another time system is refused");
}
ENTRY check_orbsystem() {
  OrbElemStore s; Elem a(1, 0, 7200000, 0, 14400000), b(1, 1, 14400000, 7200000, 21600000); a.satID = b.satID = sid(1); ASSERT(s.addOrbElem(&a), "sound data is taken"); b.satID.system = (SatelliteSystem)symx_concretize(R("y", 0, (long)SatelliteSystem::Last - 1)); bool thrown = false; try { s.addOrbElem(&b); } catch (InvalidParameter &) { thrown = true; }
  bool gps = b.satID.system == SatelliteSystem::GPS; ASSERT(thrown == !gps, "data of another satellite system is refused"); ASSERT(s.size() == 1 + gps, "data of another satellite system is not stored"); s.rationalize(); ASSERT(s.size() == 1 + gps, "no data set is lost");
  Elem c(1, 2, 0, 7200000, 28800000); if (gps) { MUSTTHROW(InvalidParameter, s.addOrbElem(&c), "different data broadcast at once is refused"); ASSERT(s.size() == 2, "refused data is not stored"); }
}
static const Elem *get(OrbElemStore &s, int sat, int i) { const Elem *r = nullptr; for (auto &p : s.ube[sid(sat)]) if (tag(p.second) == i) { ASSERT(!r, "a data set is in the store once"); ASSERT(p.first == p.second->beginValid, "data sets are filed under the begin of their validity"); r = (const Elem *)p.second; } return r; }
// an upload (an epoch off the hour that differs from the previous one) ends the validity of the earlier data sets
ENTRY check_orbupload() {
  OrbElemStore s; int off[3]; int64_t b[3], e[3], eo[3];
  for (int i = 0; i < 3; i++) { off[i] = symx_concretize(R("off", 0, 2)) * 16; b[i] = R("b", 0, DAY - 1); e[i] = R("e", 0, DAY - 1); ASSUME(b[i] < e[i]); if (i) { ASSUME(b[i - 1] < b[i]); ASSUME(e[i - 1] <= e[i]); if (off[i] && off[i] == off[i - 1]) ASSUME(false); } }
  for (int i = 0; i < 3; i++) { Elem o(1, i, 1000 * (7200 * (i + 2) - off[i]), b[i], e[i]); s.addOrbElem(&o); eo[i] = e[i]; }
  NOTHROW(s.rationalize(), "sound data is rationalized");
  for (int i = 1; i < 3; i++) if (off[i]) for (int j = 0; j < i; j++) if (eo[j] > b[i]) eo[j] = b[i];
  ASSERT(s.size() == 3, "no data set is lost"); int64_t hi = eo[0]; for (int i = 1; i < 3; i++) if (eo[i] > hi) hi = eo[i];
  for (int i = 0; i < 3; i++) { const Elem *p = get(s, 1, i); ASSERT(p, "no data set is lost"); ASSERT(val(p->beginValid) == b[i], "the begin of validity stays"); ASSERT(val(p->endValid) == eo[i], "an upload ends the validity of earlier data, and nothing else does"); }
  ASSERT(val(s.getInitialTime()) == b[0] && val(s.getFinalTime()) == hi, "the time span of the store is that of its data");
}
// the second data set of an upload gets the begin of validity its parameters define
ENTRY check_orbsecond() {
  OrbElemStore s; int64_t b0 = R("b", 1, 7200000 * 2), b2 = R("c", b0 + 1, DAY - 1), w = R("w", b0 + 1, DAY - 1), e0 = R("e", b0 + 1, DAY - 1); int x = symx_concretize(R("x", 0, 1)); ASSUME(w != b2);
  if (x) { Elem o(1, 9, 7200000, b0 - 1, e0); s.addOrbElem(&o); } Elem p(1, 0, 1000 * (7200 * 4 - 16), b0, DAY - 1), q(1, 1, 1000 * (7200 * 5 - 16), b2, DAY - 1); q.second = w; s.addOrbElem(&p); s.addOrbElem(&q); s.rationalize();
  const Elem *r = get(s, 1, 1); ASSERT(r && val(r->beginValid) == w && val(r->endValid) == DAY - 1, "the second data set of an upload is valid as its parameters define"); r = get(s, 1, 0); ASSERT(r && val(r->beginValid) == b0 && val(r->endValid) == DAY - 1, "the first data set of the upload stays");
  ASSERT(s.size() == 2u + x, "no data set is lost"); if (x) { r = get(s, 1, 9); ASSERT(r && val(r->endValid) == (e0 > b0 ? b0 : e0), "the upload ends earlier data"); }
}
ENTRY check_orbsats() {
  OrbElemStore s; int64_t b[3], e[3]; int sat[3];
  for (int i = 0; i < 3; i++) { sat[i] = i < 2 ? 1 + i : 1 + symx_concretize(U("sat", 1)); b[i] = R("b", 0, DAY - 1); e[i] = R("e", 0, DAY - 1); ASSUME(b[i] < e[i]); for (int j = 0; j < i; j++) if (sat[j] == sat[i]) { ASSUME(b[j] < b[i]); ASSUME(e[j] <= e[i]); } }
  for (int i = 0; i < 3; i++) { Elem o(sat[i], i, 7200000 * (i + 2), b[i], e[i]); s.addOrbElem(&o); } int64_t lo = b[0], hi = e[0]; for (int i = 1; i < 3; i++) { if (b[i] < lo) lo = b[i]; if (e[i] > hi) hi = e[i]; }
  s.rationalize(); ASSERT(s.size() == 3, "no data set is lost"); for (int i = 0; i < 3; i++) { const Elem *p = get(s, sat[i], i); ASSERT(p && val(p->beginValid) == b[i] && val(p->endValid) == e[i], "data without an upload stays"); }
  ASSERT(val(s.getInitialTime()) == lo && val(s.getFinalTime()) == hi, "the time span of the store is that of the data of all satellites");
}
ENTRY check_t_orbany4() { user<4>(false, false); }
