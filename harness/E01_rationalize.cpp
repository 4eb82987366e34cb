// PROPERTY: E01
// SRC: core/lib/GNSSEph/GPSEphemerisStore.cpp core/lib/GNSSEph/GPSEphemeris.cpp core/lib/GNSSEph/OrbitEphStore.cpp core/lib/GNSSEph/OrbitEph.cpp core/lib/TimeHandling/CommonTime.cpp core/lib/TimeHandling/WeekSecond.cpp core/lib/TimeHandling/Week.cpp core/lib/TimeHandling/MJD.cpp core/lib/TimeHandling/TimeConverters.cpp core/lib/RefTime/TimeSystem.cpp core/lib/Utilities/Exception.cpp core/lib/GNSSCore/SatelliteSystem.cpp core/lib/GNSSCore/ObsID.cpp core/lib/GNSSCore/Xvt.cpp core/lib/Math/Triple.cpp core/lib/GNSSEph/EngEphemeris.cpp
// BOUND: stores of 3 data sets of up to two satellites with any begin and end of validity (milliseconds of one day), epochs on or off the hour; one data set of a satellite being the second of its upload
// OUTSIDE: longer histories; validity spans that end in another order than they begin
// OPT: merge=0 query-timeout=40 max-paths=200000
#include "symx.h"
#include <sstream>
#include <map>
#include <list>
#include <set>
#include <iomanip>
#define protected public
#define private public
#include "CommonTime.hpp"
#include "GPSEphemerisStore.hpp"
#undef protected
#undef private
namespace gpstk { std::string printTime(const CommonTime &, const std::string &) { return ""; } }   // text of error messages only
using namespace gpstk;
static const int64_t DAY = 86400000; static const int D0 = 2444245 + 2000 * 7 + 3;
static CommonTime at(int64_t ms) { CommonTime t(TimeSystem::GPS); t.m_day = D0; t.m_msod = ms; t.m_fsod = 0; return t; }
static int64_t val(const CommonTime &t) { return ((int64_t)t.m_day - D0) * DAY + t.m_msod; }
static GPSEphemeris mk(int sat, int i, int64_t toe, int64_t b, int64_t e) { GPSEphemeris o; o.dataLoadedFlag = true; o.satID = SatID(sat, SatelliteSystem::GPS); o.ctToe = o.ctToc = at(toe * 1000); o.transmitTime = at(toe * 1000 - 7200000); o.HOWtime = 3 * 86400 + toe - 7200; o.fitDuration = 4; o.beginValid = at(b); o.endValid = at(e); o.M0 = i; return o; }
static const GPSEphemeris *get(GPSEphemerisStore &s, int sat, int i) { const GPSEphemeris *r = nullptr; for (auto &p : s.satTables[SatID(sat, SatelliteSystem::GPS)]) if (p.second->M0 == i) { ASSERT(!r, "a data set is in the store once"); ASSERT(p.first == p.second->beginValid, "data sets are filed under the begin of their validity"); r = dynamic_cast<const GPSEphemeris *>(p.second); } return r; }
// one satellite, three data sets; an upload (an epoch off the hour that differs from the previous one) ends the validity of the earlier data sets
ENTRY check_upload() {
  GPSEphemerisStore s; int off[3]; int64_t b[3], e[3], eo[3];
  for (int i = 0; i < 3; i++) { off[i] = symx_concretize(R("off", 0, 2)) * 16; b[i] = R("b", 0, DAY - 1); e[i] = R("e", 0, DAY - 1); ASSUME(b[i] < e[i]); if (i) { ASSUME(b[i - 1] < b[i]); ASSUME(e[i - 1] <= e[i]); if (off[i] && off[i] == off[i - 1]) ASSUME(false); } }
  for (int i = 0; i < 3; i++) { s.addEphemeris(mk(1, i, 7200 * (i + 2) - off[i], b[i], e[i])); eo[i] = e[i]; }
  NOTHROW(s.rationalize(), "sound data is rationalized");
  for (int i = 1; i < 3; i++) if (off[i]) for (int j = 0; j < i; j++) if (eo[j] > b[i]) eo[j] = b[i];
  ASSERT(s.size() == 3, "no data set is lost");
  int64_t hi = eo[0]; for (int i = 1; i < 3; i++) if (eo[i] > hi) hi = eo[i];
  for (int i = 0; i < 3; i++) { const GPSEphemeris *p = get(s, 1, i); ASSERT(p, "no data set is lost"); ASSERT(val(p->beginValid) == b[i], "the begin of validity stays"); ASSERT(val(p->endValid) == eo[i], "an upload ends the validity of earlier data, and nothing else does"); }
  ASSERT(val(s.getInitialTime()) == b[0] && val(s.getFinalTime()) == hi, "the time span of the store is that of its data");
}
// the second data set of an upload gets the validity its parameters define
ENTRY check_second() {
  GPSEphemerisStore s; int64_t b0 = R("b", 0, 7200000 * 2), b2 = R("c", b0 + 1, DAY - 1), e0 = R("e", b0 + 1, DAY - 1), x = symx_concretize(R("x", 0, 1)); // x: a data set on the hour before
  if (x) s.addEphemeris(mk(1, 9, 7200, b0 - 1, e0)); GPSEphemeris p = mk(1, 0, 7200 * 4 - 16, b0, DAY - 1), q = mk(1, 1, 7200 * 6 - 16, b2, DAY - 1), w = q; w.adjustValidity();
  ASSUME(symx_and(val(w.beginValid) > b0, b0 > 0)); s.addEphemeris(p); s.addEphemeris(q); s.rationalize();
  const GPSEphemeris *r = get(s, 1, 1); ASSERT(r && r->beginValid == w.beginValid && r->endValid == w.endValid, "the second data set of an upload is valid as its parameters define"); r = get(s, 1, 0); ASSERT(r && val(r->beginValid) == b0 && val(r->endValid) == DAY - 1, "the first data set of the upload stays");
  ASSERT(s.size() == 2 + x, "no data set is lost"); if (x) { r = get(s, 1, 9); ASSERT(r && val(r->endValid) == (e0 > b0 ? b0 : e0), "the upload ends earlier data"); }
  ASSERT(val(s.getInitialTime()) == b0 - x && s.getFinalTime() == w.endValid, "the time span of the store is that of its data");
}
// satellites do not influence one another
ENTRY check_sats() {
  GPSEphemerisStore s; int64_t b[3], e[3]; int sat[3];
  for (int i = 0; i < 3; i++) { sat[i] = i < 2 ? 1 + i : 1 + symx_concretize(U("sat", 1)); b[i] = R("b", 0, DAY - 1); e[i] = R("e", 0, DAY - 1); ASSUME(b[i] < e[i]); for (int j = 0; j < i; j++) if (sat[j] == sat[i]) { ASSUME(b[j] < b[i]); ASSUME(e[j] <= e[i]); } }
  for (int i = 0; i < 3; i++) s.addEphemeris(mk(sat[i], i, 7200 * (i + 2), b[i], e[i]));
  int64_t lo = b[0], hi = e[0]; for (int i = 1; i < 3; i++) { if (b[i] < lo) lo = b[i]; if (e[i] > hi) hi = e[i]; }
  s.rationalize(); ASSERT(s.size() == 3, "no data set is lost");
  for (int i = 0; i < 3; i++) { const GPSEphemeris *p = get(s, sat[i], i); ASSERT(p && val(p->beginValid) == b[i] && val(p->endValid) == e[i], "data without an upload stays"); }
  ASSERT(val(s.getInitialTime()) == lo && val(s.getFinalTime()) == hi, "the time span of the store is that of the data of all satellites");
}
// rationalizing after editing
ENTRY check_edited() {
  GPSEphemerisStore s; int64_t a = R("a", 0, DAY - 1), z = R("z", 0, DAY - 1), b = R("b", 0, DAY - 1), c = R("c", 0, DAY - 1); ASSUME(a <= z);
  s.addEphemeris(mk(1, 0, 14400, b, DAY - 1)); s.addEphemeris(mk(2, 1, 14400, c, DAY - 1)); s.edit(at(a), at(z));
  bool k0 = symx_concretize(symx_and(a <= b, b <= z)), k1 = symx_concretize(symx_and(a <= c, c <= z)); ASSERT(s.size() == k0 + k1, "editing keeps the data of the interval");
  s.rationalize(); ASSERT(s.size() == k0 + k1, "no data set is lost"); if (k0) ASSERT(val(get(s, 1, 0)->beginValid) == b, "data stays"); if (k1) ASSERT(val(get(s, 2, 1)->beginValid) == c, "data stays");
}
// the store hands out unhealthy data only if it is not asked to exclude it
struct Fake : GPSEphemeris { bool h; Fake(const GPSEphemeris &g, bool x) : GPSEphemeris(g), h(x) { ecc = 0.01; A = 26560000; w = 1; i0 = 0.9; OMEGA0 = 2; } bool isHealthy() const { return h; } GPSEphemeris *clone() const { return new Fake(*this); } };
ENTRY check_health() {
  OrbitEphStore s; bool h0 = symx_concretize(U("h", 1)), h1 = symx_concretize(U("h", 1)), only = symx_concretize(U("only", 1)); int k = symx_concretize(R("t", 0, 2)); Fake a(mk(1, 0, 7200, 0, 14400000), h0), b(mk(1, 1, 14400, 7200000, 21600000), h1);
  s.addEphemeris(&a); s.addEphemeris(&b); s.setOnlyHealthyFlag(only); ASSERT(s.getOnlyHealthyFlag() == only, "the choice is kept"); SatID q(1, SatelliteSystem::GPS); CommonTime t = at(k == 0 ? 3600000 : k == 1 ? 10000000 : 30000000); bool h = k == 0 ? h0 : h1, thrown = false; Xvt x;
  try { x = s.getXvt(q, t); } catch (InvalidRequest &) { thrown = true; } ASSERT(thrown == (k == 2 || (only && !h)), "positions come from valid data, and from unhealthy data only if not excluded"); if (!thrown) ASSERT((x.health == Xvt::HealthStatus::Healthy) == h && (x.health == Xvt::HealthStatus::Unhealthy) == !h, "the health of the position is that of the data");
  Xvt y = s.computeXvt(q, t); ASSERT((y.health == Xvt::HealthStatus::Unavailable) == (k == 2) && (y.health == Xvt::HealthStatus::Healthy) == (k < 2 && h), "computed positions report health and are never refused"); Xvt::HealthStatus g = s.getSVHealth(q, t); ASSERT(g == y.health, "health alone is the health of the position");
}
