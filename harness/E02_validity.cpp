// PROPERTY: E02
// SRC: core/lib/GNSSEph/GPSEphemeris.cpp core/lib/GNSSEph/GalEphemeris.cpp core/lib/GNSSEph/BDSEphemeris.cpp core/lib/GNSSEph/QZSEphemeris.cpp core/lib/GNSSEph/OrbitEph.cpp core/lib/TimeHandling/CommonTime.cpp core/lib/TimeHandling/WeekSecond.cpp core/lib/TimeHandling/Week.cpp core/lib/TimeHandling/TimeConverters.cpp core/lib/RefTime/TimeSystem.cpp core/lib/Utilities/Exception.cpp core/lib/GNSSCore/SatelliteSystem.cpp core/lib/GNSSCore/ObsID.cpp core/lib/GNSSEph/EngEphemeris.cpp
// BOUND: ephemeris, clock and transmission epochs at any second of a week, all fit intervals, query times at any millisecond of four weeks
// OUTSIDE: fractions of a second in the broadcast epochs (they are whole multiples of 16 s)
// OPT: fpmode=2 query-timeout=40
#include "symx.h"
#include <sstream>
#include <map>
#include <list>
#include <set>
#include <iomanip>
#define protected public
#define private public
#include "CommonTime.hpp"
#include "GPSEphemeris.hpp"
#include "GalEphemeris.hpp"
#include "BDSEphemeris.hpp"
#include "QZSEphemeris.hpp"
#include "EngEphemeris.hpp"
#undef protected
#undef private
#include "GNSSconstants.hpp"
namespace gpstk { std::string printTime(const CommonTime &, const std::string &) { return ""; } }   // text of error messages only
using namespace gpstk;
static const int64_t DAY = 86400000, EP = 2444245, W0 = 2000;                // first day of GPS week 0; the week of the epochs
static CommonTime at(int64_t day, int64_t ms, TimeSystem s = TimeSystem::GPS) { CommonTime t(s); t.m_day = EP + W0 * 7 + day; t.m_msod = ms; t.m_fsod = 0; return t; }
static int64_t val(const CommonTime &t) { return ((int64_t)t.m_day - EP - W0 * 7) * DAY + t.m_msod; }
static CommonTime any(const char *n, TimeSystem s = TimeSystem::GPS) { int64_t d = symx_concretize(R((std::string(n) + "d").c_str(), 0, 6)); return at(d, R(n, 0, 86399) * 1000, s); }
static CommonTime anyms(const char *n, TimeSystem s = TimeSystem::GPS) { return at(R((std::string(n) + "d").c_str(), -14, 14), R(n, 0, DAY - 1), s); }
// IS-GPS-200 Table 20-XII, with the intervals of older revisions
static int fit(int iodc, int flag, bool old) {
  if (flag != 1 || iodc < 0 || iodc > 1023) return 4;
  if ((iodc & 255) < 240) return 6;
  if (iodc <= 247) return 8;
  if (iodc <= 255 || iodc == 496) return 14;
  if ((iodc >= 497 && iodc <= 503) || iodc >= 1021) return 26;
  if (iodc >= 504 && iodc <= 510) return 50;
  if (iodc == 511 || (iodc >= 752 && iodc <= 756)) return 74;
  if (iodc == 757) return 98;
  if (old) { if (iodc >= 758 && iodc <= 763) return 98; if ((iodc >= 764 && iodc <= 767) || (iodc >= 1008 && iodc <= 1010)) return 122; if (iodc >= 1011 && iodc <= 1020) return 146; }
  return -1;                                                                  // not in the table
}
ENTRY check_fitgps() { int iodc = S("iodc", 16), f = S("flag", 16), w = fit(iodc, f, true); ASSERT(GPSEphemeris::getFitInterval(iodc, f) == (w < 0 ? 4 : w), "the fit interval is that of the specification"); }
ENTRY check_fiteng() { int iodc = S("iodc", 16), f = S("flag", 16), w = fit(iodc, f, true); ASSERT(EngEphemeris::getFitInterval(iodc, f) == (w < 0 ? 4 : w), "the fit interval is that of the specification"); }
ENTRY check_fitlegacy() { int iodc = S("iodc", 16), f = S("flag", 16), w = fit(iodc, f, false), g = -1; try { g = getLegacyFitInterval(iodc, f); } catch (InvalidRequest &) {} if (w > 0) ASSERT(g == w, "the fit interval is that of the specification"); else ASSERT(g == -1 || g >= 4, "an undefined fit interval is refused or the shortest"); }
ENTRY check_fitqzs() { int f = S("flag", 16); ASSERT(QZSEphemeris::getFitInterval(f) == (f == 0 ? 2 : 4), "the fit interval is that of the specification"); }
ENTRY check_gal() { GalEphemeris e; e.dataLoadedFlag = true; e.satID = SatID(1, SatelliteSystem::Galileo); e.ctToe = anyms("toe", TimeSystem::GAL); e.transmitTime = anyms("x", TimeSystem::GAL); e.adjustValidity(); ASSERT(val(e.beginValid) == val(e.transmitTime) && val(e.endValid) == val(e.ctToe) + 4 * 3600000, "Galileo data is valid from its transmission to four hours after its epoch"); }
ENTRY check_bds() { BDSEphemeris e; e.dataLoadedFlag = true; e.satID = SatID(1, SatelliteSystem::BeiDou); e.ctToe = anyms("toe", TimeSystem::BDT); e.transmitTime = anyms("x", TimeSystem::BDT); e.adjustValidity(); int64_t t = val(e.ctToe), x = val(e.transmitTime); ASSERT(val(e.beginValid) == (x > t ? x : t) && val(e.endValid) == t + 7 * DAY, "BeiDou data is valid from the later of epoch and transmission for a week"); }
ENTRY check_qzs() { QZSEphemeris e; e.dataLoadedFlag = true; e.satID = SatID(1, SatelliteSystem::QZSS); e.ctToe = anyms("toe", TimeSystem::QZS); e.transmitTime = anyms("x", TimeSystem::QZS); int f = symx_concretize(R("f", 0, 1)); e.setFitIntervalFlag(f); ASSERT(val(e.beginValid) == val(e.transmitTime) && val(e.endValid) == val(e.ctToe) + (f ? 2 : 1) * 3600000, "QZSS data is valid from its transmission to half a fit interval after its epoch"); }
template <class T> static void within(TimeSystem s) {
  T e; e.dataLoadedFlag = true; e.beginValid = anyms("b", s); e.endValid = anyms("e", s); CommonTime t = anyms("t", s);
  ASSERT(e.isValid(t) == symx_and(val(e.beginValid) <= val(t), val(t) <= val(e.endValid)), "data is valid exactly within its span, both ends included");
}
ENTRY check_withingps() { within<GPSEphemeris>(TimeSystem::GPS); }
ENTRY check_withingal() { within<GalEphemeris>(TimeSystem::GAL); }
ENTRY check_withinbds() { within<BDSEphemeris>(TimeSystem::BDT); }
ENTRY check_withinqzs() { within<QZSEphemeris>(TimeSystem::QZS); }
ENTRY check_withinorb() { within<OrbitEph>(TimeSystem::GPS); }
ENTRY check_health() {
  short h = S("h", 16); GPSEphemeris g; g.dataLoadedFlag = true; g.health = h; ASSERT(g.isHealthy() == (h == 0), "GPS data is healthy exactly when its health word is zero");
  BDSEphemeris b; b.dataLoadedFlag = true; b.health = h; ASSERT(b.isHealthy() == (h == 0), "BeiDou data is healthy exactly when its health word is zero");
  QZSEphemeris q; q.dataLoadedFlag = true; q.health = h; ASSERT(q.isHealthy() == ((h & 0x1e) == 0), "QZSS data is healthy exactly when all signals but LEX are");
  for (int i = 1; i <= 5; i++) ASSERT(q.isHealthy(i) == ((h >> (i - 1) & 1) == 0), "health of a QZSS signal"); ASSERT(!q.isHealthy(0) && !q.isHealthy(6), "unknown QZSS signals are not healthy");
}
ENTRY check_notloaded() {
  GPSEphemeris g; g.dataLoadedFlag = false; MUSTTHROW(InvalidRequest, g.isHealthy(), "health of empty data is refused"); MUSTTHROW(InvalidRequest, g.adjustValidity(), "validity of empty data is refused");
  BDSEphemeris b; b.dataLoadedFlag = false; MUSTTHROW(InvalidRequest, b.isHealthy(), "health of empty data is refused"); MUSTTHROW(InvalidRequest, b.adjustValidity(), "validity of empty data is refused");
  QZSEphemeris q; q.dataLoadedFlag = false; MUSTTHROW(InvalidRequest, q.isHealthy(), "health of empty data is refused"); MUSTTHROW(InvalidRequest, q.adjustValidity(), "validity of empty data is refused");
  GalEphemeris e; e.dataLoadedFlag = false; MUSTTHROW(InvalidRequest, e.adjustValidity(), "validity of empty data is refused"); OrbitEph o; o.dataLoadedFlag = false; MUSTTHROW(InvalidRequest, o.isHealthy(), "health of empty data is refused");
}
// accuracy indices (IS-GPS-200 20.3.3.3.1.3 and 30.3.3.1.1.4)
static const double UP[] = {2.4, 3.4, 4.85, 6.85, 9.65, 13.65, 24, 48, 96, 192, 384, 768, 1536, 3072, 6144, 9.999999999999e99};
static const double NOM[] = {2, 2.8, 4, 5.7, 8, 11.3, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 9.999999999999e99};
static const double CUP[] = {0.01, 0.02, 0.03, 0.04, 0.06, 0.08, 0.11, 0.15, 0.21, 0.30, 0.43, 0.60, 0.85, 1.20, 1.7};
static const double CNOM[] = {0.011049, 0.015625, 0.022097, 0.03125, 0.044194, 0.0625, 0.088388, 0.125, 0.176777, 0.25, 0.353553, 0.5, 0.707107, 1, 1.414214};
ENTRY check_ura() {
  int u = symx_concretize(R("u", -17, 17)), c = u < 0 ? 0 : u > 15 ? 15 : u;
  ASSERT(ura2accuracy(u) == UP[c] && ura2nominalAccuracy(u) == NOM[c], "accuracy of an index");
  bool ok = u >= -15 && u <= 15; double x = 0, y = 0; bool t1 = false, t2 = false; try { x = ura2CNAVaccuracy(u); } catch (InvalidRequest &) { t1 = true; } try { y = ura2CNAVNominalaccuracy(u); } catch (InvalidRequest &) { t2 = true; }
  ASSERT(t1 == !ok && t2 == !ok, "exactly the undefined CNAV indices are refused"); if (ok) { ASSERT(x == (u < 0 ? CUP[u + 15] : UP[u]), "upper accuracy of a CNAV index"); ASSERT(y == (u < 0 ? CNOM[u + 15] : NOM[u]), "nominal accuracy of a CNAV index"); }
}
ENTRY check_acc() {
  double a = F("a"); ASSUME(a >= 0); int u = accuracy2ura(a), n = nominalAccuracy2ura(a), c = accuracy2CNAVura(a); ASSERT(u >= 0 && u <= 15 && n >= 0 && n <= 15 && c >= -15 && c <= 15, "indices are defined");
  ASSERT(symx_and(symx_or(a <= UP[u], u == 15), symx_or(u == 0, a > UP[u ? u - 1 : 0])), "the index is the smallest that covers the accuracy");
  ASSERT(symx_and(symx_or(a <= NOM[n], n == 15), symx_or(n == 0, a > NOM[n ? n - 1 : 0])), "the nominal index is the smallest that covers the accuracy");
  auto cu = [](int k) { return k < 0 ? CUP[k + 15] : UP[k]; }; ASSERT(symx_and(symx_or(a <= cu(c), c == 15), symx_or(c == -15, a > cu(c > -15 ? c - 1 : c))), "the CNAV index is the smallest that covers the accuracy");
}
