// PROPERTY: E02
// SRC: core/lib/GNSSEph/GPSEphemeris.cpp core/lib/GNSSEph/GalEphemeris.cpp core/lib/GNSSEph/BDSEphemeris.cpp core/lib/GNSSEph/QZSEphemeris.cpp core/lib/GNSSEph/OrbitEph.cpp core/lib/TimeHandling/CommonTime.cpp core/lib/TimeHandling/WeekSecond.cpp core/lib/TimeHandling/Week.cpp core/lib/TimeHandling/MJD.cpp core/lib/TimeHandling/TimeConverters.cpp core/lib/RefTime/TimeSystem.cpp core/lib/Utilities/Exception.cpp core/lib/GNSSCore/SatelliteSystem.cpp core/lib/GNSSCore/ObsID.cpp core/lib/GNSSEph/EngEphemeris.cpp
// BOUND: ephemeris, clock and transmission epochs at any second of a week (the end of validity after an uploaded epoch for two (thorough tier eight) hours of the week with any second in them, and a short or a long fit interval), all fit intervals, query times at any millisecond of four weeks
// OUTSIDE: fractions of a second in the broadcast epochs (they are whole multiples of 16 s)
// OPT: merge=0 fpmode=2 query-timeout=40
#include "symx.h"
#include <sstream>
#include <map>
#include <list>
#include <set>
#include <iomanip>
#define protected public
#define private public
#include "CommonTime.hpp"
#include "GPSEphemeris.hpp"
#include "GalEphemeris.hpp"
#include "BDSEphemeris.hpp"
#include "QZSEphemeris.hpp"
#include "EngEphemeris.hpp"
#undef protected
#undef private
#include "GNSSconstants.hpp"
namespace gpstk { std::string printTime(const CommonTime &, const std::string &) { return ""; } }   // text of error messages only
using namespace gpstk;
static const int64_t DAY = 86400000, EP = 2444245, W0 = 2000;                // first day of GPS week 0; the week of the epochs
static CommonTime at(int64_t day, int64_t ms, TimeSystem s = TimeSystem::GPS) { CommonTime t(s); t.m_day = EP + W0 * 7 + day; t.m_msod = ms; t.m_fsod = 0; return t; }
static int64_t val(const CommonTime &t) { return ((int64_t)t.m_day - EP - W0 * 7) * DAY + t.m_msod; }
static CommonTime any(const char *n, TimeSystem s = TimeSystem::GPS) { int64_t d = symx_concretize(R((std::string(n) + "d").c_str(), 0, 6)); return at(d, R(n, 0, 86399) * 1000, s); }
static CommonTime anyms(const char *n, TimeSystem s = TimeSystem::GPS) { return at(R((std::string(n) + "d").c_str(), -14, 14), R(n, 0, DAY - 1), s); }
static GPSEphemeris mk() { static const short FITS[] = {4, 6, 8, 14, 26, 50, 74, 98, 122, 146}; GPSEphemeris e; e.dataLoadedFlag = true; e.satID = SatID(1, SatelliteSystem::GPS); e.fitDuration = FITS[symx_concretize(R("fit", 0, 9))]; e.ctToe = e.ctToc = e.transmitTime = at(0, 0); e.HOWtime = 0; return e; }
static void endOf(GPSEphemeris &e, int64_t d, int64_t h, int64_t off) {
  e.ctToe = at(d, (h * 3600 + off) * 1000); e.adjustValidity(); int64_t half = e.fitDuration / 2 * 3600, up = d * 86400 + (off ? h + 1 : h) * 3600;
  ASSERT(val(e.endValid) == (up + half) * 1000, "validity ends half a fit interval after the full hour of the epoch"); ASSERT(e.endValid.getTimeSystem() == TimeSystem::GPS, "time system of the validity");
}
ENTRY check_endfull() { GPSEphemeris e = mk(); endOf(e, symx_concretize(R("toed", 0, 6)), symx_concretize(R("hour", 0, 23)), 0); }
static const int64_t DH[][2] = {{0, 0}, {6, 23}, {3, 11}, {5, 2}, {1, 23}, {0, 22}, {2, 12}, {4, 7}};
static void endAt(int k, bool longfit) { GPSEphemeris e = mk(); e.fitDuration = longfit ? 146 : 4; endOf(e, DH[k][0], DH[k][1], R("toe", 1, 3599)); }
ENTRY check_end0() { endAt(0, false); }
ENTRY check_end1() { endAt(1, true); }
ENTRY check_t_end() { GPSEphemeris e = mk(); const int64_t *p = DH[symx_concretize(R("k", 0, 7))]; e.fitDuration = symx_concretize(U("long", 1)) ? 26 : 4; endOf(e, p[0], p[1], R("toe", 1, 3599)); }
ENTRY check_begin() {
  GPSEphemeris e = mk(); e.ctToc = any("toc"); e.HOWtime = R("how", 0, 604799); e.transmitTime = at(R("xd", 0, 6), 1000 * R("x", 0, 86399)); e.adjustValidity(); int64_t toc = val(e.ctToc) / 1000, half = e.fitDuration / 2 * 3600, b = val(e.beginValid);
  if (toc % 7200) ASSERT(b == (e.HOWtime - e.HOWtime % 30) * 1000, "data uploaded off the two-hour grid is valid from its transmission"); else ASSERT(b == (toc - half) * 1000, "validity of data on the two-hour grid begins half a fit interval before its epoch");
  ASSERT(e.beginValid.getTimeSystem() == TimeSystem::GPS, "time system of the validity");
}
