// PROPERTY: N04
// SRC: core/lib/NavFilter/CNav2SanityFilter.cpp core/lib/NavFilter/CNavFilterData.cpp core/lib/NavFilter/NavFilter.cpp core/lib/NavFilter/NavFilterKey.cpp core/lib/GNSSEph/PackedNavBits.cpp core/lib/Utilities/Exception.cpp
// SRC: core/lib/TimeHandling/CommonTime.cpp core/lib/RefTime/TimeSystem.cpp core/lib/TimeHandling/WeekSecond.cpp core/lib/TimeHandling/TimeConverters.cpp core/lib/TimeHandling/MJD.cpp core/lib/TimeHandling/TimeTag.cpp core/lib/GNSSCore/ObsID.cpp core/lib/GNSSEph/NavID.cpp
// BOUND: every CNAV-2 time of interval, week, interval time of week, satellite number and page, transmit time at every whole second of weeks 0 to 8191
// OUTSIDE: fractional transmit seconds, contents outside the identification fields
// OPT: fpmode=2 query-timeout=100
#include "symx.h"
#include "PackedNavBits.hpp"
#include "NavFilterKey.hpp"
#include "CNavFilterData.hpp"
#include "CNav2SanityFilter.hpp"
#include "GPSWeekSecond.hpp"
using namespace gpstk;
ENTRY check_sanity() {
  uint64_t toi = U("toi", 9), week = U("week", 13), itow = U("itow", 8), prn = U("prn", 8), page = U("page", 6);
  PackedNavBits p; p.addUnsignedLong(toi, 9, 1); p.addUnsignedLong(week, 13, 1); p.addUnsignedLong(itow, 8, 1); for (int i = 30; i < 609; i++) p.bits[i] = 0; p.bits_used = 609; p.addUnsignedLong(prn, 8, 1); p.addUnsignedLong(page, 6, 1); p.bits.resize(900); p.bits_used = 900;
  int64_t xw = R("xweek", 0, 8191), day = symx_concretize(R("xday", 0, 6)), sod = R("xsod", 0, 86399), xs = day * 86400 + sod; int sv = R("sv", 1, 63);
  CommonTime t(TimeSystem::GPS); t.m_day = 2444245 + xw * 7 + day; t.m_msod = 0;
  // GPS weeks begin at Sunday midnight, 6 January 1980 (JD 2444244.5)
  t.m_msod = sod * 1000; p.setTime(t); SatID s(sv, SatelliteSystem::GPS); p.setSatID(s);
  CNavFilterData d(&p); CNav2SanityFilter f; NavFilter::NavMsgList in, out; in.push_back(&d); f.validate(in, out);
  ASSERT(out.size() + f.rejected.size() == 1, "each message is either accepted or rejected once");
  ASSERT(d.prn == (uint32_t)sv, "satellite number is taken from the message data");
  // the time of interval belongs to the start of the following message, modulo one week
  int64_t next = (int64_t)itow * 7200 + (int64_t)toi * 18, start = next - 18; if (start < 0) start += 604800;
  bool ok = symx_and(symx_and(start == xs, (int64_t)week == xw), symx_and(prn == (uint64_t)sv, symx_and(page >= 1, page <= 6)));
  ASSERT((out.size() == 1) == ok, "accepted exactly when time, week, satellite and page are consistent with the transmission");
}
