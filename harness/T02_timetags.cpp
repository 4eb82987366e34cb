// PROPERTY: T02
// SRC: core/lib/TimeHandling/CommonTime.cpp core/lib/TimeHandling/TimeConverters.cpp core/lib/TimeHandling/WeekSecond.cpp core/lib/TimeHandling/Week.cpp core/lib/TimeHandling/GPSWeek.cpp core/lib/TimeHandling/GPSWeekZcount.cpp core/lib/TimeHandling/GPSZcount.cpp core/lib/TimeHandling/TimeTag.cpp core/lib/TimeHandling/YDSTime.cpp core/lib/TimeHandling/UnixTime.cpp core/lib/TimeHandling/PosixTime.cpp core/lib/TimeHandling/ANSITime.cpp core/lib/TimeHandling/MJD.cpp core/lib/TimeHandling/JulianDate.cpp core/lib/TimeHandling/CivilTime.cpp core/lib/RefTime/TimeSystem.cpp core/lib/Utilities/Exception.cpp core/lib/Utilities/StringUtils.cpp
// BOUND: every day from the epoch of the format (or 4713 BC) to 4713 AD, every millisecond, every sub-millisecond fraction up to 1 ns before the next millisecond
// OUTSIDE: fractions within 1 ns of the next millisecond
// OPT: fpmode=2 query-timeout=30
#include "symx.h"
#define protected public
#include "CommonTime.hpp"
#undef protected
#include "TimeConverters.hpp"
#include "GPSWeekSecond.hpp"
#include "GALWeekSecond.hpp"
#include "BDSWeekSecond.hpp"
#include "QZSWeekSecond.hpp"
#include "IRNWeekSecond.hpp"
#include "GPSWeekZcount.hpp"
#include "YDSTime.hpp"
#include "UnixTime.hpp"
#include "PosixTime.hpp"
#include "ANSITime.hpp"
#include "MJD.hpp"
#include "JulianDate.hpp"
#include "CivilTime.hpp"
#include <cmath>
using namespace gpstk;
static const long DAYMS = 86400000;
static CommonTime mk(long lo, long hi = 3442447, double edge = 1e-9) {
  CommonTime t(TimeSystem::GPS); double fs = F("f"); ASSUME(fs >= 0.0 && fs < 0.001 - edge);
  t.m_day = R("d", lo, hi); t.m_msod = R("m", 0, DAYMS - 1); t.m_fsod = fs; return t;
}
static long total(const CommonTime &t) { return t.m_day * DAYMS + t.m_msod; }
// a and b are the same instant up to tol seconds
static bool near_(const CommonTime &a, const CommonTime &b, double tol) {
  double x = (double)(total(a) - total(b)) * 0.001 + (a.m_fsod - b.m_fsod);
  return symx_and(fabs(x) <= tol, a.m_timeSystem == b.m_timeSystem);
}
template<class WS> static void weeksec(long mjdEpoch, int bits) {
  long ep = 2400001 + mjdEpoch;
  CommonTime t = mk(ep); WS w(t);
  long W = 7 * DAYMS, r = total(t) - ep * DAYMS - w.week * W;
  ASSERT(symx_and(symx_and(r >= 0, r < W), w.timeSystem == TimeSystem::GPS), "week is the number of whole weeks since the epoch");
  ASSERT(fabs(w.sow - ((double)r * 0.001 + t.m_fsod)) < 1e-9, "second of week");
  ASSERT(w.isValid(), "conversion of a representable time is valid");
  double d = (double)w.getDayOfWeek() * 86400.0;
  ASSERT(d <= w.sow && w.sow < d + 86400.0, "day of week");
  ASSERT(symx_and(w.getModWeek() == (unsigned)w.week % (1u << bits), w.getEpoch() == (unsigned)w.week >> bits), "short week and rollover count");
  ASSERT(symx_and(w.MJDEpoch() == mjdEpoch, symx_and(w.Nbits() == bits, w.rollover() == 1 << bits)), "parameters of the system");
}
template<class WS> static void weekback(long mjdEpoch) {
  long ep = 2400001 + mjdEpoch;
  CommonTime t = mk(ep); WS w(t);
  ASSERT(near_(w.convertToCommonTime(), t, 1e-9), "week and second of week convert back to the same time");
}
template<class WS> static void before(long mjdEpoch) {
  long ep = 2400001 + mjdEpoch; CommonTime t = mk(0, ep - 1); t.m_fsod = 0; ASSUME(t.m_day < ep - 1 || t.m_msod < DAYMS - 1000);
  bool thrown = false; try { WS w(t); } catch (InvalidRequest &) { thrown = true; }
  ASSERT(thrown, "times before the epoch are refused");
}
ENTRY check_gps() { weeksec<GPSWeekSecond>(44244, 10); }
ENTRY check_gpsback() { weekback<GPSWeekSecond>(44244); }
ENTRY check_gpsbefore() { before<GPSWeekSecond>(44244); }
ENTRY check_gal() { weeksec<GALWeekSecond>(51412, 12); }
ENTRY check_galback() { weekback<GALWeekSecond>(51412); }
ENTRY check_galbefore() { before<GALWeekSecond>(51412); }
ENTRY check_bds() { weeksec<BDSWeekSecond>(53736, 13); }
ENTRY check_bdsback() { weekback<BDSWeekSecond>(53736); }
ENTRY check_bdsbefore() { before<BDSWeekSecond>(53736); }
ENTRY check_qzs() { weeksec<QZSWeekSecond>(44244, 16); }
ENTRY check_qzsback() { weekback<QZSWeekSecond>(44244); }
ENTRY check_qzsbefore() { before<QZSWeekSecond>(44244); }
ENTRY check_irn() { weeksec<IRNWeekSecond>(51412, 10); }
ENTRY check_irnback() { weekback<IRNWeekSecond>(51412); }
ENTRY check_irnbefore() { before<IRNWeekSecond>(51412); }
static void zcount(CommonTime t) {
  long ep = 2400001 + 44244; GPSWeekZcount z(t);
  long W = 7 * DAYMS, x = total(t) - ep * DAYMS - z.week * W, r = x - (long)z.zcount * 1500;
  ASSERT(symx_and(x >= 0, x < W), "Z-count week");
  ASSERT(symx_and(r >= 0, r < 1500), "Z-count is the number of whole 1.5 s steps in the week");
  ASSERT(z.isValid(), "Z-count of a representable time is valid");
}
ENTRY check_zcount() { CommonTime t = mk(2400001 + 44244); ASSUME(t.m_fsod > 1e-9); zcount(t); }
ENTRY check_zback() {
  GPSWeekZcount z(R("w", 0, 140000), R("z", 0, 403199)); CommonTime b = z.convertToCommonTime();
  ASSERT(symx_and(total(b) == (2400001L + 44244) * DAYMS + z.week * 7 * DAYMS + (long)z.zcount * 1500, symx_and(fabs(b.m_fsod) < 1e-15, b.m_timeSystem == TimeSystem::GPS)), "Z-count converts to the start of its 1.5 s step");
  ASSERT(symx_and(z.getZcount29() == (((unsigned)z.week & 1023) << 19 | (unsigned)z.zcount), z.getZcount32() == ((unsigned)z.week << 19 | (unsigned)z.zcount)), "29 and 32 bit Z-counts");
}
ENTRY check_zset() {
  GPSWeekZcount z(R("w", 0, 140000), R("z", 0, 403199)), o = z; unsigned n = U("n", 32);
  z.setZcount32(n); ASSERT(symx_and((unsigned)z.week == n >> 19, (unsigned)z.zcount == (n & 0x7ffff)), "set from a 32 bit Z-count");
  z = o; z.setZcount29(n); ASSERT(symx_and((unsigned)z.week == (((unsigned)o.week & ~1023u) | ((n >> 19) & 1023)), (unsigned)z.zcount == (n & 0x7ffff)), "a 29 bit Z-count keeps the rollover count");
}
ENTRY check_zbefore() {
  CommonTime t = mk(0, 2400001 + 44244 - 1); bool thrown = false;
  try { GPSWeekZcount z(t); } catch (InvalidRequest &) { thrown = true; }
  ASSERT(thrown, "times before the GPS epoch have no Z-count");
}
static void ydsdate(long lo, long hi) {
  CommonTime t(TimeSystem::GPS); t.m_day = R("d", lo, hi); YDSTime y(t);
  int yy, mm, dd; convertJDtoCalendar(t.m_day, yy, mm, dd);
  ASSERT(y.year == yy, "year");
  ASSERT(t.m_day == convertCalendarToJD(yy, 1, 1) + y.doy - 1, "day of year");
  ASSERT(y.sod == 0, "midnight");
}
ENTRY check_ydsdate1() { ydsdate(2415021, 2451544); }
ENTRY check_ydsdate2() { ydsdate(2451545, 2488069); }
ENTRY check_ydssod() {
  CommonTime t = mk(2451545, 2451545); YDSTime y(t);
  ASSERT(symx_and(y.sod >= 0, fabs(y.sod - ((double)t.m_msod * 0.001 + t.m_fsod)) < 1e-10), "second of day");
  ASSERT(near_(y.convertToCommonTime(), t, 1e-10), "year, day of year and second convert back");
}
ENTRY check_ydsback() {
  YDSTime y(R("y", 1900, 2200), R("doy", 1, 366), 43200.0, TimeSystem::UTC); CommonTime t = y.convertToCommonTime();
  ASSERT(symx_and(t.m_day == convertCalendarToJD(y.year, 1, 1) + y.doy - 1, symx_and(t.m_msod == 43200000, t.m_timeSystem == TimeSystem::UTC)), "day of year converts to the day");
}
ENTRY check_civildate() {
  CommonTime t(TimeSystem::GPS); t.m_day = R("d", 0, 3442447); CivilTime c(t);
  int yy, mm, dd; convertJDtoCalendar(t.m_day, yy, mm, dd);
  ASSERT(symx_and(c.year == yy, symx_and(c.month == mm, c.day == dd)), "calendar date");
}
ENTRY check_civil() {
  CommonTime t = mk(2451545, 2451545); CivilTime c(t);
  ASSERT(symx_and(c.year == 2000, symx_and(c.month == 1, c.day == 1)), "date does not depend on the time of day");
  long r = t.m_msod - c.hour * 3600000L - c.minute * 60000L;
  ASSERT(symx_and(symx_and(r >= 0, r < 60000), symx_and(c.minute >= 0, c.minute < 60)), "hour and minute");
  ASSERT(fabs(c.second - ((double)r * 0.001 + t.m_fsod)) < 1e-9, "second of minute");
}
ENTRY check_civilback() {
  CivilTime c(2020, 6, 15, R("h", 0, 23), R("mi", 0, 59), 0.0, TimeSystem::GPS); double s = F("s"); ASSUME(s >= 0 && s < 60 - 1e-9); c.second = s;
  CommonTime t = c.convertToCommonTime();
  double x = (double)t.m_msod * 0.001 + t.m_fsod;
  ASSERT(fabs(x - (c.hour * 3600.0 + c.minute * 60.0 + s)) < 1e-10 && t.m_day == convertCalendarToJD(2020, 6, 15) && t.m_timeSystem == TimeSystem::GPS, "civil time converts to the same instant");
}
ENTRY check_unix() {
  CommonTime t = mk(2400001 + 40587, 2400001 + 40587 + 100000); UnixTime u(t);
  long us = (total(t) - (2400001L + 40587) * DAYMS) * 1000; long got = (long)u.tv.tv_sec * 1000000 + u.tv.tv_usec;
  ASSERT(symx_and(u.tv.tv_usec >= 0, u.tv.tv_usec < 1000000), "microseconds are in range");
  ASSERT(fabs((double)(got - us) - t.m_fsod * 1e6) <= 0.5 + 1e-6, "nearest microsecond since 1970");
  ASSERT(near_(u.convertToCommonTime(), t, 0.6e-6), "Unix time converts back within a microsecond");
}
ENTRY check_unixneg() {
  CommonTime t = mk(0, 2400001 + 40586); UnixTime u(t);
  ASSERT(near_(u.convertToCommonTime(), t, 0.6e-6), "Unix time before 1970 converts back within a microsecond");
}
ENTRY check_posix() {
  CommonTime t = mk(2400001 + 40587, 2400001 + 40587 + 24854); PosixTime u(t);
  long ns = (total(t) - (2400001L + 40587) * DAYMS) * 1000000; long got = (long)u.ts.tv_sec * 1000000000 + u.ts.tv_nsec;
  ASSERT(symx_and(u.ts.tv_nsec >= 0, u.ts.tv_nsec < 1000000000), "nanoseconds are in range");
  ASSERT(fabs((double)(got - ns) - t.m_fsod * 1e9) <= 0.5 + 1e-6, "nearest nanosecond since 1970");
  ASSERT(near_(u.convertToCommonTime(), t, 0.6e-9), "Posix time converts back within a nanosecond");
}
// the last nanosecond of a millisecond, where rounding carries
static CommonTime edge(long lo, long hi) { CommonTime t(TimeSystem::GPS); double fs = F("f"); ASSUME(fs >= 0.001 - 1e-9 && fs < 0.001); t.m_day = R("d", lo, hi); t.m_msod = R("m", 0, DAYMS - 1); t.m_fsod = fs; return t; }
ENTRY check_unixedge() {
  CommonTime t = edge(2400001 + 40587, 2400001 + 40587 + 100000); UnixTime u(t);
  long us = (total(t) - (2400001L + 40587) * DAYMS) * 1000; long got = (long)u.tv.tv_sec * 1000000 + u.tv.tv_usec;
  ASSERT(symx_and(u.tv.tv_usec >= 0, u.tv.tv_usec < 1000000), "microseconds are in range at the end of a millisecond");
  ASSERT(got - us == 1000, "nearest microsecond at the end of a millisecond");
}
ENTRY check_posixedge() {
  CommonTime t = edge(2400001 + 40587, 2400001 + 40587 + 24854); PosixTime u(t);
  long ns = (total(t) - (2400001L + 40587) * DAYMS) * 1000000; long got = (long)u.ts.tv_sec * 1000000000 + u.ts.tv_nsec;
  ASSERT(symx_and(u.ts.tv_nsec >= 0, u.ts.tv_nsec < 1000000000), "nanoseconds are in range at the end of a millisecond");
  ASSERT(fabs((double)(got - ns) - t.m_fsod * 1e9) <= 0.5 + 1e-6, "nearest nanosecond at the end of a millisecond");
}
ENTRY check_ansi() {
  CommonTime t = mk(2400001 + 40587, 2400001 + 40587 + 24854); ANSITime u(t);
  ASSERT(u.time == (total(t) - (2400001L + 40587) * DAYMS) / 1000, "whole seconds since 1970");
  ASSERT(near_(u.convertToCommonTime(), t, 1.0), "seconds since 1970 convert back within a second");
}
ENTRY check_range() {
  CommonTime t = mk(0); bool in = symx_and(total(t) >= (2400001L + 40587) * DAYMS, total(t) <= (2400001L + 40587) * DAYMS + 2147483647000L);
  ASSUME(t.m_fsod == 0); bool a = false, p = false;
  try { ANSITime u(t); } catch (InvalidRequest &) { a = true; }
  ASSERT(a == !in, "exactly times of the 31-bit second count have an ANSI time");
}
ENTRY check_mjd() {
  CommonTime t = mk(0); MJD m(t);
  ASSERT(fabsl(m.mjd - ((long double)(t.m_day - 2400001) + ((long double)t.m_msod * 0.001L + t.m_fsod) / 86400.0L)) < 1e-12L, "modified Julian date");
}
ENTRY check_mjdback() { CommonTime t = mk(2458850, 2458851); t.m_fsod = 0; MJD m(t); ASSERT(near_(m.convertToCommonTime(), t, 1e-7), "modified Julian date converts back"); }
ENTRY check_jd() {
  CommonTime t = mk(0); JulianDate m(t);
  ASSERT(fabsl(m.jd - ((long double)t.m_day - 0.5L + ((long double)t.m_msod * 0.001L + t.m_fsod) / 86400.0L)) < 1e-11L, "Julian date");
}
static void sod(double s, long k) {
  ASSUME(s >= 86400.0 * k && s < 86400.0 * (k + 1) - 1e-9);
  int h, m; double sec; convertSODtoTime(s, h, m, sec);
  ASSERT(symx_and(symx_and(h >= 0, h <= 23), symx_and(m >= 0, m <= 59)) && sec >= 0 && sec <= 60.0, "hour, minute and second are in range");
  ASSERT(fabs(s - (double)(86400 * k + 3600L * h + 60L * m) - sec) < 1e-8, "hour, minute and second are the time of day, whatever the sign");
}
ENTRY check_sod() { sod(F("s"), 0); }
ENTRY check_sodnext() { sod(F("s"), 1); }
ENTRY check_sodneg() { sod(F("s"), -1); }
ENTRY check_todsod() {
  int h = R("h", 0, 23), m = R("m", 0, 59); double s = F("s"); ASSUME(s >= 0 && s < 61);
  ASSERT(fabs(convertTimeToSOD(h, m, s) - ((double)(3600L * h + 60L * m) + s)) < 1e-10, "second of day of a time of day");
}
ENTRY check_sodneg3() { sod(F("s"), -3); }
