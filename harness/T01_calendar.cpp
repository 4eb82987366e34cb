// PROPERTY: T01
// SRC: core/lib/TimeHandling/TimeConverters.cpp
// BOUND: every day number 0..3442448 (4713 BC .. 4713 AD) and every calendar date of that span
// OUTSIDE: dates outside the span, and the ten dates dropped by the Gregorian reform
// OPT: fpmode=2 query-timeout=150
#include "symx.h"
#include "TimeConverters.hpp"
using namespace gpstk;
static bool leap(int y) { int a = y < 0 ? y + 1 : y; return a < 1582 ? a % 4 == 0 : a % 4 == 0 && (a % 100 != 0 || a % 400 == 0); }
static int mdays(int y, int m) { static const int D[13] = {0, 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; return m == 2 && leap(y) ? 29 : D[m]; }
// date(jd+1) follows date(jd) in the calendar; with one anchor date this fixes the whole conversion
static void succ(long lo, long hi) {
  long jd = R("jd", lo, hi); int y, m, d, y2, m2, d2;
  convertJDtoCalendar(jd, y, m, d); convertJDtoCalendar(jd + 1, y2, m2, d2);
  symx_observe("y", (uint32_t)y); symx_observe("m", m); symx_observe("d", d);
  ASSERT(symx_and(m >= 1, m <= 12) && d >= 1 && d <= 31 && y != 0, "month and day in range, no year zero");
  ASSERT(symx_or(symx_and(symx_and(y2 == y, m2 == m), d2 == d + 1), d2 == (jd == 2299160 ? 15 : 1)), "the day advances by one or a month begins");
  bool last = symx_and(d == mdays(y, m), m == 12);
  ASSERT(symx_or(d2 != 1, symx_or(symx_and(symx_and(y2 == y, m2 == m + 1), d == mdays(y, m)), symx_and(symx_and(y2 == (y == -1 ? 1 : y + 1), m2 == 1), last))), "a month begins only after the last day of the preceding one");
}
static void back(long lo, long hi) {
  long jd = R("jd", lo, hi); int y, m, d;
  convertJDtoCalendar(jd, y, m, d);
  ASSERT(convertCalendarToJD(y, m, d) == jd, "calendar date converts back to the same day");
}
ENTRY check_anchor() {
  int y, m, d; convertJDtoCalendar(2451545, y, m, d); ASSERT(y == 2000 && m == 1 && d == 1, "JD 2451545 is 2000-01-01");
  ASSERT(convertCalendarToJD(2000, 1, 1) == 2451545, "2000-01-01 is JD 2451545");
  convertJDtoCalendar(0, y, m, d); ASSERT(y == -4713 && m == 1 && d == 1, "JD 0 is the first day of 4713 BC");
  convertJDtoCalendar(2299160, y, m, d); ASSERT(y == 1582 && m == 10 && d == 4, "last Julian date");
}
ENTRY check_succ00() { succ(0, 229999); }
ENTRY check_back00() { back(0, 229999); }
ENTRY check_succ01() { succ(230000, 459999); }
ENTRY check_back01() { back(230000, 459999); }
ENTRY check_succ02() { succ(460000, 689999); }
ENTRY check_back02() { back(460000, 689999); }
ENTRY check_succ03() { succ(690000, 919999); }
ENTRY check_back03() { back(690000, 919999); }
ENTRY check_succ04() { succ(920000, 1149999); }
ENTRY check_back04() { back(920000, 1149999); }
ENTRY check_succ05() { succ(1150000, 1379999); }
ENTRY check_back05() { back(1150000, 1379999); }
ENTRY check_succ06() { succ(1380000, 1609999); }
ENTRY check_back06() { back(1380000, 1609999); }
ENTRY check_succ07() { succ(1610000, 1839999); }
ENTRY check_back07() { back(1610000, 1839999); }
ENTRY check_succ08() { succ(1840000, 2069999); }
ENTRY check_back08() { back(1840000, 2069999); }
ENTRY check_succ09() { succ(2070000, 2299159); }
ENTRY check_back09() { back(2070000, 2299159); }
ENTRY check_succ10() { succ(2299160, 2299160); }
ENTRY check_back10() { back(2299160, 2299160); }
ENTRY check_succ11() { succ(2299161, 2681999); }
ENTRY check_back11() { back(2299161, 2681999); }
ENTRY check_succ12() { succ(2682000, 3064999); }
ENTRY check_back12() { back(2682000, 3064999); }
ENTRY check_succ13() { succ(3065000, 3442448); }
ENTRY check_back13() { back(3065000, 3442448); }
