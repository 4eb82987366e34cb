// PROPERTY: S01
// SRC: core/lib/GNSSCore/SVNumXRef.cpp core/lib/TimeHandling/TimeRange.cpp core/lib/TimeHandling/CommonTime.cpp core/lib/TimeHandling/CivilTime.cpp core/lib/TimeHandling/TimeConverters.cpp core/lib/RefTime/TimeSystem.cpp core/lib/Utilities/Exception.cpp core/lib/Utilities/StringUtils.cpp
// BOUND: every PRN and space vehicle number from 0 to 99, every millisecond of the years 1978 to 2057
// OUTSIDE: whether the dates of the assignments are those of the constellation; the text listing
// ASSUMES: the block of a space vehicle number is that of the published numbering (I: 1-11, II: 13-21, IIA: 22-40, IIR: 41-61 of which 48, 49, 50, 52, 53, 55, 57, 58 IIR-M, IIF: 62-73, III: from 74)
// OPT: merge=0
#include "symx.h"
#include <sstream>
#include <map>
#include <list>
#include <set>
#include <iomanip>
#define protected public
#define private public
#include "SVNumXRef.hpp"
#undef protected
#undef private
namespace gpstk { std::string printTime(const CommonTime &, const std::string &) { return ""; } class TimeTag; }
using namespace gpstk;
static SVNumXRef &table() { static SVNumXRef x; return x; }
static CommonTime anyTime() { CommonTime t; t.m_day = R("day", 2443510, 2472000); t.m_msod = R("ms", 0, 86399999); t.m_fsod = 0; t.m_timeSystem = TimeSystem::Any; return t; }
static int anyNum(const char *n) { return symx_concretize(R(n, 0, 99)); }
ENTRY check_fromprn() {
  int p = anyNum("prn"); CommonTime t = anyTime(); bool av = table().NAVSTARIDAvailable(p, t); int n = -1; bool thrown = false; try { n = table().getNAVSTAR(p, t); } catch (NoNAVSTARNumberFound &) { thrown = true; }
  ASSERT(av == !thrown, "a satellite is found exactly if one is available");
  if (av) { int q = -1; NOTHROW(q = table().getPRNID(n, t), "the satellite found has a number then"); ASSERT(q == p, "the satellite transmitting a number has that number"); ASSERT(table().PRNIDAvailable(n, t) && table().NAVSTARIDActive(n, t), "the satellite found is active"); ASSERT(table().BlockTypeAvailable(n), "the satellite found belongs to a block"); }
}
ENTRY check_fromsvn() {
  int n = anyNum("svn"); CommonTime t = anyTime(); bool av = table().PRNIDAvailable(n, t); ASSERT(av == table().NAVSTARIDActive(n, t), "a satellite is active exactly if it has a number"); int p = -1; bool thrown = false; try { p = table().getPRNID(n, t); } catch (Exception &) { thrown = true; }
  ASSERT(av == !thrown, "a number is found exactly if one is available");
  if (av) { ASSERT(p >= 1 && p <= 32, "numbers are those of GPS"); ASSERT(table().NAVSTARIDAvailable(p, t), "the number found is in use"); int m = -1; NOTHROW(m = table().getNAVSTAR(p, t), "the number found is in use"); ASSERT(m == n, "a number is transmitted by the satellite that has it"); }
}
ENTRY check_exclusive() {
  int p = anyNum("prn"); CommonTime t = anyTime(); auto r = table().PtoNMap.equal_range(p); int held = 0; for (auto i = r.first; i != r.second; ++i) held += i->second.isApplicable(t) ? 1 : 0; ASSERT(held <= 1, "a number belongs to at most one satellite at a time");
}
ENTRY check_single() {
  int n = anyNum("svn"); CommonTime t = anyTime(); auto r = table().NtoPMap.equal_range(n); int held = 0; for (auto i = r.first; i != r.second; ++i) held += i->second.isApplicable(t) ? 1 : 0; ASSERT(held <= 1, "a satellite has at most one number at a time");
}
ENTRY check_block() {
  int n = symx_concretize(R("svn", -2, 120)); bool av = table().BlockTypeAvailable(n), m = n == 48 || n == 49 || n == 50 || n == 52 || n == 53 || n == 55 || n == 57 || n == 58; SVNumXRef::BlockType b = SVNumXRef::I; bool thrown = false; try { b = table().getBlockType(n); } catch (NoNAVSTARNumberFound &) { thrown = true; }
  ASSERT(av == !thrown, "a block is found exactly if one is available"); static const char *const NAME[] = {"Block I", "Block II", "Block IIA", "Block IIR", "Block IIR_M", "Block IIF", "GPS III"};
  if (av) { ASSERT(n > 0 && n < 80, "only satellites have a block"); int w = n <= 11 ? 0 : n <= 21 ? 1 : n <= 40 ? 2 : n <= 61 ? (m ? 4 : 3) : n <= 73 ? 5 : 6; ASSERT((int)b == w, "the block is that of the published numbering"); ASSERT(table().getBlockTypeString(n) == NAME[w], "the name of the block is that of the block"); }
  else { ASSERT(table().getBlockTypeString(n) == "unknown", "other satellites have no block"); ASSERT(table().NtoPMap.count(n) == 0, "a satellite with a number has a block"); }
}
ENTRY check_node() {
  CommonTime a = anyTime(), b = anyTime(), t = anyTime(); ASSUME(!(b < a)); XRefNode x(7, a, b), y(8, TimeRange(a, b)); ASSERT(x.isApplicable(t) == (!(t < a) && !(b < t)), "an assignment applies from its first to its last instant"); ASSERT(x.isApplicable(t) == y.isApplicable(t) && x.getPRNNum() == 7 && x.getNAVSTARNum() == 7 && x.getBeginTime() == a && x.getEndTime() == b, "an assignment keeps its number and times");
}
