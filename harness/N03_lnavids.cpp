// PROPERTY: N03
// SRC: core/lib/GNSSEph/EngNav.cpp core/lib/Utilities/Exception.cpp
// BOUND: all 16-bit page identifiers, subframe and page numbers; all subframe words; all 19-bit TOW counts; all full weeks 0..32000 with all 8-/10-bit weeks
#include "symx.h"
#include "EngNav.hpp"
using namespace gpstk;
ENTRY check_pages() {
  short sv = S("sv", 16), sf = -7, pg = -7, back = -7;
  bool ok = EngNav::sv2page(sv, sf, pg);
  bool valid = symx_or(symx_and(sv >= 1, sv <= 32), symx_and(sv >= 51, sv <= 63));
  ASSERT(ok == valid, "exactly the defined page identifiers are accepted");
  if (!ok) symx_end();
  ASSERT(symx_or(sf == 4, sf == 5) && pg >= 1 && pg <= 25, "subframe and page in range");
  ASSERT(EngNav::sfpage2svid(sf, pg, back) && back == sv, "page identifier survives the round trip");
  symx_observe("pg", pg);
}
ENTRY check_pages_rev() {
  short sf = S("sf", 16), pg = S("pg", 16), sv = -7, sf2, pg2, sv2;
  bool ok = EngNav::sfpage2svid(sf, pg, sv);
  ASSERT(ok == (symx_or(sf == 4, sf == 5) && pg >= 1 && pg <= 25), "exactly the existing pages are accepted");
  if (!ok) symx_end();
  ASSERT(EngNav::sv2page(sv, sf2, pg2) && EngNav::sfpage2svid(sf2, pg2, sv2) && sv2 == sv && sf2 == sf, "identifier maps back to a page carrying it");
}
// the frame structure: 5 subframes of 6 s, 25 pages of 30 s, starting at the week boundary
ENTRY check_zcount() {
  unsigned long n = U("n", 17); short sf = -7, pg = -7;
  bool ok = EngNav::zcount2page(n * 4, sf, pg);
  unsigned idx = (n + 4) % 5;                 // the HOW carries the time of the next subframe
  unsigned frame = ((n + 124) % 125) / 5;
  ASSERT(ok && sf == (short)(idx + 1), "subframe follows the six second cycle");
  ASSERT(pg == (sf <= 3 ? 0 : (short)(frame + 1)), "page follows the 12.5 minute cycle");
  symx_observe("pg", pg);
}
ENTRY check_pattern() {
  uint32_t sf[10]; for (int i = 0; i < 10; i++) sf[i] = U("w", 32);
  short p = EngNav::getSubframePattern(sf);
  uint32_t id = (sf[1] >> 8) & 7, sv = (sf[2] >> 22) & 63;
  static const short T[13] = {5, 6, 6, 6, 10, 8, 6, 7, 7, 7, 7, 7, 9};
  short want = 0;
  if (id >= 1 && id <= 3) want = id;
  else if (id == 4 || id == 5) { if (sv <= 32) want = 4; else if (sv >= 51) want = T[sv - 51]; }
  ASSERT(p == want, "pattern of the subframe");
  ASSERT(EngNav::getSFID(sf[1]) == (short)id, "subframe identifier of the HOW");
  ASSERT(EngNav::getHOWTime(sf[1] & 0x3fffffff) == ((sf[1] >> 13) & 0x1ffff) * 6ul, "HOW time");
  long l[10]; for (int i = 0; i < 10; i++) l[i] = sf[i];
  ASSERT(EngNav::getSubframePattern(l) == want, "pattern of the subframe, long words");
}
ENTRY check_week() {
  short full = R("full", 0, 32000); int k = symx_concretize(R("type", 0, 1)); short range = k ? 1024 : 256;
  short part = R("part", 0, 1023); ASSUME(part < range);
  short r = EngNav::convertXBit(full, part, k ? EngNav::BITS10 : EngNav::BITS8);
  ASSERT((r - part) % range == 0, "expanded week keeps the transmitted bits");
  ASSERT(r - full <= range / 2 && full - r <= range / 2, "expanded week is the nearest one");
  double d = part;
  bool ok = k ? EngNav::convert10bit(full, &d) : EngNav::convert8bit(full, &d);
  ASSERT(ok && d == (double)r, "real-valued week expansion agrees");
  symx_observe("r", (uint16_t)r);
}
