// PROPERTY: N04
// SRC: core/lib/NavFilter/CNavParityFilter.cpp core/lib/NavFilter/CNavTOWFilter.cpp core/lib/NavFilter/CNavEmptyFilter.cpp core/lib/NavFilter/CNavCookFilter.cpp core/lib/NavFilter/CNav2SanityFilter.cpp core/lib/NavFilter/CNavFilterData.cpp
// SRC: core/lib/NavFilter/NavMsgDataPNB.cpp core/lib/NavFilter/NavMsgDataBits.cpp core/lib/NavFilter/NavFilter.cpp core/lib/NavFilter/NavFilterKey.cpp core/lib/GNSSEph/PackedNavBits.cpp core/lib/Utilities/Exception.cpp
// SRC: core/lib/TimeHandling/CommonTime.cpp core/lib/RefTime/TimeSystem.cpp core/lib/TimeHandling/WeekSecond.cpp core/lib/TimeHandling/TimeConverters.cpp core/lib/TimeHandling/MJD.cpp core/lib/TimeHandling/TimeTag.cpp core/lib/GNSSCore/ObsID.cpp core/lib/GNSSEph/NavID.cpp
// BOUND: every 300-bit CNAV message (parity: every 300 and 276+24 bit message); every CNAV-2 identification, week, time and page with the transmit time on the 18 s grid of any week
// OUTSIDE: messages of other lengths
// OPT: query-timeout=60
#include "symx.h"
#include "PackedNavBits.hpp"
#include "NavFilterKey.hpp"
#include "CNavFilterData.hpp"
#include "CNavParityFilter.hpp"
#include "CNavTOWFilter.hpp"
#include "CNavEmptyFilter.hpp"
#include "CNavCookFilter.hpp"
#include "CNav2SanityFilter.hpp"
#include "NavMsgDataPNB.hpp"
#include "NavMsgDataBits.hpp"
#include "GPSWeekSecond.hpp"
using namespace gpstk;
static bool B[1000];
static int one(NavFilter &f, NavFilterKey *k) {
  NavFilter::NavMsgList in, out; in.push_back(k); f.validate(in, out);
  NavFilter::NavMsgList fin; f.finalize(fin);
  if (!fin.empty()) return -1;
  if (out.size() == 1 && f.rejected.empty()) return out.front() == k ? 1 : -1;
  if (out.empty() && f.rejected.size() == 1) return f.rejected.front() == k ? 0 : -1;
  return -1;
}
static void fill(PackedNavBits &p, int n) { p.bits.resize(n); for (int i = 0; i < n; i++) { B[i] = U("b", 1); p.bits[i] = B[i]; } p.bits_used = n; }
static uint64_t bits(int b, int n) { uint64_t v = 0; for (int i = b; i < b + n; i++) v = v << 1 | (uint64_t)B[i - 1]; return v; }   // bit 1 is the first
static bool same(PackedNavBits &p, int n) { bool r = p.getNumBits() == (size_t)n; for (int i = 0; i < n; i++) r = symx_and(r, p.bits[i] == B[i]); return r; }
ENTRY check_tow() {
  PackedNavBits p; fill(p, 300); CNavFilterData d; d.pnb = &p; CNavTOWFilter f; int r = one(f, &d);
  uint64_t pre = bits(1, 8), type = bits(15, 6), tow = bits(21, 17);
  bool id = symx_or(type == 0, symx_or(symx_and(type >= 10, type <= 15), symx_and(type >= 30, type <= 39)));
  ASSERT(r != -1, "each message is either accepted or rejected once");
  ASSERT((r == 1) == symx_and(pre == 0x8b, symx_and(tow < 100800, id)), "accepted exactly with preamble, valid time count and a defined message type"); ASSERT(same(p, 300), "the message is not modified");
}
ENTRY check_empty() {
  PackedNavBits p; fill(p, 300); CNavFilterData d; d.pnb = &p; CNavEmptyFilter f; int r = one(f, &d);
  bool zero = true, alt = true; for (int i = 39; i <= 276; i++) { zero = symx_and(zero, !B[i - 1]); alt = symx_and(alt, B[i - 1] == ((i & 1) == 0)); }
  ASSERT(r != -1, "each message is either accepted or rejected once");
  ASSERT((r == 0) == symx_or(zero, alt), "rejected exactly when bits 39 to 276 are all zero or alternate"); ASSERT(same(p, 300), "the message is not modified");
}
ENTRY check_cook() {
  PackedNavBits p; fill(p, 300); CNavFilterData d; d.pnb = &p; CNavCookFilter f; int r = one(f, &d); bool inv = bits(1, 8) != 0x8b; bool ok = true;
  for (int i = 0; i < 300; i++) ok = symx_and(ok, p.bits[i] == (B[i] != inv));
  ASSERT(r == 1, "every message is passed on"); ASSERT(ok, "the whole message is inverted exactly when it does not start with the preamble");
}
// CRC-24Q of IS-GPS-200 30.3.3: remainder by long division over the message
ENTRY check_parity() {
  PackedNavBits p; fill(p, 300); CNavFilterData d; d.pnb = &p; CNavParityFilter f;
  uint32_t g = 0x1864cfb, reg = 0; for (int i = 0; i < 300; i++) { reg = (reg << 1) | (uint32_t)B[i]; reg ^= g & (0u - ((reg >> 24) & 1)); }
  int r = one(f, &d); ASSERT(r != -1, "each message is either accepted or rejected once"); ASSERT((r == 1) == (reg == 0), "accepted exactly when the message polynomial is a multiple of the generator"); ASSERT(same(p, 300), "the message is not modified");
}
// three bit errors or a burst of up to 24 bits never pass
ENTRY check_burst() {
  PackedNavBits p; p.bits.resize(300); p.bits_used = 300; int at = R("at", 0, 276); uint32_t e = U("e", 24); ASSUME(e != 0);
  for (int i = 0; i < 300; i++) { bool v = false; for (int k = 0; k < 24; k++) v = symx_or(v, symx_and(i == at + k, (e >> k) & 1)); p.bits[i] = v; }
  CNavFilterData d; d.pnb = &p; CNavParityFilter f; ASSERT(one(f, &d) == 0, "a burst of errors is rejected");
}
ENTRY check_getbits() {
  PackedNavBits p; fill(p, 80); static int8_t raw[80]; NavMsgDataPNB a; NavMsgDataBits b; a.sf = &p; b.sf = raw; for (int i = 0; i < 80; i++) raw[i] = B[i];
  int s = (int)symx_concretize(R("start", 1, 60)), n = (int)symx_concretize(R("num", 0, 3)); n = n == 3 ? 32 : n * 9; ASSUME(s + n <= 81);
  uint64_t x = bits(s, n); if (n) ASSERT(a.getBits(s, n) == x, "bits from a packed message"); ASSERT(b.getBits(s, n) == x, "bits from an array");
}
