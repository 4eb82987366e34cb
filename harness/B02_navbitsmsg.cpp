// PROPERTY: B02
// SRC: core/lib/GNSSEph/PackedNavBits.cpp core/lib/Utilities/Exception.cpp core/lib/TimeHandling/CommonTime.cpp core/lib/RefTime/TimeSystem.cpp
// SRC: core/lib/GNSSCore/ObsID.cpp core/lib/GNSSEph/NavID.cpp core/lib/Utilities/StringUtils.cpp
// BOUND: messages of up to 48 bits with every content; every pair of bit positions for partial matches and copies; all satellite systems and identifiers, transmit times within one day
// BOUND: ordering of messages of up to 6 bits
// BOUND: text dumps of 20 and 40 bit messages
// OUTSIDE: text input that is not a dump, other bits per word in the dump
#include "symx.h"
#include "PackedNavBits.hpp"
#include <sstream>
using namespace gpstk;
static PackedNavBits msg(uint64_t v, int n, bool trim = true) { PackedNavBits b; b.addUnsignedLong(v, n, 1); if (trim) b.trimsize(); return b; }
// without trimsize, built in place
struct Raw : PackedNavBits { Raw(uint64_t v, int n) { addUnsignedLong(v, n, 1); } };
ENTRY check_copyequal() {
  uint64_t v = U("v", 48); Raw a(v, 48); PackedNavBits c(a); PackedNavBits d; d = a; PackedNavBits *e = a.clone();
  ASSERT(c == a, "a copy equals the original");
  ASSERT(a == c, "the original equals its copy");
  ASSERT(symx_and(d == a, *e == a), "assigned and cloned messages equal the original");
  ASSERT(symx_and(c.getNumBits() == 48, c.asUnsignedLong(0, 48, 1) == v), "a copy has the bits of the original");
}
ENTRY check_copyorder() {
  uint64_t v = U("v", 6); Raw a(v, 6); PackedNavBits c(a);
  ASSERT(symx_and(!(c < a), !(a < c)), "a copy is neither before nor after the original");
}
ENTRY check_empty() {
  PackedNavBits a, b(a), c; c.clearBits();
  ASSERT(symx_and(symx_and(a == b, a == c), symx_and(b == c, !(a < c))), "empty messages are equal");
  PackedNavBits d = msg(U("v", 3), 3); ASSERT(symx_and(!(a == d), a < d), "an empty message sorts first");
}
ENTRY check_copymeta() {
  PackedNavBits b; CommonTime t(TimeSystem::GPS); t.m_day = R("day", 0, 3442447); t.m_msod = R("ms", 0, 86399999);
  SatID s(R("sat", 1, 63), (SatelliteSystem)R("sys", 0, 9)); ObsID o((ObservationType)R("ot", 2, 20), (CarrierBand)R("cb", 2, 20), (TrackingCode)R("tc", 2, 20));
  b.setSatID(s); b.setObsID(o); b.setTime(t); b.setRxID("rx1"); b.setXmitCoerced(true); NavID nv; nv.navType = (NavType)R("nav", 0, 7); b.setNavID(nv); b.parityStatus = (PackedNavBits::ParityStatus)R("ps", 0, 2);
  b.addUnsignedLong(5, 3, 1); b.trimsize();
  PackedNavBits c(b);
  ASSERT(symx_and(c.getsatSys() == s, c.getobsID() == o) && symx_and(c.getTransmitTime() == t, c.getRxID() == "rx1"), "satellite, signal, time and receiver are copied");
  ASSERT(symx_and(symx_and(c.getNavID().navType == nv.navType, c.isXmitCoerced()), c.parityStatus == b.parityStatus), "message type, coercion mark and parity status are copied");
  ASSERT(c == b, "the copy equals the original in everything");
}
ENTRY check_equal() {
  uint64_t v = U("v", 40), w = U("w", 40); PackedNavBits a = msg(v, 40), b = msg(w, 40);
  ASSERT((a == b) == (v == w), "messages are equal exactly when all bits agree");
  ASSERT((b == a) == (v == w), "equality is symmetric");
}
ENTRY check_partial() {
  uint64_t v = U("v", 24), w = U("w", 24); PackedNavBits a = msg(v, 24), b = msg(w, 24);
  int s = (int)symx_concretize(R("s", 0, 23)), e = (int)symx_concretize(R("e", 0, 25)) - 1; ASSUME(e == -1 || e >= s);
  int last = e == -1 || e > 23 ? 23 : e; uint64_t mask = ((1ull << (last - s + 1)) - 1) << (23 - last);
  ASSERT(a.matchBits(b, s, e) == (((v ^ w) & mask) == 0), "partial match compares exactly the addressed bits");
}
// long messages: contents that differ in one bit, anywhere
static PackedNavBits onehot(uint64_t a, uint64_t b, uint64_t c) { PackedNavBits m; m.addUnsignedLong(a, 40, 1); m.addUnsignedLong(b, 40, 1); m.addUnsignedLong(c, 40, 1); m.trimsize(); return m; }
ENTRY check_matchlong() {
  static const int P[] = {0, 1, 15, 16, 31, 32, 33, 63, 64, 65, 96, 118, 119};
  uint64_t v = U("v", 40); int p = R("p", 0, 119), i = symx_concretize(R("i", 0, 12)), j = symx_concretize(R("j", 0, 12)); ASSUME(j >= i);
  PackedNavBits a = onehot(v, v, v), b = onehot(v ^ symx_ite_u64(p < 40, 1ull << ((39 - p) & 63), 0), v ^ symx_ite_u64(symx_and(p >= 40, p < 80), 1ull << ((79 - p) & 63), 0), v ^ symx_ite_u64(p >= 80, 1ull << ((119 - p) & 63), 0));
  ASSERT(a.matchBits(b, P[i], P[j]) == !symx_and(p >= P[i], p <= P[j]), "partial match of long messages compares exactly the addressed bits");
}
ENTRY check_length() {
  uint64_t v = U("v", 5), w = U("w", 8); PackedNavBits a = msg(v, 5), b = msg(w, 8); Raw c(v, 5), d(w, 8);
  ASSERT(symx_and(!(a == b), !(c == d)), "messages of different length differ");
  ASSERT(symx_and(a < b, !(b < a)), "a shorter message sorts first");
  ASSERT(symx_and(c < d, !(d < c)), "a shorter message sorts first, before trimming too");
}
ENTRY check_order() {
  uint64_t v = U("v", 6), w = U("w", 6); PackedNavBits a = msg(v, 6), b = msg(w, 6);
  ASSERT((a < b) == (v < w), "messages of one length are ordered by their bits");
  ASSERT(symx_or(a < b, b < a) == (v != w), "order agrees with equality");
}
ENTRY check_meta() {
  PackedNavBits a, b; a.addUnsignedLong(9, 5, 1); b.addUnsignedLong(9, 5, 1); a.trimsize(); b.trimsize();
  CommonTime t(TimeSystem::GPS), u(TimeSystem::GPS); t.m_day = u.m_day = 2450000; t.m_msod = R("ms", 0, 86399999); u.m_msod = R("ms2", 0, 86399999);
  SatID s(R("sat", 1, 63), (SatelliteSystem)R("sys", 0, 9)), q(R("sat2", 1, 63), (SatelliteSystem)R("sys2", 0, 9));
  ObsID o((ObservationType)R("ot", 2, 20), (CarrierBand)R("cb", 2, 20), (TrackingCode)R("tc", 2, 20)), p((ObservationType)R("ot2", 2, 20), (CarrierBand)R("cb2", 2, 20), (TrackingCode)R("tc2", 2, 20));
  NavID n, m; n.navType = (NavType)R("nav", 0, 7); m.navType = (NavType)R("nav2", 0, 7);
  a.setTime(t); b.setTime(u); a.setSatID(s); b.setSatID(q); a.setObsID(o); b.setObsID(p); a.setNavID(n); b.setNavID(m); a.setRxID("x"); bool same = R("rx", 0, 1); b.setRxID(same ? "x" : "y");
  unsigned fl = symx_concretize(U("fl", 5));
  long d = t.m_msod - u.m_msod; bool want = true;
  if (fl & 1) want = symx_and(want, symx_and(d >= -1, d <= 1));
  if (fl & 2) want = symx_and(want, symx_and(s.id == q.id, s.system == q.system));
  if (fl & 4) want = symx_and(want, symx_and(o.type == p.type, symx_and(o.band == p.band, o.code == p.code)));
  if (fl & 8) want = symx_and(want, same);
  if (fl & 16) want = symx_and(want, n.navType == m.navType);
  ASSERT(a.matchMetaData(b, fl) == want, "exactly the selected metadata is compared");
  ASSERT(a.match(b, 0, -1, fl) == want, "match combines metadata and bits");
}
ENTRY check_invert() {
  uint64_t v = U("v", 48); PackedNavBits a = msg(v, 48); a.invert();
  ASSERT(symx_and(a.asUnsignedLong(0, 48, 1) == (~v & ((1ull << 48) - 1)), a.getNumBits() == 48), "inversion complements every bit");
  a.invert(); ASSERT(a.asUnsignedLong(0, 48, 1) == v, "inverting twice restores the message");
}
ENTRY check_copybits() {
  uint64_t v = U("v", 20), w = U("w", 20); PackedNavBits a = msg(v, 20), b = msg(w, 20);
  int s = (int)symx_concretize(R("s", 0, 19)), e = (int)symx_concretize(R("e", 0, 20)) - 1; ASSUME(e == -1 || e >= s);
  int last = e == -1 ? 19 : e; uint64_t mask = ((1ull << (last - s + 1)) - 1) << (19 - last);
  a.copyBits(b, s, e);
  ASSERT(symx_and(a.asUnsignedLong(0, 20, 1) == ((v & ~mask) | (w & mask)), b.asUnsignedLong(0, 20, 1) == w), "exactly the addressed bits are copied");
  PackedNavBits c = msg(v >> 1, 19); MUSTTHROW(InvalidParameter, c.copyBits(b), "copying between messages of different length is refused");
}
ENTRY check_bool() {
  uint64_t v = U("v", 40); PackedNavBits a = msg(v, 40); unsigned i = symx_concretize(R("i", 0, 39));
  ASSERT(a.asBool(i) == (bool)((v >> (39 - i)) & 1), "single bits");
}
ENTRY check_append() {
  uint64_t v = U("v", 33), w = U("w", 21); PackedNavBits a = msg(v, 33), b = msg(w, 21); a.addPackedNavBits(b);
  ASSERT(symx_and(a.getNumBits() == 54, symx_and(a.asUnsignedLong(0, 33, 1) == v, a.asUnsignedLong(33, 21, 1) == w)), "appending a message keeps both");
  Raw c(v, 33), d(w, 21); c.addPackedNavBits(d);
  ASSERT(symx_and(c.getNumBits() == 54, symx_and(c.asUnsignedLong(0, 33, 1) == v, c.asUnsignedLong(33, 21, 1) == w)), "appending untrimmed messages keeps both");
}
static void dump(uint64_t v, int n, std::string lead) {
  symx_opt("opaquefmt", 0);
  PackedNavBits a = msg(v, n), b; std::ostringstream os; int k = a.outputPackedBits(os, 4, ' ', 32);
  ASSERT(k == n, "dump reports the number of bits");
  b.rawBitInput(lead + os.str());
  ASSERT(symx_and(b.getNumBits() == (size_t)n, b.asUnsignedLong(0, n, 1) == v), "reading a dump gives the message");
}
ENTRY check_dump20() { dump(U("v", 20), 20, "20"); }
ENTRY check_dump32() { dump(U("v", 12), 32, "32"); }
ENTRY check_dump40() { dump(U("v", 11) | U("t", 1) << 39, 40, " 40 "); }
