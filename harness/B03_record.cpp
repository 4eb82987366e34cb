// PROPERTY: B03
// SRC: core/lib/FileHandling/Binex/BinexData.cpp core/lib/Utilities/BinUtils.cpp core/lib/Utilities/Exception.cpp
// BOUND: records of every identifier, all eight kinds of synchronization byte, messages of 0 to 4 bytes of every content, and of 126 bytes (thorough: also 130) of which 6 are of every content, two records in a row, read forward and in reverse; one changed byte anywhere behind the synchronization byte
// OUTSIDE: messages of a mebibyte or more (their digest is not implemented); files
// OPT: merge=0 query-timeout=40
#include "symx.h"
#include <sstream>
#include <map>
#include <list>
#include <set>
#include <iomanip>
#define protected public
#define private public
#include "BinexData.hpp"
#undef protected
#undef private
using namespace gpstk;
typedef BinexData::UBNXI UB; typedef BinexData::MGFZI MG;
static std::string anyStr(const char *n, int len) { std::string s; for (int i = 0; i < len; i++) s += i < 5 || i == len - 1 ? (char)U(n, 8) : (char)(i * 37); return s; }
static const int FL[] = {0x00, 0x08, 0x10, 0x18, 0x20, 0x28, 0x30, 0x38};
static BinexData mk(int f, uint64_t id, const std::string &m) { BinexData d((BinexData::RecordID)id, FL[f]); size_t o = 0; d.updateMessageData(o, m, m.size()); ASSERT(o == m.size(), "the offset moves"); return d; }
static bool same(const BinexData &a, const BinexData &b) { return a == b && a.getRecordID() == b.getRecordID() && a.getRecordFlags() == b.getRecordFlags() && a.getMessageData() == b.getMessageData(); }
static std::string put(const BinexData &d) { std::ostringstream o; NOTHROW(d.putRecord(o), "a record can be written"); std::string f = o.str(); ASSERT(f.size() == d.getRecordSize(), "the size of the record is the number of bytes written"); return f; }
static uint64_t anyId(bool all) { static const uint64_t I[] = {5, 300, 70000, 536870911}; if (!all) return I[symx_concretize(R("k", 0, 3))]; uint64_t id = U("id", 32); ASSUME(id <= UB::MAX_VALUE); return id; }
static void trip(int f, int len, bool two) {
  uint64_t id = anyId(len < 100); BinexData d = mk(f, id, anyStr("m", len)); std::string s = put(d); size_t n1 = s.size(); BinexData e = mk((f * 3 + 1) & 7, 5, anyStr("n", 2)); if (two) s += put(e);
  std::istringstream in(s); BinexData r = mk(7 - f, 99, "xyzxyzxyz"), q; size_t n = 0; NOTHROW(n = r.getRecord(in), "a written record can be read"); ASSERT(same(r, d), "the record read is the record written"); ASSERT(n == n1, "the number of bytes read is reported");
  if (two) { NOTHROW(q.getRecord(in), "the next record can be read"); ASSERT(same(q, e), "the next record is the one written next"); }
}
ENTRY check_record() { trip(symx_concretize(R("f", 0, 7)), symx_concretize(R("len", 0, 4)), false); }
ENTRY check_two() { trip(symx_concretize(R("f", 0, 7)), symx_concretize(R("len", 0, 2)), true); }
ENTRY check_long() { trip(symx_concretize(R("f", 0, 7)), 126, false); }
ENTRY check_t_long() { trip(symx_concretize(R("f", 0, 7)), 130, true); }
static void reverse(int f, int len) {
  uint64_t id = anyId(len < 100); BinexData d = mk(f | 2, id, anyStr("m", len)); std::string s = put(d), b(s.rbegin(), s.rend()); std::istringstream in(b); BinexData r = mk(7 - f, 99, "xyzxyzxyz"); NOTHROW(r.getRecord(in), "a reverse-readable record can be read from its end"); ASSERT(same(r, d), "the record read is the record written");
}
ENTRY check_reverse() { reverse(symx_concretize(R("f", 0, 7)), symx_concretize(R("len", 0, 3))); }
ENTRY check_reverselong() { reverse(symx_concretize(R("f", 0, 7)), 126); }
// a changed byte is noticed
ENTRY check_damage() {
  int f = symx_concretize(R("f", 0, 7)), len = symx_concretize(R("len", 1, 3)); std::string m = anyStr("m", len); BinexData d = mk(f, 3, m); std::string s = put(d); size_t crc = d.getCRCLength(2 + len), at = symx_concretize(R("at", 3, 3 + len + (int)crc - 1)); unsigned char x = U("x", 8); ASSUME(x); std::string t = s; t[at] ^= x;
  std::istringstream in(t); BinexData r; MUSTTHROW(FFStreamError, r.getRecord(in), "a record with a changed byte is refused");
}
ENTRY check_badsync() {
  unsigned char c = U("c", 8); std::string s(1, (char)c); s += anyStr("m", 3); std::istringstream in(s); BinexData r; bool known = false; for (unsigned char k : {0xC2, 0xE2, 0xC8, 0xE8, 0xD2, 0xF2, 0xD8, 0xF8, 0xB4, 0xB0, 0xE4, 0xE0}) if (c == k) known = true;
  if (!known) MUSTTHROW(FFStreamError, r.getRecord(in), "unknown synchronization bytes are refused");
}
ENTRY check_flags() { unsigned char f = U("f", 8); BinexData d; d.setRecordFlags(f); unsigned char g = d.syncByte, tail; ASSERT((d.getRecordFlags() & 0x38) == (f & 0x38), "record flags are kept"); ASSERT((g & 0x38) == (f & 0x38) && (g & 0xC0) == 0xC0 && ((g & 0x02) != 0) == !(f & 0x08), "record flags are kept and completed to a synchronization byte"); ASSERT(d.isHeadSyncByteValid(g, tail), "every choice of flags can be written"); unsigned char h; if (g & 0x10) ASSERT(d.isTailSyncByteValid(tail, h) && h == g, "head and tail synchronization bytes belong together"); }
// message contents
ENTRY check_message() {
  int f = symx_concretize(R("f", 0, 1)) * 4; BinexData d(7, FL[f]); size_t o = 0; uint64_t u = U("u", 29), w = U("w", 29); static const int64_t LIM[] = {16, 4110, 1052685}; int k = symx_concretize(R("k", 0, 2)); int64_t g = R("g", k ? LIM[k - 1] : 0, LIM[k] - 1); if (symx_concretize(U("neg", 1))) { ASSUME(g > 0); g = -g; } std::string t = anyStr("t", 3), t2; d.updateMessageData(o, UB((unsigned long)u)); size_t o1 = o; d.updateMessageData(o, MG((long long)g)); size_t o2 = o; d.updateMessageData(o, t, 3); ASSERT(o == o2 + 3 && d.getMessageData().size() == o && d.getMessageLength() == o, "the message grows by what is added");
  o = 0; UB a; MG b; d.extractMessageData(o, a); ASSERT(o == o1 && (unsigned long)a == u, "numbers are found where they were put"); d.extractMessageData(o, b); ASSERT(o == o2 && (long long)b == g, "numbers are found where they were put"); d.extractMessageData(o, t2, 3); ASSERT(t2 == t, "text is found where it was put"); size_t end = o; MUSTTHROW(InvalidParameter, d.extractMessageData(o, t2, 1), "reading past the end of the message is refused"); ASSERT(o == end, "a refused read moves nothing");
}
ENTRY check_extract() {
  BinexData d(7); size_t o = 0, n = symx_concretize(R("n", 0, 4)), k = symx_concretize(R("k", 0, 5)); std::string t = anyStr("t", n), x = "?"; d.updateMessageData(o, t, n); size_t at = symx_concretize(R("at", 0, 6)); o = at; bool thrown = false; try { d.extractMessageData(o, x, k); } catch (InvalidParameter &) { thrown = true; }
  ASSERT(thrown == (at + k > n), "text is read exactly if the message holds all of it"); if (thrown) ASSERT(o == at && x == "?", "a refused read changes nothing"); else ASSERT(o == at + k && x == t.substr(at, k), "the text read is that of the message");
}
