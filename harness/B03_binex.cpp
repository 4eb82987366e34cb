// PROPERTY: B03
// SRC: core/lib/FileHandling/Binex/BinexData.cpp core/lib/Utilities/BinUtils.cpp core/lib/Utilities/Exception.cpp
// BOUND: every unsigned and signed BINEX integer the format can hold, both byte orders, buffers of 0 to 3 further bytes before and after; every byte string of up to 9 bytes to decode
// OUTSIDE: reading signed numbers whose bytes are reversed (their length is not known from the first byte)
// OPT: merge=0 query-timeout=40
#include "symx.h"
#include <sstream>
#include <map>
#include <list>
#include <set>
#include <iomanip>
#define protected public
#define private public
#include "BinexData.hpp"
#undef protected
#undef private
using namespace gpstk;
typedef BinexData::UBNXI UB; typedef BinexData::MGFZI MG;
static std::string anyStr(const char *n, int len) { std::string s; for (int i = 0; i < len; i++) s += (char)U(n, 8); return s; }
// the definition of the format: 7 bits per byte and a continuation bit, all 8 bits in the fourth byte; least or most significant part first
static std::string ubx(uint64_t v, bool le) {
  int n = v < 128 ? 1 : v < 16384 ? 2 : v < 2097152 ? 3 : 4; std::string s;
  for (int i = 0; i < n; i++) { int low = le ? 7 * i : n < 4 ? 7 * (n - 1 - i) : i == 3 ? 0 : 8 + 7 * (2 - i); unsigned char c = (v >> low) & (i == 3 ? 0xff : 0x7f); if (i < n - 1) c |= 0x80; s += (char)c; }
  return s;
}
static const uint64_t UMAX = 536870911;
static void ub(bool le) {
  uint64_t v = U("v", 64); bool big = v > UMAX; if (big) { MUSTTHROW(FFStreamError, UB((unsigned long)v), "a number too large for the format is refused"); return; }
  UB u((unsigned long)v); ASSERT((unsigned long)u == v, "the number is kept"); int pre = symx_concretize(R("pre", 0, 2)), post = symx_concretize(R("post", 0, 1) * 3); std::string w = ubx(v, le), b = anyStr("c", pre), p = anyStr("p", pre ? pre + (int)w.size() : 0); std::string o = pre ? b + std::string(w.size(), 'x') + anyStr("q", post) : "", keep = o;
  ASSERT(u.getSize() == w.size(), "the shortest form is used"); size_t r = u.encode(o, pre, le); ASSERT(r == w.size(), "the length is reported"); ASSERT(o.size() == (pre ? keep.size() : w.size()), "no byte is inserted or lost");
  for (size_t i = 0; i < o.size(); i++) ASSERT(o[i] == (i >= (size_t)pre && i < pre + w.size() ? w[i - pre] : keep[i]), "the bytes are those of the format and no other byte changes");
  UB d(536870911UL); size_t k = d.decode(o, pre, le); ASSERT(k == r && (unsigned long)d == v && d.getSize() == k, "decoding returns the number");
}
ENTRY check_uble() { ub(true); }
ENTRY check_ubbe() { ub(false); }
static void ubraw(bool le) {
  int n = symx_concretize(R("n", 0, 5)), off = symx_concretize(R("off", 0, 6)); std::string s = anyStr("c", n); UB d(536870911UL); size_t k = 0; int need = 0; bool complete = false;
  for (int i = 0; i < 4 && off + i < n; i++) { need++; if (i == 3 || !(s[off + i] & 0x80)) { complete = true; break; } }
  bool thrown = false; try { k = d.decode(s, off, le); } catch (Exception &) { thrown = true; }
  if (!complete) { if (off > n) ASSERT(thrown, "an offset outside the buffer is refused"); return; }
  ASSERT(!thrown && k == need && (unsigned long)d <= UMAX, "complete numbers are decoded"); std::string o(need, 0), w = ubx((unsigned long)d, le);
  if (w.size() == need) for (int i = 0; i < need; i++) ASSERT(w[i] == s[off + i], "distinct byte strings of the shortest form are distinct numbers");
}
ENTRY check_ubrawle() { ubraw(true); }
ENTRY check_ubrawbe() { ubraw(false); }
// the definition of the format: sign bit, three bits of length, and the rest of the magnitude above the range of the shorter forms
static const int64_t BASE[] = {0, 14, 4109, 1052684, 269488139, 68988964874LL, 17661175009289LL, 4521260802379784LL}, LIM[] = {16, 4110, 1052685, 269488140, 68988964875LL, 17661175009290LL, 4521260802379785LL, 1157442765409226760LL};
static void mg(bool le, int n) {
  int64_t lo = n ? LIM[n - 1] : 0, m = R("m", lo, LIM[n] - 1); bool neg = symx_concretize(U("neg", 1)); if (neg) ASSUME(m > 0); int64_t v = neg ? -m : m; MG g((long long)v); ASSERT(g.getSize() == n + 1 && (long long)g == v, "the number is kept in the shortest form");
  int pre = symx_concretize(R("pre", 0, 1)) * 2; std::string o = pre ? anyStr("c", pre + n + 1 + 2) : "", keep = o; size_t r = g.encode(o, pre, le); ASSERT(r == n + 1 && o.size() == (pre ? keep.size() : n + 1), "the length is reported, no byte is inserted or lost");
  uint64_t t = (uint64_t)(m - BASE[n]); int bits = 8 * (n + 1); uint64_t word = le ? (t << 4) | n | (neg ? 8 : 0) : t | ((uint64_t)(n | (neg ? 8 : 0)) << (bits - 4));
  for (int i = 0; i < (int)o.size(); i++) if (i >= pre && i < pre + n + 1) ASSERT((uint8_t)o[i] == (uint8_t)(word >> (le ? 8 * (i - pre) : bits - 8 - 8 * (i - pre))), "the bytes are those of the format"); else ASSERT(o[i] == keep[i], "no other byte changes");
  MG d(-4521260802379784LL); size_t k = 0; NOTHROW(k = d.decode(o, pre, le), "an encoded number can be decoded"); ASSERT(k == r && (long long)d == v && d.getSize() == k, "decoding returns the number");
}
ENTRY check_mgle0() { mg(true, 0); }
ENTRY check_mgbe0() { mg(false, 0); }
ENTRY check_mgle1() { mg(true, 1); }
ENTRY check_mgbe1() { mg(false, 1); }
ENTRY check_mgle2() { mg(true, 2); }
ENTRY check_mgbe2() { mg(false, 2); }
ENTRY check_mgle3() { mg(true, 3); }
ENTRY check_mgbe3() { mg(false, 3); }
ENTRY check_mgle4() { mg(true, 4); }
ENTRY check_mgbe4() { mg(false, 4); }
ENTRY check_mgle5() { mg(true, 5); }
ENTRY check_mgbe5() { mg(false, 5); }
ENTRY check_mgle6() { mg(true, 6); }
ENTRY check_mgbe6() { mg(false, 6); }
ENTRY check_mgle7() { mg(true, 7); }
ENTRY check_mgbe7() { mg(false, 7); }
ENTRY check_mgrange() { int64_t v = S("v", 64), a = v < 0 ? -v : v; ASSUME(v != INT64_MIN); if (a > 1157442765409226759LL) MUSTTHROW(FFStreamError, MG((long long)v), "a number too large for the format is refused"); else NOTHROW(MG((long long)v), "every number of the format can be held"); }
static void mgraw(bool le) {
  int n = symx_concretize(R("n", 0, 9)), off = symx_concretize(R("off", 0, 2)); std::string s = anyStr("c", n); MG d(-4521260802379784LL); size_t k = 0; bool thrown = false; try { k = d.decode(s, off, le); } catch (Exception &) { thrown = true; }
  if (off < n) { int need = ((le ? s[off] : s[off] >> 4) & 7) + 1; if (off + need > n) ASSERT(thrown, "an incomplete number is refused"); else ASSERT(!thrown && (k == need || k == 0), "complete numbers are decoded"); }
}
ENTRY check_mgrawle() { mgraw(true); }
ENTRY check_mgrawbe() { mgraw(false); }
// through streams
static void ubstream(bool le, bool rev) {
  uint64_t v = U("v", 32); ASSUME(v <= UMAX); UB u((unsigned long)v); std::string w = ubx(v, le), cp = "zz"; std::ostringstream o; size_t r = u.write(o, &cp, 2, rev, le); ASSERT(r == w.size() && cp == "zz" + w, "the bytes written are reported"); std::string f = o.str(); ASSERT(f.size() == w.size(), "all bytes are written");
  for (size_t i = 0; i < w.size(); i++) ASSERT(f[i] == w[rev ? w.size() - 1 - i : i], "the bytes are written in the order asked for");
  if (!rev) { std::istringstream in(f); UB d(536870911UL); std::string rd; size_t k = d.read(in, &rd, 0, false, le); ASSERT(k == r && (unsigned long)d == v && rd == w, "reading returns the number"); }
}
ENTRY check_ubstream() { ubstream(true, false); ubstream(false, false); }
ENTRY check_ubrev() { ubstream(true, true); ubstream(false, true); }
static void mgstream(bool le, bool rev, int n) {
  int64_t lo = n ? LIM[n - 1] : 0, m = R("m", lo, LIM[n] - 1); bool neg = symx_concretize(U("neg", 1)); if (neg) ASSUME(m > 0); int64_t v = neg ? -m : m; MG g((long long)v); std::string w; g.encode(w, 0, le); std::ostringstream o; size_t r = g.write(o, nullptr, 0, rev, le); std::string f = o.str(); ASSERT(r == n + 1 && f.size() == r, "all bytes are written");
  for (size_t i = 0; i < w.size(); i++) ASSERT(f[i] == w[rev ? w.size() - 1 - i : i], "the bytes are written in the order asked for");
  if (!rev) { std::istringstream in(f); MG d(-4521260802379784LL); size_t k = 0; std::string rd; NOTHROW(k = d.read(in, &rd, 0, rev, le), "a number can be read back"); ASSERT(k == r && (long long)d == v && rd == w, "reading returns the number"); }
}
ENTRY check_mgstream0() { mgstream(symx_concretize(U("le", 1)), symx_concretize(U("rev", 1)), 0); }
ENTRY check_mgstream1() { mgstream(symx_concretize(U("le", 1)), symx_concretize(U("rev", 1)), 1); }
ENTRY check_mgstream2() { mgstream(symx_concretize(U("le", 1)), symx_concretize(U("rev", 1)), 2); }
ENTRY check_mgstream3() { mgstream(symx_concretize(U("le", 1)), symx_concretize(U("rev", 1)), 3); }
ENTRY check_mgstream4() { mgstream(symx_concretize(U("le", 1)), symx_concretize(U("rev", 1)), 4); }
ENTRY check_mgstream5() { mgstream(symx_concretize(U("le", 1)), symx_concretize(U("rev", 1)), 5); }
ENTRY check_mgstream6() { mgstream(symx_concretize(U("le", 1)), symx_concretize(U("rev", 1)), 6); }
ENTRY check_mgstream7() { mgstream(symx_concretize(U("le", 1)), symx_concretize(U("rev", 1)), 7); }
