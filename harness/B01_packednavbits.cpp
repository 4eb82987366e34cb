// PROPERTY: B01
// SRC: core/lib/GNSSEph/PackedNavBits.cpp core/lib/Utilities/Exception.cpp core/lib/TimeHandling/CommonTime.cpp core/lib/RefTime/TimeSystem.cpp
// SRC: core/lib/GNSSCore/ObsID.cpp core/lib/GNSSEph/NavID.cpp core/lib/Utilities/StringUtils.cpp
// BOUND: integer fields of every width 1..64 (signed 1..64), every 64-bit value, sign/magnitude fields of 2..64 bits, preceded by a 13-bit and followed by a 7-bit field of any contents
// BOUND: fields appended across the 900-bit default capacity, after clear/trim/copy
// BOUND: split fields of 2 and 3 pieces with every value; scaled reals of 8, 16, 24 and 32 bits with power-of-two scales -43, -5, 0, 4
// OUTSIDE: semicircle scaling by pi (only representable-value decoding is covered), symbolic scale factors
#include "symx.h"
#include "PackedNavBits.hpp"
using namespace gpstk;

// unsigned: pack then unpack gives the value; other bits untouched; size advances
ENTRY check_unsigned() {
  unsigned n = symx_concretize(R("n", 1, 64));
  uint64_t a = U("a", 13), v = U("v", 64), c = U("c", 7);
  PackedNavBits b;
  b.addUnsignedLong(a, 13, 1);
  bool thrown = false;
  try { b.addUnsignedLong(v, n, 1); } catch (InvalidParameter &) { thrown = true; }
  bool fits = n == 64 || (v >> n) == 0;
  ASSERT(thrown == !fits, "unsigned value accepted exactly when it fits");
  if (thrown) { ASSERT(b.getNumBits() == 13, "rejected value leaves bit count"); COVER("rejected"); symx_end(); }
  b.addUnsignedLong(c, 7, 1);
  ASSERT(b.getNumBits() == 20 + n, "bit count advances");
  ASSERT(b.asUnsignedLong(13, n, 1) == v, "unsigned field round trip");
  ASSERT(b.asUnsignedLong(0, 13, 1) == a, "earlier field untouched");
  ASSERT(b.asUnsignedLong(13 + n, 7, 1) == c, "later field round trip");
  symx_observe("v", b.asUnsignedLong(13, n, 1));
}
ENTRY check_signed() {
  unsigned n = symx_concretize(R("n", 1, 64));
  int64_t v = S("v", 64);
  PackedNavBits b;
  bool thrown = false;
  try { b.addLong(v, n, 1); } catch (InvalidParameter &) { thrown = true; }
  bool fits = n == 64 || (v >= -(int64_t)(1ull << (n - 1)) && v <= (int64_t)((1ull << (n - 1)) - 1));
  ASSERT(thrown == !fits, "signed value accepted exactly when it fits");
  if (thrown) symx_end();
  ASSERT(b.asLong(0, n, 1) == v, "signed field round trip");
  symx_observe("v", b.asLong(0, n, 1));
}
// scaled integers: a multiple of the scale survives
ENTRY check_scaled() {
  static const int sc[] = {2, 3, 16, 604800 / 6, 300};
  int scale = sc[symx_concretize(R("scale", 0, 4))];
  uint64_t k = U("k", 17); int64_t m = S("m", 17);
  PackedNavBits b;
  NOTHROW(b.addUnsignedLong(k * scale, 17, scale), "scaled value accepted");
  NOTHROW(b.addLong(m * scale, 17, scale), "scaled signed value accepted");
  ASSERT(b.asUnsignedLong(0, 17, scale) == k * scale, "scaled unsigned round trip");
  ASSERT(b.asLong(17, 17, scale) == m * scale, "scaled signed round trip");
}
// insertUnsignedLong replaces exactly the addressed field
ENTRY check_insert() {
  uint64_t x = U("x", 40), v = U("v", 20);
  unsigned pos = symx_concretize(R("pos", 0, 44)), n = 4 + 6 * symx_concretize(R("n6", 0, 2));
  PackedNavBits b; b.addUnsignedLong(x, 40, 1);
  bool thrown = false;
  try { b.insertUnsignedLong(v, pos, n, 1); } catch (InvalidParameter &) { thrown = true; }
  bool ok = pos + n <= 40 && (v >> n) == 0;
  ASSERT(thrown == !ok, "insert accepted exactly when it fits");
  uint64_t want = x;
  if (!thrown) { uint64_t sh = 40 - pos - n, m = ((1ull << n) - 1) << sh; want = (x & ~m) | (v << sh); }
  ASSERT(b.asUnsignedLong(0, 40, 1) == want && b.getNumBits() == 40, "insert changes exactly the addressed bits");
}
// reading past the end is refused
ENTRY check_bounds() {
  PackedNavBits b; b.addUnsignedLong(U("x", 30), 30, 1); b.trimsize();
  int start = R("start", 0, 40); int n = symx_concretize(R("n", 1, 33));
  bool thrown = false; uint64_t r = 0;
  try { r = b.asUnsignedLong(start, n, 1); } catch (InvalidParameter &) { thrown = true; }
  ASSERT(thrown == (start + n > 30), "read refused exactly when bits are not present");
}
// appending works whatever the history of the object
ENTRY check_capacity() {
  uint64_t v = U("v", 32), w = U("w", 32), x = U("x", 62);
  PackedNavBits b;
  int how = symx_concretize(R("how", 0, 4));
  size_t base = 0;
  if (how == 0) { b.addUnsignedLong(1, 5, 1); b.clearBits(); }
  if (how == 1) { b.addUnsignedLong(w, 32, 1); b.trimsize(); base = 32; }
  if (how == 2) { PackedNavBits t; t.addUnsignedLong(w, 32, 1); PackedNavBits u(t); b = u; base = 32; }
  if (how == 3) { PackedNavBits t; t.addUnsignedLong(w, 32, 1); b.addPackedNavBits(t); base = 32; }
  if (how == 4) { for (int i = 0; i < 15; i++) b.addUnsignedLong(x, 62, 1); base = 930; }
  b.addUnsignedLong(v, 32, 1);
  b.addLong((int32_t)w, 40, 1);
  ASSERT(b.getNumBits() == base + 72, "bit count after append");
  ASSERT(b.asUnsignedLong(base, 32, 1) == v, "appended field readable");
  ASSERT(b.asLong(base + 32, 40, 1) == (int32_t)w, "second appended field readable");
  if (base == 32) ASSERT(b.asUnsignedLong(0, 32, 1) == w, "bits before the append kept");
}
// split fields: pieces are concatenated most significant first
ENTRY check_split() {
  uint64_t x = U("x", 60); PackedNavBits b; b.addUnsignedLong(x, 60, 1);
  unsigned s[3] = {3, 40, 20}, n[3] = {5, 9, 11};
  uint64_t p0 = (x >> (60 - 8)) & 31, p1 = (x >> (60 - 49)) & 511, p2 = (x >> (60 - 31)) & 2047;
  uint64_t u2 = (p0 << 9) | p1, u3 = (u2 << 11) | p2;
  ASSERT(b.asUnsignedLong(s, n, 2, 1) == u2, "two-piece unsigned field");
  ASSERT(b.asUnsignedLong(s, n, 3, 1) == u3, "three-piece unsigned field");
  int64_t sg = (p0 >> 4) ? (int64_t)(u3 | ~((1ull << 25) - 1)) : (int64_t)u3;
  ASSERT(b.asLong(s, n, 3, 1) == sg, "three-piece signed field is sign extended");
  ASSERT(b.asSignedDouble(s, n, 3, 0) == (double)sg, "three-piece signed real");
  ASSERT(b.asUnsignedDouble(s, n, 3, 0) == (double)u3, "three-piece unsigned real");
}
// sign and magnitude (GLONASS)
ENTRY check_signmag() {
  unsigned n = symx_concretize(R("n", 2, 64));
  uint64_t a = U("a", 9), sgn = U("s", 1), mag = U("mag", 63); ASSUME((mag >> (n - 1)) == 0);
  PackedNavBits b; b.addUnsignedLong(a, 9, 1); b.addUnsignedLong(sgn, 1, 1); b.addUnsignedLong(mag, n - 1, 1);
  long want = sgn ? -(long)mag : (long)mag;
  ASSERT(b.asSignMagLong(9, n, 1) == want, "sign-magnitude field");
  symx_observe("sm", b.asSignMagLong(9, n, 1));
}
ENTRY check_signmagreal() {
  uint64_t sgn = U("s", 1), mag = U("mag", 26);
  PackedNavBits b; b.addUnsignedLong(sgn, 1, 1); b.addUnsignedLong(mag, 26, 1);
  double want = sgn ? -(double)mag : (double)mag;
  ASSERT(b.asSignMagDouble(0, 27, -20) == want * (1.0 / 1048576), "sign-magnitude real");
  ASSERT(b.asSignMagDouble(0, 27, 4) == want * 16, "scaled up sign-magnitude real");
}
static void scaled_real(int n, int p) {
  double q = p < 0 ? 1.0 / (double)(1ull << -p) : (double)(1ull << p);
  int64_t k = S("k", 32); ASSUME(k >= -(1ll << (n - 1)) && k < (1ll << (n - 1)));
  uint64_t u = (uint64_t)k & (n == 64 ? ~0ull : (1ull << n) - 1);
  PackedNavBits b; b.addUnsignedLong(u, n, 1);
  ASSERT(b.asSignedDouble(0, n, p) == (double)k * q, "signed real decodes to field times scale");
  ASSERT(b.asUnsignedDouble(0, n, p) == (double)u * q, "unsigned real decodes to field times scale");
  PackedNavBits c;
  NOTHROW(c.addSignedDouble((double)k * q, n, p), "representable signed real accepted");
  ASSERT(c.asUnsignedLong(0, n, 1) == u, "signed real encodes to its field");
  PackedNavBits d;
  NOTHROW(d.addUnsignedDouble((double)u * q, n, p), "representable unsigned real accepted");
  ASSERT(d.asUnsignedLong(0, n, 1) == u, "unsigned real encodes to its field");
}
ENTRY check_real8() { scaled_real(8, -5); }
ENTRY check_real16() { scaled_real(16, 4); }
ENTRY check_real24() { scaled_real(24, -43); }
ENTRY check_real32() { scaled_real(32, 0); }
// characters of the navigation character set survive, others are refused, short strings are padded
ENTRY check_text() {
  unsigned char ch[3]; symx_bytes(ch, 3, "ch");
  std::string s((char *)ch, 3);
  bool legal = true;
  for (int i = 0; i < 3; i++) {
    unsigned c = ch[i];
    bool ok = symx_or(symx_or(symx_and(c >= 'A', c <= 'Z'), symx_and(c >= '0', c <= ':')), symx_or(symx_or(c == ' ', c == '"'), symx_or(symx_or(c == '\'', c == '+'), symx_or(symx_and(c >= '-', c <= '/'), c == 0xF8))));
    legal = symx_and(legal, ok);
  }
  PackedNavBits b; bool thrown = false;
  try { b.addString(s, 5); } catch (InvalidParameter &) { thrown = true; }
  ASSERT(thrown == !legal, "text accepted exactly when every character is in the set");
  if (thrown) symx_end();
  ASSERT(b.getNumBits() == 40, "text field width");
  ASSERT(b.asUnsignedLong(0, 24, 1) == (((uint64_t)ch[0] << 16) | (ch[1] << 8) | ch[2]), "text bits");
  ASSERT(b.asUnsignedLong(24, 16, 1) == 0x2020, "blank padding");
}
