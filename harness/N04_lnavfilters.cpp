// PROPERTY: N04
// SRC: core/lib/NavFilter/LNavParityFilter.cpp core/lib/NavFilter/LNavTLMHOWFilter.cpp core/lib/NavFilter/LNavEmptyFilter.cpp core/lib/NavFilter/LNavCookFilter.cpp
// SRC: core/lib/NavFilter/LNavAlmValFilter.cpp core/lib/NavFilter/NavFilter.cpp core/lib/NavFilter/NavFilterKey.cpp core/lib/NavFilter/LNavFilterData.cpp core/lib/GNSSEph/EngNav.cpp core/lib/Utilities/Exception.cpp core/lib/TimeHandling/CommonTime.cpp core/lib/RefTime/TimeSystem.cpp
// BOUND: every ten-word subframe (30 bits per word)
// OUTSIDE: the two unused bits above each 30-bit word
// OPT: query-timeout=60
#include "symx.h"
#include "LNavParityFilter.hpp"
#include "LNavTLMHOWFilter.hpp"
#include "LNavEmptyFilter.hpp"
#include "LNavCookFilter.hpp"
#include "LNavAlmValFilter.hpp"
#include "NavMsgDataWords.hpp"
#include "EngNav.hpp"
using namespace gpstk;
static uint32_t W[10], O[10];
static void words() { for (int i = 0; i < 10; i++) O[i] = W[i] = U("w", 30); }
static uint64_t bit(const uint32_t *w, int b) { return (w[(b - 1) / 30] >> (29 - (b - 1) % 30)) & 1; }         // bit 1..300
static uint64_t bits(const uint32_t *w, int b, int n) { return (w[(b - 1) / 30] >> (30 - (b - 1) % 30 - n)) & ((1u << n) - 1); }
static bool same() { bool r = true; for (int i = 0; i < 10; i++) r = symx_and(r, W[i] == O[i]); return r; }
// runs a filter on one message: 1 accepted, 0 rejected, -1 lost or duplicated
static int one(NavFilter &f, NavFilterKey *k) {
  NavFilter::NavMsgList in, out; in.push_back(k); f.validate(in, out);
  NavFilter::NavMsgList fin; f.finalize(fin);
  if (!fin.empty()) return -1;
  if (out.size() == 1 && f.rejected.empty()) return out.front() == k ? 1 : -1;
  if (out.empty() && f.rejected.size() == 1) return f.rejected.front() == k ? 0 : -1;
  return -1;
}
ENTRY check_parity() {
  words(); LNavFilterData d; d.sf = W; LNavParityFilter f; int r = one(f, &d);
  // IS-GPS-200 table 20-XIV: source bits of D25..D30
  static const uint32_t H[6] = {0x3b1f3480, 0x1d8f9a40, 0x2ec7cd00, 0x1763e680, 0x2bb1f340, 0x0b7a89c0}; bool ok = true;
  for (int i = 0; i < 10; i++) {
    uint32_t p29 = i ? (W[i - 1] >> 1) & 1 : 0, p30 = i ? W[i - 1] & 1 : 0; (void)p29;
    for (int k = 0; k < 6; k++) { uint32_t use = (k == 0 || k == 2 || k == 5) ? p29 : p30; uint32_t v = (W[i] & H[k]) >> 6, x = use; for (int b = 0; b < 24; b++) x ^= (v >> b) & 1; ok = symx_and(ok, (x & 1) == ((W[i] >> (5 - k)) & 1)); }
  }
  ASSERT(r != -1, "each message is either accepted or rejected once"); ASSERT((r == 1) == ok, "a subframe is accepted exactly when the parity of all ten words is consistent"); ASSERT(same(), "the message is not modified");
}
ENTRY check_tlmhow() {
  words(); LNavFilterData d; d.sf = W; LNavTLMHOWFilter f; int r = one(f, &d);
  uint64_t pre = bits(W, 1, 8), tow = bits(W, 31, 17), id = bits(W, 50, 3), z = bits(W, 59, 2);
  ASSERT(r != -1, "each message is either accepted or rejected once");
  ASSERT((r == 1) == symx_and(symx_and(pre == 0x8b, tow <= 100799), symx_and(symx_and(id >= 1, id <= 5), z == 0)), "accepted exactly with preamble, valid time count, subframe id 1-5 and zero parity bits");
  ASSERT(same(), "the message is not modified");
}
ENTRY check_empty() {
  words(); LNavFilterData d; d.sf = W; LNavEmptyFilter f; int r = one(f, &d);
  uint64_t all = 0; for (int i = 0; i < 10; i++) all |= W[i];
  uint64_t id = bits(W, 50, 3); bool pat = symx_or(id == 4, id == 5);
  // data bits after the page identifier alternate one and zero: word 3 bits 13-24, words 4-10 bits 5-24; whether the first four bits
  // of the field in each word count is left open
  for (int b = 73; b <= 84; b++) pat = symx_and(pat, bit(W, b) == (uint64_t)(b & 1));
  for (int w = 3; w < 10; w++) for (int b = 5; b <= 24; b++) pat = symx_and(pat, bit(W, w * 30 + b) == (uint64_t)(b & 1));
  bool full = pat; for (int w = 2; w < 10; w++) for (int b = 1; b <= 4; b++) full = symx_and(full, bit(W, w * 30 + b + (w == 2 ? 8 : 0)) == (uint64_t)(b & 1));
  ASSERT(r != -1, "each message is either accepted or rejected once");
  ASSERT(symx_or(r == 0, !symx_or(all == 0, full)), "all zeros, or a subframe 4 or 5 filled with alternating ones and zeros, is rejected");
  ASSERT(symx_or(r == 1, symx_or(all == 0, pat)), "any other content is accepted");
  ASSERT(same(), "the message is not modified");
}
ENTRY check_almval() {
  words(); LNavFilterData d; d.sf = W; LNavAlmValFilter f; ASSERT(one(f, &d) == 1, "accepted"); ASSERT(same(), "the message is not modified");
}
ENTRY check_cook() {
  words(); LNavFilterData d; d.sf = W; LNavCookFilter f; int r = one(f, &d); ASSERT(r == 1, "every message is passed on");
  uint64_t pre = bits(O, 1, 8); uint32_t x[10];
  uint32_t inv = (uint32_t)symx_ite_u64(pre == 0x74, 0x3fffffff, 0); for (int i = 0; i < 10; i++) x[i] = O[i] ^ inv;
  bool up = symx_or(pre == 0x8b, pre == 0x74);
  bool ok = W[0] == x[0]; for (int i = 1; i < 10; i++) ok = symx_and(ok, W[i] == (uint32_t)symx_ite_u64(symx_and(up, x[i - 1] & 1), x[i] ^ 0x3fffffc0, x[i]));
  ASSERT(ok, "an inverted frame is turned, then the data bits of each word following a word that ends in one are inverted, all else is kept");
}
// a subframe as transmitted (either polarity of the carrier) is restored to the source data
ENTRY check_cooktransmitted() {
  uint32_t src[10], tx[10]; for (int i = 0; i < 10; i++) src[i] = U("d", 24) << 6; src[0] = (src[0] & 0x3fffff) | (0x8bu << 22);
  uint32_t prev = 0; for (int i = 0; i < 10; i++) { tx[i] = src[i] ^ ((prev & 1) ? 0x3fffffc0 : 0); tx[i] = (tx[i] & 0x3fffffc0) | U("p", 6); prev = tx[i]; }
  uint32_t neg = U("neg", 1) ? 0x3fffffff : 0; for (int i = 0; i < 10; i++) W[i] = tx[i] ^ neg;
  LNavFilterData d; d.sf = W; LNavCookFilter f; ASSERT(one(f, &d) == 1, "passed on");
  bool ok = true; for (int i = 0; i < 10; i++) ok = symx_and(ok, symx_and((W[i] & 0x3fffffc0) == src[i], (W[i] & 63) == (tx[i] & 63)));
  ASSERT(ok, "data bits are the source bits for either carrier polarity");
}
ENTRY check_getbits() {
  words(); NavMsgDataWords<30> d; d.sf = W; unsigned s = (unsigned)R("start", 1, 300), n = (unsigned)R("num", 0, 30); ASSUME((s - 1) % 30 + n <= 30);
  uint64_t x = ((uint64_t)W[(s - 1) / 30] << ((s - 1) % 30) & 0x3fffffff) >> (30 - n);
  ASSERT(d.getBits(s, n) == x, "bits within one word are returned most significant first");
}
