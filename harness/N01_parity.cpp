// PROPERTY: N01
// SRC: core/lib/GNSSEph/EngNav.cpp core/lib/Utilities/Exception.cpp
// BOUND: every 30-bit word and every previous word (all 2^30 x 2^30), word-2/10 style and plain; subframes of 10 words with every content
// OUTSIDE: the two top bits of each 32-bit container are zero, as the format requires
#include "symx.h"
#include "EngNav.hpp"
#include <vector>
using namespace gpstk;
// IS-GPS-200 table 20-XIV, by bit numbers of the word (1 = first transmitted)
static const int EQ[6][16] = {
  {1,2,3,5,6,10,11,12,13,14,17,18,20,23,0}, {2,3,4,6,7,11,12,13,14,15,18,19,21,24,0}, {1,3,4,5,7,8,12,13,14,15,16,19,20,22,0},
  {2,4,5,6,8,9,13,14,15,16,17,20,21,23,0}, {1,3,5,6,7,9,10,14,15,16,17,18,21,22,24,0}, {3,5,6,8,9,10,11,13,15,19,22,23,24,0}};
static const bool USE29[6] = {true, false, true, false, false, true};
static uint32_t bitn(uint32_t w, int n) { return (w >> (30 - n)) & 1; }
static uint32_t spec(uint32_t d, uint32_t prev) {       // d: source data bits
  uint32_t r = 0;
  for (int i = 0; i < 6; i++) {
    uint32_t p = USE29[i] ? bitn(prev, 29) : bitn(prev, 30);
    for (int k = 0; EQ[i][k]; k++) p ^= bitn(d, EQ[i][k]);
    r = (r << 1) | p;
  }
  return r;
}
ENTRY check_compute() {
  uint32_t w = U("w", 30), p = U("p", 30);
  ASSERT(EngNav::computeParity(w, p, true) == spec(w, p), "parity of upright data");
  uint32_t inv = bitn(p, 30) ? 0xffffffffu : 0;
  ASSERT(EngNav::computeParity(w, p, false) == spec(w ^ inv, p), "parity of transmitted data");
  symx_observe("p", EngNav::computeParity(w, p, true));
}
ENTRY check_fix_plain() {
  uint32_t w = U("w", 30), p = U("p", 30); bool up = U("up", 1);
  uint32_t f = EngNav::fixParity(w, p, false, up);
  ASSERT((f >> 6) == (w >> 6), "data bits kept");
  ASSERT((f & 0x3f) == EngNav::computeParity(f, p, up), "fixed word passes the check");
}
ENTRY check_fix_nib() {
  uint32_t w = U("w", 30), p = U("p", 30); bool up = U("up", 1);
  uint32_t f = EngNav::fixParity(w, p, true, up);
  ASSERT((f >> 8) == (w >> 8), "information bits kept");
  ASSERT((f & 0x3f) == EngNav::computeParity(f, p, up), "fixed word with non-information bits passes the check");
  ASSERT((f & 3) == 0, "last two parity bits are zero");
}
// a fixed subframe passes; any single, double or triple bit error in one word is detected
ENTRY check_subframe() {
  uint32_t sf[10];
  for (int i = 0; i < 10; i++) sf[i] = EngNav::fixParity(U("w", 24) << 6, i ? sf[i - 1] : 0, i == 1 || i == 9, true);
  ASSERT(EngNav::checkParity(sf, true), "fixed subframe passes");
  std::vector<uint32_t> v(sf, sf + 10);
  ASSERT(EngNav::checkParity(v, true), "fixed subframe passes as a vector");
}
ENTRY check_check() {
  uint32_t sf[10]; bool ok = true; bool up = U("up", 1);
  for (int i = 0; i < 10; i++) {
    sf[i] = U("w", 30);
    uint32_t prev = i ? sf[i - 1] : 0, inv = (!up && bitn(prev, 30)) ? 0xffffffffu : 0;
    ok = symx_and(ok, (sf[i] & 0x3f) == spec(sf[i] ^ inv, prev));
  }
  ASSERT(EngNav::checkParity(sf, up) == ok, "check accepts exactly the consistent subframes");
}
ENTRY check_errors() {
  uint32_t w = U("w", 30), p = U("p", 30);
  int a = R("a", 0, 29), b = R("b", 0, 29), c = R("c", 0, 29);
  uint32_t e = (1u << a) | (1u << b) | (1u << c);
  uint32_t f = EngNav::fixParity(w & ~0x3fu, p, false, true) ^ e;
  ASSERT((f & 0x3f) != EngNav::computeParity(f, p, true), "every error of up to three bits in a word is detected");
}
