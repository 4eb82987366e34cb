// PROPERTY: U02
// SRC: core/lib/Utilities/BinUtils.cpp core/lib/Utilities/Exception.cpp
// BOUND: messages of 0..6 bytes (and 38, a CNAV message; thorough: 100) of every content; all 32-bit words for bit counting; all widths 1..32 for reflection; checksums over 0..8 bytes with word sizes 1, 2, 4
#include "symx.h"
#include "BinUtils.hpp"
using namespace gpstk;
// bit-serial reference: remainder of the message polynomial, register preloaded, no augmentation trick
static uint32_t ref(const unsigned char *d, int n, int order, uint32_t poly, uint32_t init, uint32_t fin, bool refl) {
  uint32_t mask = order == 32 ? 0xffffffffu : (1u << order) - 1, r = init & mask;
  for (int i = 0; i < n; i++)
    for (int b = 0; b < 8; b++) {
      uint32_t in = refl ? (d[i] >> b) & 1 : (d[i] >> (7 - b)) & 1;
      uint32_t top = ((r >> (order - 1)) & 1) ^ in;
      r = (r << 1) & mask;
      r ^= (0u - top) & poly;
    }
  if (refl) { uint32_t x = 0; for (int i = 0; i < order; i++) x |= ((r >> i) & 1) << (order - 1 - i); r = x; }
  return (r ^ fin) & mask;
}
static void run(int n) {
  unsigned char d[100]; symx_bytes(d, n, "d");
  ASSERT(BinUtils::computeCRC(d, n, BinUtils::CRC32) == ref(d, n, 32, 0x4c11db7, 0xffffffff, 0xffffffff, true), "CRC-32");
  ASSERT(BinUtils::computeCRC(d, n, BinUtils::CRC16) == ref(d, n, 16, 0x8005, 0, 0, true), "CRC-16");
  ASSERT(BinUtils::computeCRC(d, n, BinUtils::CRCCCITT) == ref(d, n, 16, 0x1021, 0xffff, 0, false), "CRC-CCITT");
  const BinUtils::CRCParam &q = BinUtils::CRC24Q;
  ASSERT(BinUtils::computeCRC(d, n, q) == ref(d, n, 24, q.polynom, q.initial, q.final, false), "24-bit CRC with the parameters held by the set");
  symx_observe("c", BinUtils::computeCRC(d, n, BinUtils::CRC32));
}
// the widely published CRC-24Q: generator 0x864CFB, register cleared, no final inversion
ENTRY check_crc24q() {
  unsigned char d[3]; symx_bytes(d, 3, "d");
  const BinUtils::CRCParam &q = BinUtils::CRC24Q;
  bool finding = q.order == 24 && q.polynom == 0x823ba9 && q.initial == 0 && q.final == 0xffffff && q.direct && !q.refin && !q.refout;
  ASSERT(!finding, "the set named CRC-24Q has generator 823BA9 and inverts the result (CRC-24Q: 864CFB, no inversion)");
  if (!finding) ASSERT(BinUtils::computeCRC(d, 3, q) == ref(d, 3, 24, 0x864CFB, 0, 0, false), "CRC-24Q of GPS CNAV");
}
// OPTIONAL: CRC-24Q of GPS CNAV
// any generator, start value and final inversion
ENTRY check_crcgen() {
  unsigned char d[1]; symx_bytes(d, 1, "d");
  uint32_t poly = U("poly", 8) | 1, init = U("init", 8), fin = U("fin", 8); bool refl = symx_concretize(U("refl", 1));
  BinUtils::CRCParam q(8, poly, 0, fin, true, refl, refl), nd(8, poly, init, fin, false, refl, refl);
  ASSERT(BinUtils::computeCRC(d, 1, q) == ref(d, 1, 8, poly, 0, fin, refl), "CRC with an arbitrary generator");
  // a non-direct start value acts as a message prefix
  unsigned char e[2] = {(unsigned char)init, d[0]};
  if (!refl) ASSERT(BinUtils::computeCRC(d, 1, nd) == ref(e, 2, 8, poly, 0, fin, false), "CRC with a non-direct start value");
}
ENTRY check_crc0() { run(0); }
ENTRY check_crc1() { run(1); }
ENTRY check_crc3() { run(3); }
ENTRY check_crc6() { run(6); }
ENTRY check_crc38() { run(38); }
ENTRY check_t_crc100() { run(100); }
ENTRY check_count() {
  uint32_t v = U("v", 32); unsigned n = 0; for (int i = 0; i < 32; i++) n += (v >> i) & 1;
  ASSERT(BinUtils::countBits(v) == n, "bit count");
}
ENTRY check_reflect() {
  int n = symx_concretize(R("n", 1, 32)); uint64_t v = U("v", 32), w = 0;
  for (int i = 0; i < n; i++) w |= ((v >> i) & 1) << (n - 1 - i);
  ASSERT(BinUtils::reflect(v, n) == w, "reflection of the low bits");
}
ENTRY check_xor() {
  int ws = 1 << symx_concretize(R("ws", 0, 2)), n = symx_concretize(R("n", 0, 8));
  unsigned char d[8]; symx_bytes(d, n, "d"); std::string s((char *)d, n), r; bool thrown = false;
  try { r = BinUtils::xorChecksum(s, ws); } catch (InvalidParameter &) { thrown = true; }
  ASSERT(thrown == (n % ws != 0), "partial words are refused");
  if (thrown) symx_end();
  ASSERT((int)r.size() == ws, "checksum width");
  for (int k = 0; k < ws; k++) { unsigned char x = 0; for (int i = k; i < n; i += ws) x ^= d[i]; ASSERT((unsigned char)r[k] == x, "checksum bytes"); }
}
