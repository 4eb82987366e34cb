// PROPERTY: U01
// SRC: core/lib/Utilities/BinUtils.cpp core/lib/Utilities/Exception.cpp
// BOUND: every value of every 16-, 32- and 64-bit integer and floating-point bit pattern; every offset 0..3 in an 11-byte buffer of any contents
#include "symx.h"
#include "BinUtils.hpp"
#include <cstring>
using namespace gpstk; using namespace gpstk::BinUtils;
template <class T> static uint64_t bitsOf(const T &v) { uint64_t r = 0; memcpy(&r, &v, sizeof v); return r; }
template <class T> static T mk(uint64_t b) { T v; memcpy(&v, &b, sizeof v); return v; }
static uint64_t be(const unsigned char *p, int n) { uint64_t r = 0; for (int i = 0; i < n; i++) r = (r << 8) | p[i]; return r; }
static uint64_t le(const unsigned char *p, int n) { uint64_t r = 0; for (int i = n; i-- > 0;) r = (r << 8) | p[i]; return r; }
#define BOTH(T, in, inL, out, outL, id) do { \
  unsigned pos = symx_concretize(R("pos", 0, 3)); unsigned char b[12], c[12]; symx_bytes(b, 12, "b"); memcpy(c, b, 12); \
  T v; in(b, v, pos); ASSERT(bitsOf(v) == be(b + pos, sizeof(T)), id " from network order"); \
  T w; inL(b, w, pos); ASSERT(bitsOf(w) == le(b + pos, sizeof(T)), id " from little-endian order"); \
  uint64_t x = U("x", 8 * sizeof(T)); T y = mk<T>(x); \
  out(b, y, pos); ASSERT(be(b + pos, sizeof(T)) == x, id " to network order"); \
  for (unsigned i = 0; i < 12; i++) if (i < pos || i >= pos + sizeof(T)) ASSERT(b[i] == c[i], id " touches only its bytes"); \
  outL(b, y, pos); ASSERT(le(b + pos, sizeof(T)) == x, id " to little-endian order"); \
  for (unsigned i = 0; i < 12; i++) if (i < pos || i >= pos + sizeof(T)) ASSERT(b[i] == c[i], id " touches only its bytes (LE)"); } while (0)
ENTRY check_u16() { BOTH(uint16_t, buntohs, buitohs, buhtons, buhtois, "unsigned 16"); }
ENTRY check_u32() { BOTH(uint32_t, buntohl, buitohl, buhtonl, buhtoil, "unsigned 32"); }
ENTRY check_u64() { BOTH(uint64_t, buntohll, buitohll, buhtonll, buhtoill, "unsigned 64"); }
ENTRY check_s16() { BOTH(int16_t, buntohss, buitohss, buhtonss, buhtoiss, "signed 16"); }
ENTRY check_s32() { BOTH(int32_t, buntohsl, buitohsl, buhtonsl, buhtoisl, "signed 32"); }
ENTRY check_s64() { BOTH(int64_t, buntohsll, buitohsll, buhtonsll, buhtoisll, "signed 64"); }
ENTRY check_f32() { BOTH(float, buntohf, buitohf, buhtonf, buhtoif, "float"); }
ENTRY check_f64() { BOTH(double, buntohd, buitohd, buhtond, buhtoid, "double"); }
template <class T> static void vars() {
  unsigned char b[12]; symx_bytes(b, 12, "b"); std::string s((char *)b, 12); unsigned pos = symx_concretize(R("pos", 0, 3));
  uint64_t x = U("x", 8 * sizeof(T)); T y = mk<T>(x);
  ASSERT(bitsOf(decodeVar<T>(s, pos)) == be(b + pos, sizeof(T)), "decode network order");
  ASSERT(bitsOf(decodeVarLE<T>(s, pos)) == le(b + pos, sizeof(T)), "decode little-endian order");
  std::string e = encodeVar<T>(y), l = encodeVarLE<T>(y);
  ASSERT(e.size() == sizeof(T) && be((const unsigned char *)e.data(), sizeof(T)) == x, "encode network order");
  ASSERT(l.size() == sizeof(T) && le((const unsigned char *)l.data(), sizeof(T)) == x, "encode little-endian order");
  std::string t = s; encodeVar<T>(y, t, pos);
  ASSERT(t.size() == 12 && be((const unsigned char *)t.data() + pos, sizeof(T)) == x, "encode in place, network order");
  for (unsigned i = 0; i < 12; i++) if (i < pos || i >= pos + sizeof(T)) ASSERT((unsigned char)t[i] == b[i], "in-place encoding touches only its bytes");
  t = s; encodeVarLE<T>(y, t, pos);
  ASSERT(t.size() == 12 && le((const unsigned char *)t.data() + pos, sizeof(T)) == x, "encode in place, little-endian order");
  std::string h = s; T d = decodeVar<T>(h);
  ASSERT(bitsOf(d) == be(b, sizeof(T)) && h.size() == 12 - sizeof(T) && (unsigned char)h[0] == b[sizeof(T)], "decoding from the head consumes the item");
  h = s; d = decodeVarLE<T>(h);
  ASSERT(bitsOf(d) == le(b, sizeof(T)) && h.size() == 12 - sizeof(T) && (unsigned char)h[0] == b[sizeof(T)], "little-endian decoding from the head consumes the item");
}
ENTRY check_var16() { vars<uint16_t>(); }
ENTRY check_var32() { vars<int32_t>(); }
ENTRY check_var64() { vars<uint64_t>(); }
ENTRY check_varf() { vars<float>(); }
ENTRY check_vard() { vars<double>(); }
