// PROPERTY: N02
// SRC: core/lib/GNSSEph/EngNav.cpp core/lib/Utilities/Exception.cpp
// BOUND: all ten-word subframes of every page type, parity bits arbitrary; reference weeks 0..32000
// OUTSIDE: reserved fields; relative rounding errors below 1e-12
// OPT: fpmode=2 query-timeout=40
// The field tables below are those of IS-GPS-200 (section 20.3.3, figures 20-1 and tables 20-I, III, VI, IX, X).
#include "symx.h"
#include "EngNav.hpp"
#include <cmath>
using namespace gpstk;
struct Fld { int out, p2, ppi; double sc; int sg; int b1, n1, b2, n2; const char *id; };
static uint32_t W[10]; static double out[60];
static uint64_t bitsof(int b, int n) { uint64_t v = 0; int w = (b - 1) / 30, o = (b - 1) % 30; return (W[w] >> (30 - o - n)) & ((1u << n) - 1); }
static double pw(int k) { double r = 1; for (; k > 0; k--) r *= 3.1415926535897932; for (; k < 0; k++) r /= 3.1415926535897932; return r; }
static void field(const Fld &f) {
  int n = f.n1 + f.n2; uint64_t v = bitsof(f.b1, f.n1); if (f.n2) v = (v << f.n2) | bitsof(f.b2, f.n2);
  int64_t s = f.sg ? (int64_t)(v << (64 - n)) >> (64 - n) : (int64_t)v;
  double k = std::ldexp(f.sc * pw(f.ppi), f.p2), x = (double)s * k;
  ASSERT(fabs(out[f.out] - x) <= 1e-12 * fabs(x), f.id);
}
static void common(int sf, int lo, int hi) {
  EngNav e; for (int i = 0; i < 10; i++) W[i] = U("w", 30);
  W[1] = (W[1] & ~(7u << 8)) | ((uint32_t)sf << 8);
  if (lo >= 0) { uint32_t p = (uint32_t)R("page", lo, hi); W[2] = (W[2] & ~(63u << 22)) | (p << 22); }
  for (int i = 0; i < 60; i++) out[i] = -1;
}
static short week;
static void run(int sf, int lo, int hi) {
  common(sf, lo, hi); week = (short)R("week", 0, 32000);
  ASSERT(EngNav::subframeConvert(W, week, out), "subframe is decoded");
  static const Fld H[] = {{0,0,0,1,0,1,8,0,0,"preamble"},{1,0,0,1,0,9,14,0,0,"telemetry message"},{2,0,0,6,0,31,17,0,0,"time of week"},{3,0,0,1,0,48,2,0,0,"alert and anti-spoof flags"},{4,0,0,1,0,50,3,0,0,"subframe id"}};
  for (auto &f : H) field(f);
}
static void weekfield(int o, int b, int n) {
  long x = (long)out[o], full = week, half = 1L << (n - 1); long raw = bitsof(b, n);
  ASSERT((x & ((1L << n) - 1)) == raw && x - full <= half && full - x <= half, "truncated week is expanded next to the reference week");
}

ENTRY check_pattern1() {
  run(1, -1, -1);
  static const Fld F[] = {{6,0,0,1,0,71,2,0,0,"codes on L2"},
    {7,0,0,1,0,73,4,0,0,"accuracy index"},
    {8,0,0,1,0,77,6,0,0,"health"},
    {9,11,0,1,0,83,2,211,8,"IODC"},
    {10,0,0,1,0,91,1,0,0,"L2 P data flag"},
    {11,-31,0,1,1,197,8,0,0,"group delay"},
    {12,4,0,1,0,219,16,0,0,"clock epoch"},
    {13,-55,0,1,1,241,8,0,0,"af2"},
    {14,-43,0,1,1,249,16,0,0,"af1"},
    {15,-31,0,1,1,271,22,0,0,"af0"}};
  for (auto &f : F) field(f);
  weekfield(5, 61, 10);
}
ENTRY check_pattern2() {
  run(2, -1, -1);
  static const Fld F[] = {{5,11,0,1,0,61,8,0,0,"IODE"},
    {6,-5,0,1,1,69,16,0,0,"Crs"},
    {7,-43,1,1,1,91,16,0,0,"delta n"},
    {8,-31,1,1,1,107,8,121,24,"M0"},
    {9,-29,0,1,1,151,16,0,0,"Cuc"},
    {10,-33,0,1,0,167,8,181,24,"eccentricity"},
    {11,-29,0,1,1,211,16,0,0,"Cus"},
    {12,-19,0,1,0,227,8,241,24,"square root of A"},
    {13,4,0,1,0,271,16,0,0,"ephemeris epoch"},
    {14,0,0,1,0,287,1,0,0,"fit interval flag"},
    {15,0,0,900,0,288,5,0,0,"age of data offset"}};
  for (auto &f : F) field(f);
}
ENTRY check_pattern3() {
  run(3, -1, -1);
  static const Fld F[] = {{5,-29,0,1,1,61,16,0,0,"Cic"},
    {6,-31,1,1,1,77,8,91,24,"OMEGA0"},
    {7,-29,0,1,1,121,16,0,0,"Cis"},
    {8,-31,1,1,1,137,8,151,24,"i0"},
    {9,-5,0,1,1,181,16,0,0,"Crc"},
    {10,-31,1,1,1,197,8,211,24,"omega"},
    {11,-43,1,1,1,241,24,0,0,"OMEGADOT"},
    {12,11,0,1,0,271,8,0,0,"IODE"},
    {13,-43,1,1,1,279,14,0,0,"IDOT"}};
  for (auto &f : F) field(f);
}
ENTRY check_pattern4() {
  run(4, 0, 32);
  static const Fld F[] = {{5,0,0,1,0,61,2,0,0,"data id"},
    {6,0,0,1,0,63,6,0,0,"page id"},
    {7,-21,0,1,0,69,16,0,0,"eccentricity"},
    {8,12,0,1,0,91,8,0,0,"almanac epoch"},
    {9,-19,1,1,1,99,16,0,0,"inclination offset"},
    {10,-38,1,1,1,121,16,0,0,"OMEGADOT"},
    {11,0,0,1,0,137,8,0,0,"health"},
    {12,-11,0,1,0,151,24,0,0,"square root of A"},
    {13,-23,1,1,1,181,24,0,0,"OMEGA0"},
    {14,-23,1,1,1,211,24,0,0,"omega"},
    {15,-23,1,1,1,241,24,0,0,"M0"},
    {16,-20,0,1,1,271,8,290,3,"af0"},
    {17,-38,0,1,1,279,11,0,0,"af1"},
    {19,0,0,1,0,63,6,0,0,"PRN"}};
  for (auto &f : F) field(f);
  ASSERT(out[18] == (double)week, "reference week is reported");
}
ENTRY check_pattern5() {
  run(5, 51, 51);
  static const Fld F[] = {{5,0,0,1,0,61,2,0,0,"data id"},
    {6,0,0,1,0,63,6,0,0,"page id"},
    {7,0,0,1,0,77,8,0,0,"almanac week"},
    {8,0,0,1,0,91,6,0,0,"health of satellite 1"},
    {9,0,0,1,0,97,6,0,0,"health of satellite 2"},
    {10,0,0,1,0,103,6,0,0,"health of satellite 3"},
    {11,0,0,1,0,109,6,0,0,"health of satellite 4"},
    {12,0,0,1,0,121,6,0,0,"health of satellite 5"},
    {13,0,0,1,0,127,6,0,0,"health of satellite 6"},
    {14,0,0,1,0,133,6,0,0,"health of satellite 7"},
    {15,0,0,1,0,139,6,0,0,"health of satellite 8"},
    {16,0,0,1,0,151,6,0,0,"health of satellite 9"},
    {17,0,0,1,0,157,6,0,0,"health of satellite 10"},
    {18,0,0,1,0,163,6,0,0,"health of satellite 11"},
    {19,0,0,1,0,169,6,0,0,"health of satellite 12"},
    {20,0,0,1,0,181,6,0,0,"health of satellite 13"},
    {21,0,0,1,0,187,6,0,0,"health of satellite 14"},
    {22,0,0,1,0,193,6,0,0,"health of satellite 15"},
    {23,0,0,1,0,199,6,0,0,"health of satellite 16"},
    {24,0,0,1,0,211,6,0,0,"health of satellite 17"},
    {25,0,0,1,0,217,6,0,0,"health of satellite 18"},
    {26,0,0,1,0,223,6,0,0,"health of satellite 19"},
    {27,0,0,1,0,229,6,0,0,"health of satellite 20"},
    {28,0,0,1,0,241,6,0,0,"health of satellite 21"},
    {29,0,0,1,0,247,6,0,0,"health of satellite 22"},
    {30,0,0,1,0,253,6,0,0,"health of satellite 23"},
    {31,0,0,1,0,259,6,0,0,"health of satellite 24"}};
  for (auto &f : F) field(f);
}
ENTRY check_pattern6() {
  run(4, 52, 54);
  static const Fld F[] = {{5,0,0,1,0,61,2,0,0,"data id"},
    {6,0,0,1,0,63,6,0,0,"page id"}};
  for (auto &f : F) field(f);
}
ENTRY check_pattern6b() {
  run(4, 57, 57);
  static const Fld F[] = {{5,0,0,1,0,61,2,0,0,"data id"},
    {6,0,0,1,0,63,6,0,0,"page id"}};
  for (auto &f : F) field(f);
}
ENTRY check_pattern7() {
  run(4, 58, 62);
  static const Fld F[] = {{5,0,0,1,0,61,2,0,0,"data id"},
    {6,0,0,1,0,63,6,0,0,"page id"}};
  for (auto &f : F) field(f);
}
ENTRY check_pattern8() {
  run(4, 56, 56);
  static const Fld F[] = {{5,0,0,1,0,61,2,0,0,"data id"},
    {6,0,0,1,0,63,6,0,0,"page id"},
    {7,-30,0,1,1,69,8,0,0,"alpha0"},
    {8,-27,-1,1,1,77,8,0,0,"alpha1"},
    {9,-24,-2,1,1,91,8,0,0,"alpha2"},
    {10,-24,-3,1,1,99,8,0,0,"alpha3"},
    {11,11,0,1,1,107,8,0,0,"beta0"},
    {12,14,-1,1,1,121,8,0,0,"beta1"},
    {13,16,-2,1,1,129,8,0,0,"beta2"},
    {14,16,-3,1,1,137,8,0,0,"beta3"},
    {15,-30,0,1,1,181,24,211,8,"A0"},
    {16,-50,0,1,1,151,24,0,0,"A1"},
    {17,12,0,1,0,219,8,0,0,"UTC reference time"},
    {19,0,0,1,1,241,8,0,0,"leap seconds"},
    {21,0,0,1,0,257,8,0,0,"day number"},
    {22,0,0,1,1,271,8,0,0,"future leap seconds"}};
  for (auto &f : F) field(f);
  weekfield(18, 227, 8); weekfield(20, 249, 8);
}
ENTRY check_pattern9() {
  run(4, 63, 63);
  static const Fld F[] = {{5,0,0,1,0,61,2,0,0,"data id"},
    {6,0,0,1,0,63,6,0,0,"page id"},
    {7,0,0,1,0,69,4,0,0,"configuration of satellite 1"},
    {8,0,0,1,0,73,4,0,0,"configuration of satellite 2"},
    {9,0,0,1,0,77,4,0,0,"configuration of satellite 3"},
    {10,0,0,1,0,81,4,0,0,"configuration of satellite 4"},
    {11,0,0,1,0,91,4,0,0,"configuration of satellite 5"},
    {12,0,0,1,0,95,4,0,0,"configuration of satellite 6"},
    {13,0,0,1,0,99,4,0,0,"configuration of satellite 7"},
    {14,0,0,1,0,103,4,0,0,"configuration of satellite 8"},
    {15,0,0,1,0,107,4,0,0,"configuration of satellite 9"},
    {16,0,0,1,0,111,4,0,0,"configuration of satellite 10"},
    {17,0,0,1,0,121,4,0,0,"configuration of satellite 11"},
    {18,0,0,1,0,125,4,0,0,"configuration of satellite 12"},
    {19,0,0,1,0,129,4,0,0,"configuration of satellite 13"},
    {20,0,0,1,0,133,4,0,0,"configuration of satellite 14"},
    {21,0,0,1,0,137,4,0,0,"configuration of satellite 15"},
    {22,0,0,1,0,141,4,0,0,"configuration of satellite 16"},
    {23,0,0,1,0,151,4,0,0,"configuration of satellite 17"},
    {24,0,0,1,0,155,4,0,0,"configuration of satellite 18"},
    {25,0,0,1,0,159,4,0,0,"configuration of satellite 19"},
    {26,0,0,1,0,163,4,0,0,"configuration of satellite 20"},
    {27,0,0,1,0,167,4,0,0,"configuration of satellite 21"},
    {28,0,0,1,0,171,4,0,0,"configuration of satellite 22"},
    {29,0,0,1,0,181,4,0,0,"configuration of satellite 23"},
    {30,0,0,1,0,185,4,0,0,"configuration of satellite 24"},
    {31,0,0,1,0,189,4,0,0,"configuration of satellite 25"},
    {32,0,0,1,0,193,4,0,0,"configuration of satellite 26"},
    {33,0,0,1,0,197,4,0,0,"configuration of satellite 27"},
    {34,0,0,1,0,201,4,0,0,"configuration of satellite 28"},
    {35,0,0,1,0,211,4,0,0,"configuration of satellite 29"},
    {36,0,0,1,0,215,4,0,0,"configuration of satellite 30"},
    {37,0,0,1,0,219,4,0,0,"configuration of satellite 31"},
    {38,0,0,1,0,223,4,0,0,"configuration of satellite 32"},
    {39,0,0,1,0,229,6,0,0,"health of satellite 25"},
    {40,0,0,1,0,241,6,0,0,"health of satellite 26"},
    {41,0,0,1,0,247,6,0,0,"health of satellite 27"},
    {42,0,0,1,0,253,6,0,0,"health of satellite 28"},
    {43,0,0,1,0,259,6,0,0,"health of satellite 29"},
    {44,0,0,1,0,271,6,0,0,"health of satellite 30"},
    {45,0,0,1,0,277,6,0,0,"health of satellite 31"},
    {46,0,0,1,0,283,6,0,0,"health of satellite 32"}};
  for (auto &f : F) field(f);
}
ENTRY check_pattern10() {
  run(4, 55, 55);
  static const Fld F[] = {{5,0,0,1,0,61,2,0,0,"data id"},
    {6,0,0,1,0,63,6,0,0,"page id"},
    {7,0,0,1,0,69,8,0,0,"character 1"},
    {8,0,0,1,0,77,8,0,0,"character 2"},
    {9,0,0,1,0,91,8,0,0,"character 3"},
    {10,0,0,1,0,99,8,0,0,"character 4"},
    {11,0,0,1,0,107,8,0,0,"character 5"},
    {12,0,0,1,0,121,8,0,0,"character 6"},
    {13,0,0,1,0,129,8,0,0,"character 7"},
    {14,0,0,1,0,137,8,0,0,"character 8"},
    {15,0,0,1,0,151,8,0,0,"character 9"},
    {16,0,0,1,0,159,8,0,0,"character 10"},
    {17,0,0,1,0,167,8,0,0,"character 11"},
    {18,0,0,1,0,181,8,0,0,"character 12"},
    {19,0,0,1,0,189,8,0,0,"character 13"},
    {20,0,0,1,0,197,8,0,0,"character 14"},
    {21,0,0,1,0,211,8,0,0,"character 15"},
    {22,0,0,1,0,219,8,0,0,"character 16"},
    {23,0,0,1,0,227,8,0,0,"character 17"},
    {24,0,0,1,0,241,8,0,0,"character 18"},
    {25,0,0,1,0,249,8,0,0,"character 19"},
    {26,0,0,1,0,257,8,0,0,"character 20"},
    {27,0,0,1,0,271,8,0,0,"character 21"},
    {28,0,0,1,0,279,8,0,0,"character 22"}};
  for (auto &f : F) field(f);
}
ENTRY check_undefined() {
  EngNav e; for (int i = 0; i < 10; i++) W[i] = U("w", 30); uint32_t sf = (W[1] >> 8) & 7, pg = (W[2] >> 22) & 63;
  ASSUME(symx_or(symx_or(sf < 1, sf > 5), symx_and(sf >= 4, symx_and(pg > 32, pg < 51))));
  ASSERT(!EngNav::subframeConvert(W, 100, out), "a subframe without a defined page is refused");
}
