// PROPERTY: E03
// SRC: core/lib/GNSSEph/ClockSatStore.cpp core/lib/GNSSEph/PositionSatStore.cpp core/lib/TimeHandling/CommonTime.cpp core/lib/RefTime/TimeSystem.cpp core/lib/Utilities/Exception.cpp core/lib/Utilities/StringUtils.cpp core/lib/GNSSCore/SatelliteSystem.cpp core/lib/Math/Triple.cpp
// BOUND: tables of up to 7 records at any increasing times (milliseconds of one day) of one or two satellites, windows of 2, 4 and 6 points, any requested time; record contents any doubles
// OUTSIDE: longer tables and histories; the rounding of interpolated values
// ASSUMES: none
// OPT: merge=0 query-timeout=40 max-paths=200000
#include "symx.h"
#include <sstream>
#include <map>
#include <list>
#include <set>
#include <vector>
#include <iomanip>
#define protected public
#define private public
#include "CommonTime.hpp"
#include "TabularSatStore.hpp"
#include "ClockSatStore.hpp"
#include "PositionSatStore.hpp"
#undef protected
#undef private
namespace gpstk { std::string printTime(const CommonTime &, const std::string &) { return ""; } }   // text of error messages only
using namespace gpstk;
static const int64_t DAY = 86400000; static const int D0 = 2458850;
static CommonTime at(int64_t ms) { CommonTime t(TimeSystem::GPS); t.m_day = D0; t.m_msod = ms; t.m_fsod = 0; return t; }
static int64_t val(const CommonTime &t) { return ((int64_t)t.m_day - D0) * DAY + t.m_msod; }
static SatID sid(int s) { return SatID(s, SatelliteSystem::GPS); }
struct Tab : TabularSatStore<int> { int getValue(const SatID &, const CommonTime &) const { return 0; } };
typedef TabularSatStore<int>::DataTable::const_iterator It;
static void fill(Tab &s, int64_t *t, int n, int sat = 1, int64_t unit = 1) { int64_t lo = 0; for (int i = 0; i < n; i++) { t[i] = unit * R("t", lo, DAY / unit - 1); if (i) ASSUME(t[i] > t[i - 1]); s.tables[sid(sat)][at(t[i])] = i; } }
// position of a requested time in the table: records strictly before, and whether one matches
static int before(int64_t *t, int n, int64_t x, bool &match) { int b = 0; match = false; for (int i = 0; i < n; i++) { if (symx_concretize(t[i] < x)) b++; else { match = symx_concretize(t[i] == x); break; } } return b; }
template <int N> static void window(int nh, bool exact) {
  Tab s; int64_t t[N]; fill(s, t, N); int64_t x = R("x", 0, DAY - 1); bool m; int b = before(t, N, x, m); It a, z; bool r = false, thrown = false;
  try { r = s.getTableInterval(sid(1), at(x), nh, a, z, exact); } catch (InvalidRequest &) { thrown = true; }
  if (m && exact) { ASSERT(!thrown && r && a->second == b, "an epoch of the table is found itself"); return; }
  bool can = b >= nh && N - b >= nh;   // nh records before and nh at or after the requested time
  if (!m) { ASSERT(thrown == !can, "a window is refused exactly if there are not enough records on either side"); if (thrown) return; ASSERT(!r, "no match is reported"); ASSERT(a->second == b - nh && z->second == b + nh - 1, "the window holds the nearest records, half of them on either side"); return; }
  if (can) ASSERT(!thrown, "a window is found where there are enough records on either side"); if (thrown) return; ASSERT(r, "the match is reported");
  ASSERT(z->second - a->second == 2 * nh - 1, "the window is complete"); ASSERT(a->second <= b && b <= z->second, "the window holds the requested epoch"); if (can) ASSERT(b == a->second + nh || b == a->second + nh - 1, "the requested epoch is at the center");
}
ENTRY check_window1() { window<4>(1, true); }
ENTRY check_window2() { window<6>(2, true); }
ENTRY check_window3() { window<7>(3, true); }
ENTRY check_windowmatch1() { window<4>(1, false); }
ENTRY check_windowmatch2() { window<6>(2, false); }
ENTRY check_windowmatch3() { window<7>(3, false); }
template <int N> static void windowany(int nh, bool exact) {
  Tab s; int64_t t[N]; fill(s, t, N); int64_t x = R("x", 0, DAY - 1); bool m; int b = before(t, N, x, m); It a, z; bool r = false, thrown = false;
  try { r = s.getNonCenteredTableInterval(sid(1), at(x), nh, a, z, exact); } catch (InvalidRequest &) { thrown = true; }
  if (m && exact) { ASSERT(!thrown && r && a->second == b, "an epoch of the table is found itself"); return; }
  ASSERT(thrown == (b == N || N < 2 * nh), "a window is refused exactly if there are not enough records or all are before"); if (thrown) return; ASSERT(r == m, "a match is reported");
  int w = b - nh; if (w < 0) w = 0; if (w > N - 2 * nh) w = N - 2 * nh; ASSERT(a->second == w && z->second == w + 2 * nh - 1, "the window holds the nearest records");
}
ENTRY check_windowany2() { windowany<5>(2, true); windowany<3>(2, true); }
ENTRY check_windowany3() { windowany<7>(3, false); }
ENTRY check_edit() {
  Tab s; int64_t t[4], u[2]; fill(s, t, 4); fill(s, u, 2, 2); int64_t a = R("a", 0, DAY - 1), z = R("z", 0, DAY - 1); ASSUME(a <= z); NOTHROW(s.edit(at(a), at(z)), "a store is edited"); int n = 0, m = 0; int64_t lo = DAY, hi = -1, lo1 = DAY, hi1 = -1;
  for (int i = 0; i < 6; i++) { int64_t x = i < 4 ? t[i] : u[i - 4]; bool in = symx_concretize(symx_and(a <= x, x <= z)); ASSERT((s.tables[sid(i < 4 ? 1 : 2)].count(at(x)) == 1) == in, "editing removes exactly the records outside the interval"); if (!in) continue; (i < 4 ? n : m)++; if (x < lo) lo = x; if (x > hi) hi = x; if (i < 4) { if (x < lo1) lo1 = x; if (x > hi1) hi1 = x; } }
  ASSERT(s.ndata(sid(1)) == n && s.ndata(sid(2)) == m && s.ndata() == n + m && s.size() == n + m && s.ndata(SatelliteSystem::GPS) == n + m && s.ndata(SatelliteSystem::Glonass) == 0, "records are counted"); ASSERT((int)s.getSatList().size() == (n > 0) + (m > 0), "the satellites with records are listed");
  if (n + m) ASSERT(val(s.getInitialTime()) == lo && val(s.getFinalTime()) == hi, "the time span is that of the records"); else ASSERT(s.getInitialTime() == CommonTime::END_OF_TIME && s.getFinalTime() == CommonTime::BEGINNING_OF_TIME, "an empty store has no time span");
  if (n) ASSERT(val(s.getInitialTime(sid(1))) == lo1 && val(s.getFinalTime(sid(1))) == hi1, "the time span of a satellite is that of its records"); else ASSERT(s.getInitialTime(sid(1)) == CommonTime::END_OF_TIME && s.getFinalTime(sid(1)) == CommonTime::BEGINNING_OF_TIME, "a satellite without records has no time span");
  ASSERT(s.getInitialTime(sid(3)) == CommonTime::END_OF_TIME && s.getFinalTime(sid(3)) == CommonTime::BEGINNING_OF_TIME, "an unknown satellite has no time span"); s.clear(); ASSERT(s.size() == 0 && s.nsats() == 0 && !s.isPresent(sid(1)), "a store is cleared");
}
// the usual step is the most frequent one
ENTRY check_step() {
  Tab s; int64_t t[7]; t[0] = 0; s.tables[sid(1)][at(0)] = 0; int n = 1 + (int)symx_concretize(R("n", 0, 6)), d[6]; for (int i = 1; i < n; i++) { d[i - 1] = (1 + (int)symx_concretize(R("d", 0, 2))) * 30; t[i] = t[i - 1] + d[i - 1] * 1000; s.tables[sid(1)][at(t[i])] = i; }
  double r = s.nomTimeStep(sid(1)); if (n == 1) { ASSERT(r == 0, "a single record has no step"); return; } int c[4] = {0}; for (int i = 0; i < n - 1; i++) c[d[i] / 30]++; ASSERT(r == 30 || r == 60 || r == 90, "the step is one of the steps"); int k = (int)r / 30; ASSERT(c[k] >= c[1] && c[k] >= c[2] && c[k] >= c[3], "the step is the most frequent one"); ASSERT(s.nomTimeStep(sid(2)) == 0, "an unknown satellite has no step");
}
ENTRY check_system() {
  Tab s; TimeSystem a = (TimeSystem)symx_concretize(R("a", 1, (long)TimeSystem::Last - 1)), b = (TimeSystem)symx_concretize(R("b", 1, (long)TimeSystem::Last - 1)); s.setTimeSystem(a); bool thrown = false; try { s.checkTimeSystem(b); } catch (InvalidRequest &) { thrown = true; }
  ASSERT(thrown == (a != b && a != TimeSystem::Any && b != TimeSystem::Any), "conflicting time systems are refused"); ClockSatStore c; c.setTimeSystem(a); CommonTime t = at(5); t.setTimeSystem(b); bool t2 = false; try { c.addClockBias(sid(1), t, 1.0); } catch (InvalidRequest &) { t2 = true; } ASSERT(t2 == thrown && c.size() == !thrown, "data of another time system is not stored");
}
static Triple tr(const char *n) { double x = F(n), y = F(n), z = F(n); return Triple(x, y, z); }
static bool eq(double a, double b) { return symx_or(a == b, symx_and(a != a, b != b)); }
static bool eq(const Triple &a, const Triple &b) { bool r = true; for (int i = 0; i < 3; i++) r = symx_and(r, eq(a.theArray[i], b.theArray[i])); return r; }
// at an epoch of the table the stored values are returned
template <int N> static void clocks(bool lin) {
  ClockSatStore s; if (lin) s.setLinearInterp(); else s.setInterpolationOrder(4); s.haveClockDrift = true; int64_t t[N]; ClockRecord d[N]; for (int i = 0; i < N; i++) { t[i] = 1000 * (int64_t)(30 * i); d[i].bias = F("bias"); d[i].drift = F("drift"); d[i].accel = 0; d[i].sig_bias = F("sb"); d[i].sig_drift = F("sd"); d[i].sig_accel = 0; s.addClockRecord(sid(1), at(t[i]), d[i]); }
  int w = symx_concretize(R("w", 0, N - 1)); double b = 0, r = 0; ClockRecord c; NOTHROW(b = s.getClockBias(sid(1), at(t[w])); r = s.getClockDrift(sid(1), at(t[w])); c = s.getValue(sid(1), at(t[w])), "an epoch of the table is answered");
  ASSERT(eq(b, d[w].bias), "the stored clock bias is returned"); ASSERT(eq(r, d[w].drift), "the stored clock drift is returned"); ASSERT(eq(c.bias, d[w].bias), "the stored record is returned (bias)"); ASSERT(eq(c.drift, d[w].drift), "the stored record is returned (drift)"); ASSERT(eq(c.sig_bias, d[w].sig_bias) && eq(c.sig_drift, d[w].sig_drift), "the stored record is returned (sigmas)");
}
ENTRY check_clockepoch() { clocks<5>(false); }
ENTRY check_clockepochlinear() { clocks<3>(true); }
ENTRY check_positionepoch() {
  const int N = 5; PositionSatStore s; s.setInterpolationOrder(4); s.haveVelocity = s.haveAcceleration = true; int64_t t[N]; PositionRecord d[N]; for (int i = 0; i < N; i++) { t[i] = R("t", 0, DAY - 1); if (i) ASSUME(t[i] > t[i - 1]); d[i].Pos = tr("p"); d[i].Vel = tr("v"); d[i].Acc = tr("a"); d[i].sigPos = tr("sp"); d[i].sigVel = tr("sv"); d[i].sigAcc = tr("sa"); s.tables[sid(1)][at(t[i])] = d[i]; }
  int w = symx_concretize(R("w", 0, N - 1)); Triple p, v, a; PositionRecord c;
  NOTHROW(p = s.getPosition(sid(1), at(t[w])), "an epoch of the table is answered (position)"); ASSERT(eq(p, d[w].Pos), "the stored position is returned"); NOTHROW(v = s.getVelocity(sid(1), at(t[w])), "an epoch of the table is answered (velocity)"); ASSERT(eq(v, d[w].Vel), "the stored velocity is returned"); NOTHROW(a = s.getAcceleration(sid(1), at(t[w])), "an epoch of the table is answered (acceleration)"); ASSERT(eq(a, d[w].Acc), "the stored acceleration is returned");
  NOTHROW(c = s.getValue(sid(1), at(t[w])), "an epoch of the table is answered (record)"); ASSERT(eq(c.Pos, d[w].Pos) && eq(c.Vel, d[w].Vel) && eq(c.Acc, d[w].Acc) && eq(c.sigPos, d[w].sigPos) && eq(c.sigVel, d[w].sigVel) && eq(c.sigAcc, d[w].sigAcc), "the stored record is returned");
}
// between epochs a linear clock is interpolated on the line through its neighbours, also where only biases are stored
template <bool DRIFT> static void linear() {
  const int N = 4; ClockSatStore s; s.setLinearInterp(); int b[N], d[N]; for (int i = 0; i < N; i++) { b[i] = R("b", -8, 7) * 4; d[i] = DRIFT ? R("d", 1, 8) * 4 : 0; if (DRIFT) { ClockRecord r; r.bias = b[i]; r.drift = d[i]; r.accel = r.sig_bias = r.sig_drift = r.sig_accel = 0; s.addClockRecord(sid(1), at(4000 * i), r); } else s.addClockBias(sid(1), at(4000 * i), b[i]); }
  int x = symx_concretize(R("x", 0, 12)), i = x / 4, j = x % 4; if (i > 2) { i = 2; j = 4; } double v = 0, r = 0; ClockRecord c; NOTHROW(v = s.getClockBias(sid(1), at(1000 * x)); r = s.getClockDrift(sid(1), at(1000 * x)); c = s.getValue(sid(1), at(1000 * x)), "a time between epochs is answered");
  int e = b[i] + (b[i + 1] - b[i]) / 4 * j; ASSERT(v == e && c.bias == e, "the clock bias is on the line between its neighbours");
  if (DRIFT) { int f = d[i] + (d[i + 1] - d[i]) / 4 * j; ASSERT(r == f && c.drift == f, "the clock drift is on the line between its neighbours"); return; }
  int f = (b[i + 1] - b[i]) / 4, g = i ? (b[i] - b[i - 1]) / 4 : f, h = i < 2 ? (b[i + 2] - b[i + 1]) / 4 : f; bool edge = j % 4 == 0; ASSERT(symx_or(r == f, edge && (r == g || (j == 4 && r == h))), "the clock drift is the slope between its neighbours"); ASSERT(symx_or(c.drift == f, edge && (c.drift == g || (j == 4 && c.drift == h))), "the clock drift of the record is the slope between its neighbours");
}
ENTRY check_linearbias() { linear<false>(); }
ENTRY check_lineardrift() { linear<true>(); }
// additions of parts of a record replace that part only
ENTRY check_clockadd() {
  ClockSatStore s; ClockRecord e = {0, 0, 0, 0, 0, 0}; bool hd = false, ha = false; int n = 3; for (int i = 0; i < n; i++) { int k = symx_concretize(R("k", 0, 3)); double a = F("a"), b = F("b");
    if (k == 0) { s.addClockBias(sid(1), at(1000), a, b); e.bias = a; e.sig_bias = b; } else if (k == 1) { s.addClockDrift(sid(1), at(1000), a, b); e.drift = a; e.sig_drift = b; hd = true; } else if (k == 2) { s.addClockAcceleration(sid(1), at(1000), a, b); e.accel = a; e.sig_accel = b; ha = true; }
    else { ClockRecord r; r.bias = a; r.sig_bias = b; r.drift = F("c"); r.sig_drift = F("d"); r.accel = F("e"); r.sig_accel = F("f"); if (symx_concretize(r.drift != 0)) hd = true; if (symx_concretize(r.accel != 0)) ha = true; s.addClockRecord(sid(1), at(1000), r); ClockRecord o = e; e = r; if (i && !hd) e.sig_drift = o.sig_drift; if (i && !ha) e.sig_accel = o.sig_accel; } }   // (the sigma of a part that is absent is not kept up)
  ASSERT(s.size() == 1 && s.nsats() == 1, "one record is stored"); const ClockRecord &r = s.tables[sid(1)][at(1000)]; ASSERT(eq(r.bias, e.bias) && eq(r.sig_bias, e.sig_bias), "the bias added last is stored"); ASSERT(eq(r.drift, e.drift) && eq(r.sig_drift, e.sig_drift), "the drift added last is stored"); ASSERT(eq(r.accel, e.accel) && eq(r.sig_accel, e.sig_accel), "the acceleration added last is stored"); ASSERT(s.hasClockDrift() == hd && s.hasClockAccel() == ha && s.hasClockBias(), "the store knows what it has");
}
ENTRY check_positionadd() {
  PositionSatStore s; PositionRecord e; e.Pos = e.sigPos = e.Vel = e.sigVel = e.Acc = e.sigAcc = Triple(0, 0, 0); bool hv = false, ha = false; for (int i = 0; i < 3; i++) { int k = symx_concretize(R("k", 0, 3)); Triple a = tr("a"), b = tr("b");
    if (k == 0) { s.addPositionData(sid(1), at(1000), a, b); e.Pos = a; e.sigPos = b; } else if (k == 1) { s.addVelocityData(sid(1), at(1000), a, b); e.Vel = a; e.sigVel = b; hv = true; } else if (k == 2) { s.addAccelerationData(sid(1), at(1000), a, b); e.Acc = a; e.sigAcc = b; ha = true; }
    else { PositionRecord r; r.Pos = a; r.sigPos = b; r.Vel = tr("v"); r.sigVel = b; r.Acc = tr("c"); r.sigAcc = b; bool v = symx_concretize(symx_or(r.Vel.theArray[0] != 0, symx_or(r.Vel.theArray[1] != 0, r.Vel.theArray[2] != 0))), c = symx_concretize(symx_or(r.Acc.theArray[0] != 0, symx_or(r.Acc.theArray[1] != 0, r.Acc.theArray[2] != 0))); hv = hv || v; ha = ha || c; s.addPositionRecord(sid(1), at(1000), r); PositionRecord o = e; e = r; if (i && !hv) e.sigVel = o.sigVel; if (i && !ha) e.sigAcc = o.sigAcc; } }
  ASSERT(s.size() == 1 && s.nsats() == 1, "one record is stored"); const PositionRecord &r = s.tables[sid(1)][at(1000)]; ASSERT(eq(r.Pos, e.Pos) && eq(r.sigPos, e.sigPos), "the position added last is stored"); ASSERT(eq(r.Vel, e.Vel) && eq(r.sigVel, e.sigVel), "the velocity added last is stored"); ASSERT(eq(r.Acc, e.Acc) && eq(r.sigAcc, e.sigAcc), "the acceleration added last is stored"); ASSERT(s.hasVelocity() == hv && s.haveAcceleration == ha && s.hasPosition(), "the store knows what it has");
}
