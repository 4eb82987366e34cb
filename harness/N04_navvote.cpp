// PROPERTY: N04
// SRC: core/lib/NavFilter/LNavCrossSourceFilter.cpp core/lib/NavFilter/CNavCrossSourceFilter.cpp core/lib/NavFilter/NavFilterMgr.cpp
// SRC: core/lib/NavFilter/NavFilter.cpp core/lib/NavFilter/NavFilterKey.cpp core/lib/NavFilter/LNavFilterData.cpp core/lib/NavFilter/CNavFilterData.cpp core/lib/Utilities/Exception.cpp core/lib/TimeHandling/CommonTime.cpp core/lib/RefTime/TimeSystem.cpp
// SRC: core/lib/GNSSEph/PackedNavBits.cpp
// BOUND: histories of 4 messages (thorough: 5) of one satellite and epoch with three contents; histories of 4 messages with any satellite, epoch and content change; vote thresholds 1 to 3
// BOUND: manager: chains of three filters that hold, pass or reject each message
// OUTSIDE: longer histories; which of two equally frequent contents wins a vote
// OPT: merge=0 query-timeout=40 max-paths=100000
#include "symx.h"
#include "LNavCrossSourceFilter.hpp"
#include "CNavCrossSourceFilter.hpp"
#include "NavFilterMgr.hpp"
using namespace gpstk;
typedef NavFilter::NavMsgList L;
static int find(const L &l, const NavFilterKey *k) { int n = 0; for (auto p : l) n += p == k; return n; }
static CommonTime at(int64_t ms) { CommonTime t(TimeSystem::GPS); int64_t d = ms >= 86400000; t.m_day = 2456000 + d; t.m_msod = ms - d * 86400000; t.m_fsod = 0; return t; }
struct Vote { int min, total; };
// out/rej: final disposition of messages i..j (one satellite, one epoch), content c[]
static void judge(const L &out, const L &rej, NavFilterKey **k, const int *grp, const int *c, int n, int min, int total) {
  for (int i = 0; i < n; i++) {
    int a = find(out, k[i]), r = find(rej, k[i]); ASSERT(a + r == 1, "each message is accepted or rejected exactly once");
    int all = 0, mine = 0, best = 0;
    for (int j = 0; j < n; j++) if (grp[j] == grp[i]) { all++; int m = 0; for (int h = 0; h < n; h++) m += grp[h] == grp[i] && c[h] == c[j]; if (c[j] == c[i]) mine = m; if (m > best) best = m; }
    bool valid = all >= total && best >= min;
    if (a) { ASSERT(valid, "a message is only accepted after a valid vote"); ASSERT(mine == best, "only a message with the most votes is accepted"); }
    for (int j = 0; j < n; j++) if (grp[j] == grp[i]) { int aj = find(out, k[j]); if (c[j] == c[i]) ASSERT(aj == a, "equal messages share the result"); else ASSERT(!(a && aj), "only one content is accepted per satellite and epoch"); }
    if (valid) { int any = 0; for (int j = 0; j < n; j++) if (grp[j] == grp[i]) any += find(out, k[j]); ASSERT(any > 0, "a valid vote has a winner"); }
  }
}
static uint32_t W[5][10];
static void lnav(int n, bool vary, int ncont) {
  LNavCrossSourceFilter f; LNavFilterData d[5]; NavFilterKey *k[5]; int grp[5], c[5]; L out; int epoch = 0; int pos = (int)symx_concretize(R("word", 0, 9));
  for (int i = 0; i < n; i++) {
    k[i] = &d[i]; d[i].sf = W[i]; for (int w = 0; w < 10; w++) W[i][w] = 5; c[i] = R("content", 0, ncont - 1); W[i][pos] = (uint32_t)c[i];
    if (vary && i && R("next", 0, 1)) epoch++;
    int prn = vary ? R("prn", 1, 2) : 7; d[i].prn = prn; d[i].timeStamp = at(6000 * epoch); grp[i] = epoch * 4 + prn;
    L in; in.push_back(k[i]); size_t held = out.size(); f.validate(in, out);
    for (int j = 0; j <= i; j++) { bool old = grp[j] / 4 != grp[i] / 4 && d[j].timeStamp < d[i].timeStamp; ASSERT(find(out, k[j]) + find(f.rejected, k[j]) == (old ? 1 : 0), "messages are held until their epoch is over"); }
    (void)held;
  }
  f.finalize(out); judge(out, f.rejected, k, grp, c, n, 2, 3);
  L out2; f.finalize(out2); ASSERT(out2.empty(), "nothing is left after finalize");
}
ENTRY check_lnavvote() { lnav(4 + (int)symx_getopt("tier", 0), false, 3); }
ENTRY check_lnavgroups() { lnav(4, true, 2); }
ENTRY check_lnavsort() {
  static uint32_t a[10], b[10]; LNavFilterData x, y; x.sf = a; y.sf = b; for (int i = 0; i < 10; i++) { a[i] = U("a", 30); b[i] = U("b", 30); }
  bool lt = false; for (int i = 9; i >= 0; i--) lt = symx_or(a[i] < b[i], symx_and(a[i] == b[i], lt));
  LNavMsgSort s; ASSERT(s(&x, &y) == lt, "messages are sorted word by word");
}
static void cnav(int n, bool vary, int ncont) {
  CNavCrossSourceFilter f; CNavFilterData d[5]; PackedNavBits b[5]; NavFilterKey *k[5]; int grp[5], c[5]; L out; int epoch = 0; int min = (int)symx_concretize(R("min", 1, 3)); f.setMinIdentical(min); ASSERT(f.getMinIdentical() == min, "threshold is kept");
  for (int i = 0; i < n; i++) {
    c[i] = R("content", 0, ncont - 1); b[i].addUnsignedLong(c[i], 3, 1); b[i].trimsize(); d[i].pnb = &b[i]; k[i] = &d[i];
    if (vary && i && R("next", 0, 1)) epoch++;
    int prn = vary ? R("prn", 1, 2) : 7; d[i].prn = prn; d[i].timeStamp = at(6000 * epoch); grp[i] = epoch * 4 + prn;
    L in; in.push_back(k[i]); f.validate(in, out);
  }
  f.finalize(out); judge(out, f.rejected, k, grp, c, n, min, min);
}
ENTRY check_cnavvote() { cnav(4, false, 3); }
ENTRY check_cnavgroups() { cnav(3, true, 2); }
// manager with filters that pass, hold until the next message or finalize, or reject each message
static int act[3][3];
struct Stub : NavFilter {
  int id; NavFilterKey *base; L held;
  void validate(NavMsgList &in, NavMsgList &out) { accept(held, out); held.clear(); for (auto k : in) { int a = act[id][k - base]; if (a == 0) accept(k, out); else if (a == 1) held.push_back(k); else reject(k); } }
  void finalize(NavMsgList &out) { accept(held, out); held.clear(); }
  unsigned processingDepth() const throw() { return 2 + id; }
  std::string filterName() const throw() { return "stub"; }
};
ENTRY check_manager() {
  NavFilterMgr m; Stub s[3]; NavFilterKey k[2]; int seen[2] = {0, 0}, nf = (int)symx_concretize(R("filters", 0, 3)); L all;
  for (int i = 0; i < nf; i++) { s[i].id = i; s[i].base = k; m.addFilter(&s[i]); for (int j = 0; j < 2; j++) act[i][j] = (int)symx_concretize(R("act", 0, 2)); }
  unsigned depth = 1; for (int i = 0; i < nf; i++) depth += 2 + i; ASSERT(m.processingDepth() == depth, "depth is one plus the sum of the filter depths");
  int rej[2] = {0, 0};
  for (int j = 0; j < 3; j++) {
    L o = j < 2 ? m.validate(&k[j]) : m.finalize();
    for (auto q : o) all.push_back(q);
    for (int i = 0; i < nf; i++) {
      int n = s[i].rejected.size(); bool listed = m.rejected.count(&s[i]);
      if (listed) { ASSERT(n > 0, "a filter is listed only if it has rejected data"); for (auto q : s[i].rejected) { rej[q - k]++; ASSERT(act[i][q - k] == 2, "rejected by the filter that refused it"); } }
    }
  }
  for (int j = 0; j < 2; j++) {
    int bad = -1; for (int i = 0; i < nf; i++) if (act[i][j] == 2) { bad = i; break; }
    ASSERT(find(all, &k[j]) == (bad < 0), "messages no filter refuses are returned exactly once"); ASSERT(rej[j] == (bad >= 0), "each refused message is reported exactly once, with its filter");
  }
  (void)seen;
}
