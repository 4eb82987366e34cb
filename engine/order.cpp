#include "order.h"
#include <map>
#include <algorithm>
typedef int64_t i64;
struct Lit { int a, b; i64 c; };                     // a - b <= c
struct Node { enum { LIT, AND, OR, T, F } k; Lit l; std::vector<int> ch; };
namespace {
struct Ctx {
  std::vector<Node> nodes; std::map<uint32_t, int> idx; std::vector<uint32_t> vars; std::map<std::pair<E, bool>, int> memo; int budget = 4000;
  bool bad = false;
  int var(uint32_t v) { auto it = idx.find(v); if (it != idx.end()) return it->second; vars.push_back(v); return idx[v] = (int)vars.size(); }
  int mk(Node n) { nodes.push_back(n); return (int)nodes.size() - 1; }
  int lit(int a, int b, i64 c) { if (a == b) return mk({c >= 0 ? Node::T : Node::F}); Node n{Node::LIT}; n.l = {a, b, c}; return mk(n); }
  int join(bool conj, int x, int y) { Node n{conj ? Node::AND : Node::OR}; n.ch = {x, y}; return mk(n); }
  // term = var + c with value range [lo, lo + 2^k - 1]; var 0 is zero
  bool term(E e, int &v, i64 &c, unsigned &k) {
    if (e->op == OConst) { if (e->w > 62 && (e->val >> 62) && sext(e->val, e->w) < -((s128)1 << 62)) return false; s128 s = sext(e->val, e->w); if (s > ((s128)1 << 61) || s < -((s128)1 << 61)) return false; v = 0; c = (i64)s; k = 0; return true; }
    if (e->op == OVar) { if (e->w > 60) return false; v = var((uint32_t)e->val); c = 0; k = e->w; return true; }
    if (e->op == OConcat && e->k[0]->isFalse()) return term(e->k[1], v, c, k) && e->k[1]->op == OVar;
    if (e->op == OAdd && e->k[1]->isConst()) { i64 c1, c2; int v2; unsigned k2; if (!term(e->k[0], v, c1, k) || !term(e->k[1], v2, c2, k2)) return false; if (k >= e->w) return false; c = c1 + c2; return true; }
    return false;
  }
  // the value of the term as a w-bit number read signed / unsigned is var + c
  bool fits(i64 c, int v, unsigned k, unsigned w, bool sgn) {
    s128 lo = c, hi = v ? (s128)c + (((s128)1 << k) - 1) : (s128)c;
    if (sgn) return lo >= -((s128)1 << (w - 1)) && hi < ((s128)1 << (w - 1));
    return lo >= 0 && hi < ((s128)1 << w);
  }
  int cmp(E a, E b, int kind, bool sgn) {            // kind: 0 <, 1 <=, 2 ==, 3 !=
    if (bad || --budget < 0) { bad = true; return 0; }
    for (int side = 0; side < 2; side++) {              // lift conditionals out of the terms
      E t = side ? b : a, i = t->op == OConcat && t->k[0]->isFalse() ? t->k[1] : t;
      if (i->op != OIte) continue;
      E x = i == t ? i->k[1] : mkZExt(i->k[1], t->w), y = i == t ? i->k[2] : mkZExt(i->k[2], t->w);
      int p = side ? cmp(a, x, kind, sgn) : cmp(x, b, kind, sgn), q = side ? cmp(a, y, kind, sgn) : cmp(y, b, kind, sgn);
      if (bad) return 0;
      int ct = tr(i->k[0], true), cf = tr(i->k[0], false); if (bad) return 0;
      return join(false, join(true, ct, p), join(true, cf, q));
    }
    unsigned w = a->w; int va, vb; i64 ca, cb; unsigned ka, kb;
    if (!term(a, va, ca, ka) || !term(b, vb, cb, kb)) { bad = true; return 0; }
    if (!sgn) { if (!va && ca < 0) { if (w > 61) { bad = true; return 0; } ca += (i64)1 << w; } if (!vb && cb < 0) { if (w > 61) { bad = true; return 0; } cb += (i64)1 << w; } }
    bool ok = (fits(ca, va, ka, w, sgn) && fits(cb, vb, kb, w, sgn));
    if (!ok && kind >= 2 && !sgn) return cmp(a, b, kind, true);
    if (!ok) { bad = true; return 0; }
    i64 d = cb - ca;                                  // va - vb ? d
    switch (kind) {
    case 0: return lit(va, vb, d - 1);
    case 1: return lit(va, vb, d);
    case 2: return join(true, lit(va, vb, d), lit(vb, va, -d));
    default: return join(false, lit(va, vb, d - 1), lit(vb, va, -d - 1));
    }
  }
  int tr(E e, bool pos) {
    if (bad || --budget < 0) { bad = true; return 0; }
    auto key = std::make_pair(e, pos); auto it = memo.find(key); if (it != memo.end()) return it->second;
    int r = tr1(e, pos); if (!bad) memo[key] = r; return r;
  }
  int tr1(E e, bool pos) {
    switch (e->op) {
    case OConst: return mk({(e->val != 0) == pos ? Node::T : Node::F});
    case ONot: return tr(e->k[0], !pos);
    case OAnd: return join(pos, tr(e->k[0], pos), tr(e->k[1], pos));
    case OOr: return join(!pos, tr(e->k[0], pos), tr(e->k[1], pos));
    case OIte: return join(false, join(true, tr(e->k[0], true), tr(e->k[1], pos)), join(true, tr(e->k[0], false), tr(e->k[2], pos)));
    case OXor: pos = !pos;
    case OEq: if (e->k[0]->w == 1) return join(false, join(true, tr(e->k[0], true), tr(e->k[1], pos)), join(true, tr(e->k[0], false), tr(e->k[1], !pos)));
      if (e->op == OXor) { bad = true; return 0; }
      return cmp(e->k[0], e->k[1], pos ? 2 : 3, false);
    case OUlt: return pos ? cmp(e->k[0], e->k[1], 0, false) : cmp(e->k[1], e->k[0], 1, false);
    case OUle: return pos ? cmp(e->k[0], e->k[1], 1, false) : cmp(e->k[1], e->k[0], 0, false);
    case OSlt: return pos ? cmp(e->k[0], e->k[1], 0, true) : cmp(e->k[1], e->k[0], 1, true);
    case OSle: return pos ? cmp(e->k[0], e->k[1], 1, true) : cmp(e->k[1], e->k[0], 0, true);
    case OVar: { int v = var((uint32_t)e->val); return pos ? lit(0, v, -1) : lit(v, 0, 0); }
    default: bad = true; return 0;
    }
  }
  // search: D[a][b] is the least bound on a - b implied by the units
  static const i64 INF = (i64)1 << 61;
  int steps = 2000; long work = 4000000; size_t n = 0;   // work bounds the visits of shared sub-formulas
  typedef std::vector<i64> Mat;
  bool add(Mat &D, const Lit &l) {
    if (D[l.a * n + l.b] <= l.c) return true;
    if (D[l.b * n + l.a] < INF && D[l.b * n + l.a] + l.c < 0) return false;
    for (size_t i = 0; i < n; i++) { i64 x = D[i * n + l.a]; if (x >= INF) continue; x += l.c; for (size_t j = 0; j < n; j++) { i64 y = D[l.b * n + j]; if (y < INF && x + y < D[i * n + j]) D[i * n + j] = x + y; } }
    return true;
  }
  // 1 implied, -1 contradicted, 0 open
  int status(int x, const Mat &D) {
    if (--work < 0) return 0;
    Node &m = nodes[x];
    if (m.k == Node::T) return 1; if (m.k == Node::F) return -1;
    if (m.k == Node::LIT) return D[m.l.a * n + m.l.b] <= m.l.c ? 1 : D[m.l.b * n + m.l.a] < INF && D[m.l.b * n + m.l.a] + m.l.c < 0 ? -1 : 0;
    int hit = m.k == Node::AND ? -1 : 1; bool open = false;
    for (int c : m.ch) { int t = status(c, D); if (t == hit) return hit; open |= !t; }
    return open ? 0 : -hit;
  }
  bool assume(int x, Mat &D, std::vector<int> &ors) {
    Node &m = nodes[x];
    if (m.k == Node::T) return true; if (m.k == Node::F) return false;
    if (m.k == Node::LIT) return add(D, m.l);
    if (m.k == Node::OR) { ors.push_back(x); return true; }
    for (int c : m.ch) if (!assume(c, D, ors)) return false;
    return true;
  }
  Mat model;
  Res search(Mat D, std::vector<int> ors) {
    if (--steps < 0 || work < 0) return UNKNOWN;
    for (bool ch = true; ch;) {
      ch = false; std::vector<int> rest, more;
      for (int o : ors) {
        int open = -1, cnt = 0; bool t = false; for (int c : nodes[o].ch) { int s = status(c, D); if (s > 0) { t = true; break; } if (!s) { cnt++; open = c; } }
        if (work < 0) return UNKNOWN;
        if (t) continue; if (!cnt) return UNSAT;
        if (cnt > 1) { rest.push_back(o); continue; }
        if (!assume(open, D, more)) return UNSAT; ch = true;
      }
      rest.insert(rest.end(), more.begin(), more.end()); ors.swap(rest);
    }
    if (ors.empty()) { model = D; return SAT; }
    int o = ors.back(); ors.pop_back(); bool unk = false;
    for (int c : nodes[o].ch) { Mat E2 = D; std::vector<int> o2 = ors; if (!assume(c, E2, o2)) continue; Res r = search(std::move(E2), std::move(o2)); if (r == SAT) return SAT; unk |= r == UNKNOWN; }
    return unk ? UNKNOWN : UNSAT;
  }
};
}
Res orderDecide(const std::vector<E> &cs, std::unordered_map<uint32_t, u128> *vals) {
  Ctx c; std::vector<int> tops, ors;
  size_t used = 0;
  for (E e : cs) { int x = e->hasFP() ? (c.bad = true, 0) : c.tr(e, true); if (c.bad) { c.bad = false; c.budget = 4000; continue; } tops.push_back(x); used++; }   // constraints of other kinds are left out: UNSAT stands, SAT is a candidate
  if (used * 2 < cs.size()) return UNKNOWN;
  size_t n = c.n = c.vars.size() + 1; if (n > 120) return UNKNOWN;
  Ctx::Mat D(n * n, Ctx::INF); for (size_t i = 0; i < n; i++) D[i * n + i] = 0;
  for (size_t i = 1; i < n; i++) { D[i * n] = (i64)(((u128)1 << gVars[c.vars[i - 1]].w) - 1); D[i] = 0; }
  for (size_t i = 1; i < n; i++) for (size_t j = 1; j < n; j++) if (i != j) D[i * n + j] = D[i * n];
  for (int x : tops) if (!c.assume(x, D, ors)) return UNSAT;
  Res r = c.search(D, ors); if (c.work < 0 && r != SAT) r = UNKNOWN;
  // the least solution: variable i = -D[0][i]
  if (r == SAT && vals) for (size_t i = 1; i < n; i++) (*vals)[c.vars[i - 1]] = (u128)(-c.model[i]);
  return r;
}
