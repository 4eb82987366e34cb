// Linear reasoning over GF(2): decides equalities between xor networks
// (checksums, parity) that clause-level solvers handle badly.  Every bit of an
// expression becomes an xor of atomic bits; non-linear bits are atoms.
#include "gf2.h"
#include <algorithm>
#include <unordered_set>

typedef std::vector<uint64_t> Lin;                 // sorted atoms; atom 0 is the constant one
struct Ctx {
  std::unordered_map<uint32_t, std::vector<Lin>> memo;
  size_t work = 0;
};
static Lin lx(const Lin &a, const Lin &b) { Lin r; r.reserve(a.size() + b.size()); std::set_symmetric_difference(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(r)); return r; }
static bool cst(const Lin &a, bool *v) { if (a.empty()) { *v = false; return true; } if (a.size() == 1 && a[0] == 0) { *v = true; return true; } return false; }
static const Lin ONE = {0};
static Lin atom(E e, unsigned b) { return Lin{((uint64_t)e->id << 8) + b + 1}; }
static const std::vector<Lin> &bits(E e, Ctx &c);
static std::unordered_map<uint64_t, std::pair<uint32_t, unsigned>> varAtom;
static std::vector<Lin> bits1(E e, Ctx &c) {
  unsigned w = e->w; std::vector<Lin> r(w);
  auto leaf = [&](unsigned i) { r[i] = (e->kz >> i & 1) ? Lin() : atom(e, i); };
  c.work += w;
  switch (e->op) {
  case OConst: for (unsigned i = 0; i < w; i++) if (e->val >> i & 1) r[i] = ONE; return r;
  case OXor: { auto a = bits(e->k[0], c); auto &b = bits(e->k[1], c); for (unsigned i = 0; i < w; i++) { r[i] = lx(a[i], b[i]); c.work += r[i].size(); } return r; }
  case ONot: { auto &a = bits(e->k[0], c); for (unsigned i = 0; i < w; i++) r[i] = lx(a[i], ONE); return r; }
  case OAnd: case OOr: {
    auto a = bits(e->k[0], c); auto &b = bits(e->k[1], c); bool v;
    for (unsigned i = 0; i < w; i++) {
      if (cst(a[i], &v)) r[i] = (v == (e->op == OAnd)) ? b[i] : a[i];
      else if (cst(b[i], &v)) r[i] = (v == (e->op == OAnd)) ? a[i] : b[i];
      else if (a[i] == b[i]) r[i] = a[i];
      else leaf(i);
    }
    return r; }
  case OExtract: { auto &a = bits(e->k[0], c); for (unsigned i = 0; i < w; i++) r[i] = a[i + (unsigned)e->val]; return r; }
  case OConcat: { auto a = bits(e->k[0], c); auto &b = bits(e->k[1], c); unsigned lw = e->k[1]->w; for (unsigned i = 0; i < w; i++) r[i] = i < lw ? b[i] : a[i - lw]; return r; }
  case OSExt: { auto &a = bits(e->k[0], c); for (unsigned i = 0; i < w; i++) r[i] = a[std::min(i, (unsigned)e->k[0]->w - 1)]; return r; }
  case OShl: case OLShr: case OAShr: if (e->k[1]->isConst() && e->k[1]->val < w) {
      auto &a = bits(e->k[0], c); unsigned s = (unsigned)e->k[1]->val;
      for (unsigned i = 0; i < w; i++) { if (e->op == OShl) { if (i >= s) r[i] = a[i - s]; } else if (i + s < w) r[i] = a[i + s]; else if (e->op == OAShr) r[i] = a[w - 1]; }
      return r;
    } break;
  case OSub: if (e->k[0]->isConst() && e->k[0]->val == 0) {
      auto &a = bits(e->k[1], c); bool v, ok = true; for (unsigned i = 1; i < w; i++) ok &= cst(a[i], &v) && !v;
      if (ok) { for (unsigned i = 0; i < w; i++) r[i] = a[0]; return r; }
    } break;
  case OAdd: case OMul: {   // least significant bit of a sum is linear
      if (e->op == OAdd) { auto a = bits(e->k[0], c); auto &b = bits(e->k[1], c); for (unsigned i = 1; i < w; i++) leaf(i); r[0] = lx(a[0], b[0]);
        bool disj = true, v; for (unsigned i = 0; i < w; i++) disj &= (cst(a[i], &v) && !v) || (cst(b[i], &v) && !v);
        if (disj) for (unsigned i = 0; i < w; i++) r[i] = lx(a[i], b[i]);
        return r; }
    } break;
  case OIte: {
    auto cc = bits(e->k[0], c)[0]; auto a = bits(e->k[1], c); auto &b = bits(e->k[2], c); bool v;
    for (unsigned i = 0; i < w; i++) {
      Lin d = lx(a[i], b[i]); c.work += d.size();
      if (cst(d, &v)) r[i] = v ? lx(b[i], cc) : b[i]; else leaf(i);
    }
    return r; }
  case OEq: {
    if (e->k[0]->w > 64) break;
    auto a = bits(e->k[0], c); auto &b = bits(e->k[1], c); int one = -1; bool v;
    for (unsigned i = 0; i < a.size(); i++) {
      Lin d = lx(a[i], b[i]); c.work += d.size();
      if (cst(d, &v)) { if (v) return r; }            // differ: false
      else if (one < 0) { one = i; r[0] = lx(d, ONE); }
      else { r[0] = atom(e, 0); one = 1000; }
    }
    if (one < 0) r[0] = ONE; else if (one == 1000) r[0] = atom(e, 0);
    return r; }
  case OURem: if (e->k[1]->isConst() && e->k[1]->val == 2) { auto &a = bits(e->k[0], c); r[0] = a[0]; return r; } break;
  case OVar: for (unsigned i = 0; i < w; i++) { r[i] = atom(e, i); varAtom[r[i][0]] = {(uint32_t)e->val, i}; } return r;
  default: break;
  }
  for (unsigned i = 0; i < w; i++) leaf(i);
  return r;
}
static const std::vector<Lin> &bits(E e, Ctx &c) {
  auto it = c.memo.find(e->id);
  if (it != c.memo.end()) return it->second;
  std::vector<Lin> r;
  if (c.work > 20000000) { r.resize(e->w); for (unsigned i = 0; i < e->w; i++) r[i] = atom(e, i); }
  else r = bits1(e, c);
  return c.memo.emplace(e->id, std::move(r)).first->second;
}
static void countX(E e, std::unordered_set<uint32_t> &seen, unsigned &n) {
  if (n > 24 || !seen.insert(e->id).second) return;
  if (e->op == OXor || e->op == OURem) n++;
  for (unsigned i = 0; i < e->nk; i++) countX(e->k[i], seen, n);
}
static E rw(E e, Ctx &c) {
  if (e->w != 1 || e->isConst()) return e;
  switch (e->op) {
  case OAnd: case OOr: return mkBin(e->op, rw(e->k[0], c), rw(e->k[1], c));
  case ONot: return mkNot(rw(e->k[0], c));
  case OXor: case OEq: case OIte: { bool v; auto &l = bits(e, c)[0]; if (cst(l, &v)) return mkBool(v); return e; }
  default: return e;
  }
}
E gf2Simplify(E e) {
  unsigned n = 0; std::unordered_set<uint32_t> seen; countX(e, seen, n);
  if (n <= 24 || e->hasFP()) return e;
  Ctx c; return rw(e, c);
}

struct Sys { std::vector<Lin> eqs; std::vector<std::vector<Lin>> ne; bool complete = true; };
static void flat(E e, bool pos, Ctx &c, Sys &s) {
  if (e->op == ONot) return flat(e->k[0], !pos, c, s);
  if (e->w == 1 && e->op == (pos ? OAnd : OOr)) { flat(e->k[0], pos, c, s); flat(e->k[1], pos, c, s); return; }
  if (e->op == OEq && e->k[0]->w > 1) {
    if (e->k[0]->hasFP()) { s.complete = false; return; }
    auto a = bits(e->k[0], c); auto &b = bits(e->k[1], c); std::vector<Lin> d;
    for (unsigned i = 0; i < a.size(); i++) d.push_back(lx(a[i], b[i]));
    if (pos) s.eqs.insert(s.eqs.end(), d.begin(), d.end()); else s.ne.push_back(d);
    return;
  }
  Lin l = bits(e, c)[0]; s.eqs.push_back(pos ? lx(l, ONE) : l);
}
Res gf2Decide(const std::vector<E> &cs, std::unordered_map<uint32_t, u128> *vals) {
  unsigned n = 0; std::unordered_set<uint32_t> seen; for (E e : cs) { if (e->hasFP()) return UNKNOWN; countX(e, seen, n); }
  if (n <= 24) return UNKNOWN;
  Ctx c; Sys s; for (E e : cs) flat(e, true, c, s);
  std::unordered_map<uint64_t, Lin> basis; std::vector<uint64_t> piv;
  auto reduce = [&](Lin l) { Lin out; while (!l.empty()) { uint64_t p = l.back(); auto it = basis.find(p); if (it == basis.end()) { out.push_back(p); l.pop_back(); } else l = lx(l, it->second); } std::reverse(out.begin(), out.end()); return out; };
  for (auto &q : s.eqs) { Lin l = reduce(q); if (l.empty()) continue; if (l.size() == 1 && l[0] == 0) return UNSAT; piv.push_back(l.back()); basis[l.back()] = l; if (piv.size() > 4000) return UNKNOWN; }
  std::unordered_set<uint64_t> atoms;
  for (auto &q : s.ne) { bool z = true; for (auto &l : q) { Lin m = reduce(l); z &= m.empty(); } if (z) return UNSAT; for (auto &l : q) atoms.insert(l.begin(), l.end()); }
  if (!s.complete) return UNKNOWN;
  for (auto &q : s.eqs) atoms.insert(q.begin(), q.end());
  atoms.erase(0);
  for (uint64_t a : atoms) if (!varAtom.count(a)) return UNKNOWN;
  static uint64_t rng = 88172645463325252ull; std::sort(piv.begin(), piv.end()); std::unordered_map<uint64_t, bool> v;
  for (uint64_t a : atoms) { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; v[a] = rng >> 40 & 1; }
  v[0] = true;
  for (uint64_t p : piv) { bool x = false; for (uint64_t a : basis[p]) if (a != p) x ^= v[a]; v[p] = x; }
  std::unordered_map<uint32_t, u128> o;
  for (auto &x : v) if (x.first) { auto &q = varAtom[x.first]; u128 b = (u128)(x.second ? 1 : 0) << q.second; o[q.first] |= b; }
  if (vals) for (auto &x : o) (*vals)[x.first] = x.second;
  return SAT;
}
