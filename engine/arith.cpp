#include <sys/prctl.h>
#include <functional>
// Relaxation of bit-vector and floating-point constraints into linear integer/real
// arithmetic.  Machine integers become mathematical integers with explicit wrap-around
// where their value range demands it; floating-point operations become exact where the
// operands' granularity allows it, and otherwise real results within half an ulp.
// Everything that cannot be expressed becomes an unconstrained value, so UNSAT is definitive.
#include "arith.h"
#include <z3++.h>
#include <cmath>
#include <cstring>
#include <chrono>
#include <fstream>
#include <sstream>
#include <map>
#include <set>
#include <algorithm>
#include <unistd.h>
#include <sys/wait.h>
#include <signal.h>
#include <fcntl.h>
#include <poll.h>

static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static bool isFPVal(E e, int d = 0) {
  switch (e->op) {
  case OFAdd: case OFSub: case OFMul: case OFDiv: case OFRem: case OFSqrt: case OFRnd: case OFCvt: case OSIToFP: case OUIToFP: case OUF: return true;
  case OIte: return d < 20 && (isFPVal(e->k[1], d + 1) || isFPVal(e->k[2], d + 1));
  case OAnd: return e->k[1]->isConst() && e->k[1]->val == (maskw(e->w) >> 1) && isFPVal(e->k[0], d);
  case OXor: return e->k[1]->isConst() && e->k[1]->val == ((u128)1 << (e->w - 1)) && isFPVal(e->k[0], d);
  default: return false;
  }
}
static const s128 LIM = (s128)1 << 120;
struct IV { z3::expr t; s128 lo, hi; };
struct RV { z3::expr t; bool hasI; z3::expr it; int g; long double lo, hi; bool fin; };

static std::string s128str(s128 v) { if (v == 0) return "0"; bool n = v < 0; u128 u = n ? -(u128)v : (u128)v; std::string s; while (u) { s += (char)('0' + (int)(u % 10)); u /= 10; } if (n) s += '-'; std::reverse(s.begin(), s.end()); return s; }

struct AT {
  z3::context &c; z3::expr_vector side; bool grid; bool nonlin = false; unsigned fresh = 0;
  std::unordered_map<uint32_t, IV> im, um, sm; std::unordered_map<uint32_t, RV> rm; std::unordered_map<uint32_t, z3::expr> bm;
  std::unordered_map<uint32_t, std::pair<s128, s128>> uB, sB; std::unordered_map<uint32_t, std::pair<long double, long double>> fB; std::set<uint32_t> notNaN;
  std::map<uint32_t, std::pair<bool, std::string>> leaf;   // var id -> (real?, name)
  AT(z3::context &cc, bool g) : c(cc), side(cc), grid(g) {}
  z3::expr I(s128 v) { return c.int_val(s128str(v).c_str()); }
  z3::expr p2(int k) { z3::expr r = c.int_val(1); std::string s = "1"; // decimal of 2^k
    std::vector<int> d{1}; for (int i = 0; i < k; i++) { int cy = 0; for (auto &x : d) { x = x * 2 + cy; cy = x / 10; x %= 10; } if (cy) d.push_back(cy); }
    s.clear(); for (int i = (int)d.size() - 1; i >= 0; i--) s += (char)('0' + d[i]); return c.int_val(s.c_str()); }
  z3::expr freshI() { return c.int_const(("i" + std::to_string(fresh++)).c_str()); }
  z3::expr freshR() { return c.real_const(("r" + std::to_string(fresh++)).c_str()); }
  z3::expr freshB() { return c.bool_const(("b" + std::to_string(fresh++)).c_str()); }
  static s128 clampS(s128 v) { return v > LIM ? LIM : v < -LIM ? -LIM : v; }
  static s128 mulS(s128 a, s128 b) { long double p = (long double)a * (long double)b; if (fabsl(p) > 1e36L) return p > 0 ? LIM : -LIM; return a * b; }
  bool opaque(const IV &v) { return v.lo <= -LIM || v.hi >= LIM; }
  // next representable value of the format above/below v
  static long double stepF(long double v, unsigned w, bool up) { if (w == 32) return nextafterf((float)v, up ? INFINITY : -INFINITY); if (w == 64) return nextafter((double)v, up ? INFINITY : -INFINITY); return nextafterl(v, up ? INFINITY : -INFINITY); }
  // ------------------------------------------------------------ bounds from the constraints
  void ub(E e, s128 lo, s128 hi) { auto it = uB.emplace(e->id, std::make_pair((s128)0, (s128)maskw(std::min(e->w, (uint16_t)119)))).first; it->second.first = std::max(it->second.first, lo); it->second.second = std::min(it->second.second, hi); }
  void sb(E e, s128 lo, s128 hi) { if (e->w > 100) return; auto it = sB.emplace(e->id, std::make_pair(-((s128)1 << (e->w - 1)), ((s128)1 << (e->w - 1)) - 1)).first; it->second.first = std::max(it->second.first, lo); it->second.second = std::min(it->second.second, hi); }
  void fb(E e, long double lo, long double hi) { auto it = fB.emplace(e->id, std::make_pair(-INFINITY, INFINITY)).first; it->second.first = std::max((long double)it->second.first, lo); it->second.second = std::min((long double)it->second.second, hi); notNaN.insert(e->id); }
  void bounds(E e, bool pos, int pass) {
    if (e->op == ONot && e->w == 1) { bounds(e->k[0], !pos, pass); return; }
    if (e->w == 1 && ((e->op == OAnd && pos) || (e->op == OOr && !pos))) { bounds(e->k[0], pos, pass); bounds(e->k[1], pos, pass); return; }
    if (e->nk < 2) return;
    E a = e->k[0], b = e->k[1]; if (a->w > 100 && e->op < OFAdd) return;
    switch (e->op) {
    case OEq: if (pos && b->isConst() && b->w <= 100) { ub(a, (s128)b->val, (s128)b->val); sb(a, sext(b->val, b->w), sext(b->val, b->w)); } break;
    case OUlt: if (pos) { if (b->isConst()) ub(a, 0, (s128)b->val - 1); if (a->isConst()) ub(b, (s128)a->val + 1, LIM); } else { if (b->isConst()) ub(a, (s128)b->val, LIM); if (a->isConst()) ub(b, 0, (s128)a->val); } break;
    case OUle: if (pos) { if (b->isConst()) ub(a, 0, (s128)b->val); if (a->isConst()) ub(b, (s128)a->val, LIM); } else { if (b->isConst()) ub(a, (s128)b->val + 1, LIM); if (a->isConst()) ub(b, 0, (s128)a->val - 1); } break;
    case OSlt: if (pos) { if (b->isConst()) sb(a, -LIM, sext(b->val, b->w) - 1); if (a->isConst()) sb(b, sext(a->val, a->w) + 1, LIM); } else { if (b->isConst()) sb(a, sext(b->val, b->w), LIM); if (a->isConst()) sb(b, -LIM, sext(a->val, a->w)); } break;
    case OSle: if (pos) { if (b->isConst()) sb(a, -LIM, sext(b->val, b->w)); if (a->isConst()) sb(b, sext(a->val, a->w), LIM); } else { if (b->isConst()) sb(a, sext(b->val, b->w) + 1, LIM); if (a->isConst()) sb(b, -LIM, sext(a->val, a->w) - 1); } break;
    case OFLt: case OFLe: case OFEq: {
      if (pos) { notNaN.insert(a->id); notNaN.insert(b->id); }
      else if (!pass) break;
      long double va = a->isConst() ? bitsToLD(a->val, a->w) : NAN, vb = b->isConst() ? bitsToLD(b->val, b->w) : NAN;
      if (pos) { bool st = e->op == OFLt; if (vb == vb) fb(a, e->op == OFEq ? vb : -INFINITY, st ? stepF(vb, a->w, false) : vb); if (va == va) fb(b, st ? stepF(va, a->w, true) : va, e->op == OFEq ? va : INFINITY); }
      else if (e->op != OFEq) { bool st = e->op == OFLe; if (vb == vb && notNaN.count(a->id)) fb(a, st ? stepF(vb, a->w, true) : vb, INFINITY); if (va == va && notNaN.count(b->id)) fb(b, -INFINITY, st ? stepF(va, a->w, false) : va); }
      break; }
    case OFUno: if (!pos) { notNaN.insert(a->id); notNaN.insert(b->id); } break;
    default: break;
    }
  }
  // ------------------------------------------------------------ integers
  z3::expr fdiv(const z3::expr &a, s128 d, IV *out, s128 lo, s128 hi) {   // floor division by d > 0
    auto fl = [&](s128 x) { s128 q = x / d; if (x % d < 0) q--; return q; };
    if (out) { out->lo = fl(lo); out->hi = fl(hi); }
    if (fl(lo) == fl(hi)) return I(fl(lo));
    return quot(a, d);
  }
  // quotients of the same dividend are shared and related to each other
  struct QD { z3::expr a; std::map<s128, z3::expr> q; };
  std::map<unsigned, QD> quots; std::map<unsigned, std::pair<z3::expr, s128>> remOf, quotOf; std::vector<z3::expr> keep;
  z3::expr quot(const z3::expr &a, s128 d) {
    unsigned id = Z3_get_ast_id(c, a);
    auto it = quots.find(id); if (it != quots.end()) { auto j = it->second.q.find(d); if (j != it->second.q.end()) return j->second; }
    z3::expr res(c); bool done = false;
    auto r = remOf.find(id);
    if (r != remOf.end() && r->second.second % d == 0) { z3::expr b = r->second.first; s128 D = r->second.second; z3::expr qd = quot(b, d); res = qd - I(D / d) * quot(b, D); done = true; }
    auto o = quotOf.find(id);
    if (!done && o != quotOf.end() && o->second.second < ((s128)1 << 40) && d < ((s128)1 << 40)) { res = quot(o->second.first, o->second.second * d); done = true; }
    if (!done) {
      res = freshI(); side.push_back(I(d) * res <= a); side.push_back(a <= I(d) * res + I(d - 1));
      if (it != quots.end()) for (auto &k : it->second.q) {
        if (k.first % d == 0) { s128 m = k.first / d; side.push_back(I(m) * k.second <= res); side.push_back(res <= I(m) * k.second + I(m - 1)); }
        else if (d % k.first == 0) { s128 m = d / k.first; side.push_back(I(m) * res <= k.second); side.push_back(k.second <= I(m) * res + I(m - 1)); }
      }
      quotOf.emplace(Z3_get_ast_id(c, res), std::make_pair(a, d));
    }
    quots.emplace(id, QD{a, {}}).first->second.q.emplace(d, res); 
    z3::expr rm = a - I(d) * res; keep.push_back(rm); keep.push_back(res); remOf.emplace(Z3_get_ast_id(c, rm), std::make_pair(a, d));
    return res;
  }
  std::map<unsigned, z3::expr> truncs; std::map<std::pair<unsigned, s128>, std::vector<z3::expr>> truncQuots;
  IV toU(E e) {
    auto it = um.find(e->id); if (it != um.end()) return it->second;
    IV v = iv(e); s128 M = (s128)1 << e->w;
    if (!(v.lo >= 0 && v.hi < M)) {
      if (v.lo >= -M && v.hi < 0) { v.t = v.t + I(M); v.lo += M; v.hi += M; }
      else if (v.lo >= -M && v.hi < M) { v.t = z3::ite(v.t < 0, v.t + I(M), v.t); v.lo = 0; v.hi = M - 1; }
      else { s128 kl = v.lo / M - 1, kh = v.hi / M + 1; z3::expr k = freshI(), u = freshI(); side.push_back(u == v.t - I(M) * k); side.push_back(u >= 0); side.push_back(u < I(M)); side.push_back(k >= I(kl)); side.push_back(k <= I(kh)); v.t = u; v.lo = 0; v.hi = M - 1; }
      auto b = uB.find(e->id); if (b != uB.end()) { v.lo = std::max(v.lo, b->second.first); v.hi = std::min(v.hi, b->second.second); }
    }
    u128 um_ = ~e->kz & maskw(e->w); if ((u128)v.hi > um_) v.hi = std::max((s128)um_, v.lo);
    um.emplace(e->id, v); return v;
  }
  IV toS(E e) {
    auto it = sm.find(e->id); if (it != sm.end()) return it->second;
    IV v = iv(e); s128 M = (s128)1 << e->w, H = M / 2;
    if (!(v.lo >= -H && v.hi < H)) {
      if (v.lo >= H && v.hi < M) { v.t = v.t - I(M); v.lo -= M; v.hi -= M; }
      else if (v.lo >= -H && v.hi < M) { v.t = z3::ite(v.t >= I(H), v.t - I(M), v.t); v.lo = -H; v.hi = H - 1; }
      else { s128 kl = v.lo / M - 1, kh = v.hi / M + 1; z3::expr k = freshI(), u = freshI(); side.push_back(u == v.t - I(M) * k); side.push_back(u >= I(-H)); side.push_back(u < I(H)); side.push_back(k >= I(kl)); side.push_back(k <= I(kh)); v.t = u; v.lo = -H; v.hi = H - 1; }
      auto b = sB.find(e->id); if (b != sB.end()) { v.lo = std::max(v.lo, b->second.first); v.hi = std::min(v.hi, b->second.second); }
    }
    sm.emplace(e->id, v); return v;
  }
  IV any(E e) { z3::expr t = freshI(); s128 M = (s128)1 << e->w; side.push_back(t >= 0); side.push_back(t < I(M)); return IV{t, 0, M - 1}; }
  IV iv(E e) {
    auto it = im.find(e->id); if (it != im.end()) return it->second;
    IV v = e->w > 100 ? IV{freshI(), -LIM, LIM} : iv1(e);
    if (e->w <= 100) {
      if (opaque(v)) v = any(e);
      s128 M = (s128)1 << e->w;
      if (v.lo > v.hi) v.hi = v.lo;
      if (v.lo >= -M / 2 && v.hi < M / 2) { auto b = sB.find(e->id); if (b != sB.end()) { v.lo = std::max(v.lo, b->second.first); v.hi = std::max(v.lo, std::min(v.hi, b->second.second)); } }
      if (v.lo >= 0 && v.hi < M) { auto b = uB.find(e->id); if (b != uB.end()) { v.lo = std::max(v.lo, b->second.first); v.hi = std::max(v.lo, std::min(v.hi, b->second.second)); } }
    }
    im.emplace(e->id, v); return v;
  }
  IV divTrunc(const IV &a, s128 d, bool rem) {   // truncating division of a signed/unsigned value
    auto tq = [&](s128 x) { return x / d; };
    bool neg = d < 0; s128 ad = neg ? -d : d;
    IV q{a.t, 0, 0};
    if (a.lo >= 0) q.t = fdiv(a.t, ad, &q, a.lo, a.hi);
    else if (a.hi <= 0) { q.t = -fdiv(-a.t, ad, &q, -a.hi, -a.lo); s128 l = -q.hi; q.hi = -q.lo; q.lo = l; }
    else {
      auto &mm = truncQuots[{Z3_get_ast_id(c, a.t), ad}]; bool have = !mm.empty(); if (!have) { mm.push_back(freshI()); keep.push_back(a.t); }
      z3::expr qq = mm[0], r = have ? a.t - I(ad) * qq : freshI(); if (!have) { side.push_back(a.t == I(ad) * qq + r);
      side.push_back(z3::implies(a.t >= 0, r >= 0 && r < I(ad))); side.push_back(z3::implies(a.t < 0, r <= 0 && r > I(-ad))); }
      q.t = qq; q.lo = a.lo / ad; q.hi = a.hi / ad;
    }
    if (rem) { IV r{a.t - I(ad) * q.t, a.lo >= 0 ? 0 : -(ad - 1), a.hi <= 0 ? 0 : ad - 1}; if (a.lo >= 0 && a.hi < r.hi) r.hi = a.hi; if (a.hi <= 0 && a.lo > r.lo) r.lo = a.lo; return r; }
    (void)tq;
    if (neg) { q.t = -q.t; s128 l = -q.hi; q.hi = -q.lo; q.lo = l; }
    return q;
  }
  IV iv1(E e) {
    unsigned w = e->w; if (w > 1 && e->op != OIte && isFPVal(e)) return any(e);
    if (w == 1 && e->op != OVar && e->op != OConst) return IV{z3::ite(bo(e), c.int_val(1), c.int_val(0)), 0, 1};
    switch (e->op) {
    case OConst: { s128 v = w == 1 ? (s128)e->val : sext(e->val, w); return IV{I(v), v, v}; }
    case OVar: { std::string n = "v" + std::to_string((unsigned)e->val); z3::expr t = c.int_const(n.c_str()); leaf[(uint32_t)e->val] = {false, n}; s128 M = (s128)1 << w; side.push_back(t >= 0); side.push_back(t < I(M)); return IV{t, 0, M - 1}; }
    case OAdd: { IV a = iv(e->k[0]), b = iv(e->k[1]); return IV{a.t + b.t, clampS(a.lo + b.lo), clampS(a.hi + b.hi)}; }
    case OSub: { IV a = iv(e->k[0]), b = iv(e->k[1]); return IV{a.t - b.t, clampS(a.lo - b.hi), clampS(a.hi - b.lo)}; }
    case OMul: {
      IV a = iv(e->k[0]), b = iv(e->k[1]);
      if (a.lo != a.hi && b.lo != b.hi) { if (a.hi - a.lo > 64 && b.hi - b.lo > 64) nonlin = true; a = narrow(e->k[0]); b = narrow(e->k[1]); }
      s128 p[4] = {mulS(a.lo, b.lo), mulS(a.lo, b.hi), mulS(a.hi, b.lo), mulS(a.hi, b.hi)};
      z3::expr at = a.lo == a.hi ? I(a.lo) : a.t, bt = b.lo == b.hi ? I(b.lo) : b.t;
      if (a.lo != a.hi && b.lo != b.hi) nonlin = true;
      return IV{at * bt, *std::min_element(p, p + 4), *std::max_element(p, p + 4)}; }
    case OSDiv: case OSRem: { IV b = toS(e->k[1]); if (b.lo != b.hi || b.lo == 0) return any(e); return divTrunc(toS(e->k[0]), b.lo, e->op == OSRem); }
    case OUDiv: case OURem: { IV b = toU(e->k[1]); if (b.lo != b.hi || b.lo == 0) return any(e); return divTrunc(toU(e->k[0]), b.lo, e->op == OURem); }
    case OShl: { E k = e->k[1]; if (!k->isConst() || k->val >= w) return any(e); IV a = iv(e->k[0]); unsigned s = (unsigned)k->val; 
      if (s >= 60 || a.hi > (LIM >> s) || a.lo < -(LIM >> s)) { a = toU(e->k[0]); if (s >= 100 || a.hi > (LIM >> s)) return any(e); }
      return IV{a.t * p2(s), a.lo * ((s128)1 << s), a.hi * ((s128)1 << s)}; }
    case OLShr: { E k = e->k[1]; if (!k->isConst() || k->val >= w) return any(e); IV a = toU(e->k[0]); IV r = a; r.t = fdiv(a.t, (s128)1 << (unsigned)k->val, &r, a.lo, a.hi); return r; }
    case OAShr: { E k = e->k[1]; if (!k->isConst() || k->val >= w) return any(e); IV a = toS(e->k[0]); IV r = a; r.t = fdiv(a.t, (s128)1 << (unsigned)k->val, &r, a.lo, a.hi); return r; }
    case OExtract: {
      unsigned lo = (unsigned)e->val; if (isFPVal(e->k[0])) return any(e);
      IV a = e->k[0]->w > 100 ? IV{freshI(), -LIM, LIM} : iv(e->k[0]); if (opaque(a)) return any(e);
      if (lo) { IV u = toU(e->k[0]); IV r = u; r.t = fdiv(u.t, (s128)1 << lo, &r, u.lo, u.hi); return r; }
      return a; }
    case OConcat: {
      E h = e->k[0], l = e->k[1]; IV lv = toU(l); if (h->isConst() && h->val == 0) return lv;
      IV hv = toU(h); s128 M = (s128)1 << l->w; if (hv.hi > LIM / M) return any(e);
      return IV{hv.t * I(M) + lv.t, hv.lo * M + lv.lo, hv.hi * M + lv.hi}; }
    case OSExt: return toS(e->k[0]);
    case OIte: {
      z3::expr cc = bo(e->k[0]); IV a = iv(e->k[1]), b = iv(e->k[2]);
      return IV{z3::ite(cc, a.t, b.t), std::min(a.lo, b.lo), std::max(a.hi, b.hi)}; }
    case ONot: { IV a = toU(e->k[0]); s128 m = (s128)maskw(w); return IV{I(m) - a.t, m - a.hi, m - a.lo}; }
    case OOr: case OXor: if (((~e->k[0]->kz) & (~e->k[1]->kz) & maskw(w)) == 0) { IV a = toU(e->k[0]), b = toU(e->k[1]); return IV{a.t + b.t, a.lo + b.lo, a.hi + b.hi}; } break;
    case OAnd: if (e->k[1]->isConst()) {
        u128 m = e->k[1]->val; unsigned lo = 0; while (lo < w && !((m >> lo) & 1)) lo++; unsigned n = 0; while (lo + n < w && ((m >> (lo + n)) & 1)) n++;
        if ((m >> lo) == maskw(n) && n) {
          IV a = toU(e->k[0]); IV r = a; r.t = fdiv(a.t, (s128)1 << lo, &r, a.lo, a.hi);
          if (lo + n < w && r.hi >= ((s128)1 << n)) { IV q = r; q.t = fdiv(r.t, (s128)1 << n, &q, r.lo, r.hi); r.t = r.t - q.t * p2(n); r.lo = 0; r.hi = ((s128)1 << n) - 1; }
          if (lo) { r.t = r.t * p2(lo); r.lo <<= lo; r.hi <<= lo; }
          return r;
        }
      } break;
    case OFPToSI: case OFPToUI: {
      RV x = rv(e->k[0]); if (!x.fin) return any(e);
      bool u = e->op == OFPToUI; unsigned iw = (!u && w <= 32) ? 32 : 64; long double LO = iw == 32 ? -2147483648.0L : u ? 0 : -9223372036854775808.0L, HI = iw == 32 ? 2147483647.0L : u ? 18446744073709549568.0L : 9223372036854774784.0L;
      if (!(x.lo >= LO && x.hi <= HI)) { // out of range gives the indefinite value
        if (x.lo < -1e18L * 9 || x.hi > 9e18L || u) { IV r = any(e); if (fabsl(x.lo) > 1e30L || fabsl(x.hi) > 1e30L) return r;
          if (u) { IV t = trunc(x); s128 top = (s128)maskw(std::min(w, 62u)); side.push_back(z3::implies(t.t >= 0 && t.t <= I(top), r.t == t.t)); return r; }
          IV t = trunc(x); z3::expr in = t.t >= I((s128)LO) && t.t <= I((s128)HI); side.push_back(z3::implies(in, r.t == z3::ite(t.t < 0, t.t + p2(w), t.t))); return r; }
        IV t = trunc(x); s128 bad = iw == 32 ? -((s128)1 << 31) : -((s128)1 << 63);
        return IV{z3::ite(t.t >= I((s128)LO) && t.t <= I(iw == 32 ? (s128)2147483647 : (s128)9223372036854775807LL), t.t, I(bad)), bad, iw == 32 ? 2147483647 : (s128)9223372036854775807LL};
      }
      return trunc(x); }
    default: break;
    }
    return any(e);
  }
  IV narrow(E e) { IV a = toS(e), b = toU(e); return a.hi - a.lo <= b.hi - b.lo ? a : b; }
  IV trunc(const RV &x) {
    s128 lo = (s128)truncl(x.lo), hi = (s128)truncl(x.hi);
    if (x.hasI && x.g >= 0 && x.g < 64) return IV{x.it * p2(x.g), lo, hi};
    if (x.hasI && x.g > -100) { IV n{x.it, (s128)floorl(ldexpl(x.lo, -x.g)), (s128)ceill(ldexpl(x.hi, -x.g))}; if (n.lo > -LIM && n.hi < LIM) { IV r = divTrunc(n, (s128)1 << -x.g, false); r.lo = std::max(r.lo, lo); r.hi = std::min(r.hi, hi); return r; } }
    if (lo == hi) return IV{I(lo), lo, hi};
    auto ti = truncs.find(Z3_get_ast_id(c, x.t)); if (ti != truncs.end()) return IV{ti->second, lo, hi};
    z3::expr n = freshI(), rn = z3::to_real(n); keep.push_back(x.t); truncs.emplace(Z3_get_ast_id(c, x.t), n);
    if (x.lo >= 0) { side.push_back(rn <= x.t); side.push_back(x.t < rn + 1); }
    else if (x.hi <= 0) { side.push_back(rn >= x.t); side.push_back(x.t > rn - 1); }
    else { side.push_back(z3::implies(x.t >= 0, rn <= x.t && x.t < rn + 1)); side.push_back(z3::implies(x.t < 0, rn >= x.t && x.t > rn - 1)); }
    return IV{n, lo, hi};
  }
  // ------------------------------------------------------------ reals
  static unsigned prec(unsigned w) { return w == 32 ? 24 : w == 64 ? 53 : 64; }
  z3::expr pow2R(int g) { if (g >= 0) return z3::to_real(p2(g)); return z3::expr(c.real_val(1) / z3::to_real(p2(-g))); }
  z3::expr scale(const z3::expr &it, int g) { // it * 2^g as a real
    if (g == 0) return z3::to_real(it);
    if (g > 0) return z3::to_real(it * p2(g));
    std::string d = Z3_get_numeral_string(c, p2(-g)); return z3::to_real(it) * c.real_val(("1/" + d).c_str()); }
  RV exactI(const z3::expr &it, int g, long double lo, long double hi) { return RV{scale(it, g), true, it, g, lo, hi, true}; }
  RV unk() { return RV{freshR(), false, c.int_val(0), 0, -INFINITY, INFINITY, false}; }
  RV constR(long double v) {
    if (!(fabsl(v) <= 1e300L)) return unk();
    if (v == 0) return exactI(c.int_val(0), 0, 0, 0);
    int ex; long double m = frexpl(v, &ex); m = ldexpl(m, 64); ex -= 64; bool neg = m < 0; u128 u = (u128)fabsl(m);
    while (!(u & 1)) { u >>= 1; ex++; }
    if (ex < -1200) return unk();
    s128 s = neg ? -(s128)u : (s128)u;
    if (ex > 0 && ex < 50) { return exactI(I(s) * p2(ex), 0, v, v); }
    return exactI(I(s), ex, v, v);
  }
  static void widen(long double &lo, long double &hi) { lo -= fabsl(lo) * 1e-18L; hi += fabsl(hi) * 1e-18L; }
  // v: exact real value of the operation, in [lo,hi]
  RV round(const z3::expr &v, long double lo, long double hi, unsigned w, bool md = false) {
    unsigned p = prec(w); long double ma = std::max(fabsl(lo), fabsl(hi));
    if (!(ma < (w == 32 ? 1e38L : 1e300L))) return unk();
    z3::expr r = freshR(); int ex; frexpl(ma, &ex); ex++;   // ma < 2^ex
    z3::expr err = scale(c.int_val(1), std::max(ex - (int)p - 1, -1100));
    z3::expr u = scale(c.int_val(1), -(int)p), tiny = c.real_val(0);
    // a product or quotient may be subnormal: absolute slack far above any subnormal error
    if (md && lo < 1e-30L && hi > -1e-30L) { tiny = scale(c.int_val(1), -130); side.push_back(z3::implies(v == 0, r == 0)); }
    side.push_back(r - v <= err); side.push_back(v - r <= err);
    if (lo >= 0) { side.push_back(r >= 0); side.push_back(r - v <= u * v + tiny); side.push_back(v - r <= u * v + tiny); }
    else if (hi <= 0) { side.push_back(r <= 0); side.push_back(v - r <= u * -v + tiny); side.push_back(r - v <= u * -v + tiny); }
    else { side.push_back(z3::implies(v >= 0, r >= 0 && r - v <= u * v + tiny && v - r <= u * v + tiny)); side.push_back(z3::implies(v <= 0, r <= 0 && v - r <= u * -v + tiny && r - v <= u * -v + tiny)); }
    if (grid && ma < ldexpl(1, p)) {
      z3::expr n = freshI(), rn = z3::to_real(n);
      side.push_back(rn <= v); side.push_back(v < rn + 1); side.push_back(rn <= r); side.push_back(r <= rn + 1); side.push_back(z3::implies(v == rn, r == rn));
    }
    long double s = ldexpl(ma, -(int)p) * 1.01L; 
    long double l2 = lo - s, h2 = hi + s; if (lo >= 0 && l2 < 0) l2 = 0; if (hi <= 0 && h2 > 0) h2 = 0;
    // rounding is monotone: bounds that are representable stay bounds
    if (w == 64) { if ((long double)(double)lo == lo) l2 = lo; if ((long double)(double)hi == hi) h2 = hi; }
    side.push_back(r >= ldreal(l2)); side.push_back(r <= ldreal(h2));
    return RV{r, false, c.int_val(0), 0, l2, h2, true};
  }
  z3::expr ldreal(long double v) { RV k = constR(v); return k.t; }
  RV finish(const z3::expr &it, int g, long double lo, long double hi, unsigned w) {   // exact value it*2^g
    widen(lo, hi);
    long double ma = std::max(fabsl(lo), fabsl(hi));
    if (ma <= ldexpl(1, g + (int)prec(w)) && g > -1000) return exactI(it, g, lo, hi);
    return round(scale(it, g), lo, hi, w);
  }
  RV rv(E e) {
    auto it = rm.find(e->id); if (it != rm.end()) return it->second;
    RV v = rv1(e);
    auto b = fB.find(e->id);
    if (b != fB.end() && v.fin) { v.lo = std::max(v.lo, b->second.first); v.hi = std::max(v.lo, std::min(v.hi, b->second.second)); }
    rm.emplace(e->id, v); return v;
  }
  RV leafR(E e) {
    auto b = fB.find(e->id);
    if (b == fB.end() || !(b->second.first > -1e300L && b->second.second < 1e300L)) return unk();
    z3::expr t = e->op == OVar ? c.real_const(("v" + std::to_string((unsigned)e->val)).c_str()) : freshR();
    if (e->op == OVar) { auto l = leaf.find((uint32_t)e->val); if (l != leaf.end() && !l->second.first) return RV{freshR(), false, c.int_val(0), 0, b->second.first, b->second.second, true}; leaf[(uint32_t)e->val] = {true, "v" + std::to_string((unsigned)e->val)}; }
    side.push_back(t >= ldreal(b->second.first)); side.push_back(t <= ldreal(b->second.second));
    return RV{t, false, c.int_val(0), 0, b->second.first, b->second.second, true};
  }
  static bool isTruncOf(E t, E x) {
    if (t->op == OFRnd && t->val == RTrunc) return t->k[0] == x;
    if (t->op != OSIToFP) return false;
    E i = t->k[0]; if (i->op == OSExt) i = i->k[0];
    return i->op == OFPToSI && i->k[0] == x;
  }
  RV rv1(E e) {
    unsigned w = e->w;
    if (e->isConst()) { long double v = bitsToLD(e->val, w); return v == v ? constR(v) : unk(); }
    switch (e->op) {
    case OSIToFP: case OUIToFP: {
      IV a = e->op == OSIToFP ? toS(e->k[0]) : toU(e->k[0]); 
      return finish(a.t, 0, (long double)a.lo, (long double)a.hi, w); }
    case OIte: {
      RV a = rv(e->k[1]), b = rv(e->k[2]); z3::expr cc = bo(e->k[0]);
      if (!a.fin || !b.fin) return RV{z3::ite(cc, a.t, b.t), false, c.int_val(0), 0, -INFINITY, INFINITY, false};
      long double lo = std::min(a.lo, b.lo), hi = std::max(a.hi, b.hi);
      if (a.hasI && b.hasI && abs(a.g - b.g) < 200) { int g = std::min(a.g, b.g); return exactI(z3::ite(cc, a.it * p2(a.g - g), b.it * p2(b.g - g)), g, lo, hi); }
      return RV{z3::ite(cc, a.t, b.t), false, c.int_val(0), 0, lo, hi, true}; }
    case OAnd: if (e->k[1]->isConst() && e->k[1]->val == (maskw(w) >> 1)) {
        RV a = rv(e->k[0]); if (!a.fin) return unk();
        long double hi = std::max(fabsl(a.lo), fabsl(a.hi)), lo = a.lo > 0 ? a.lo : a.hi < 0 ? -a.hi : 0;
        RV r = a; r.lo = lo; r.hi = hi; r.t = a.lo >= 0 ? a.t : z3::ite(a.t >= 0, a.t, -a.t); if (a.hasI) r.it = z3::ite(a.it >= 0, a.it, -a.it); return r;
      } break;
    case OXor: if (e->k[1]->isConst() && e->k[1]->val == ((u128)1 << (w - 1))) { RV a = rv(e->k[0]); if (!a.fin) return unk(); RV r = a; r.lo = -a.hi; r.hi = -a.lo; r.t = -a.t; if (a.hasI) r.it = -a.it; return r; } break;
    case OConcat: if (e->k[1]->isConst() && e->k[1]->val == 0 && e->k[1]->w + 1 == w) return constR(0); break;   // copysign(0, x)
    case OFAdd: case OFSub: {
      RV a = rv(e->k[0]), b = rv(e->k[1]); if (!a.fin || !b.fin) return unk(); bool sub = e->op == OFSub;
      if (a.lo == 0 && a.hi == 0) { if (!sub) return b; } if (b.lo == 0 && b.hi == 0) return a;
      long double lo = sub ? a.lo - b.hi : a.lo + b.lo, hi = sub ? a.hi - b.lo : a.hi + b.hi;
      if (sub && e->k[0] == e->k[1]) return constR(0);
      if (sub && !a.hasI && isTruncOf(e->k[1], e->k[0]) && fabsl(a.lo) < 1e15L && fabsl(a.hi) < 1e15L) { // the fraction of a number is representable
        z3::expr d = freshR(); side.push_back(d == a.t - b.t);
        if (a.lo >= 0) { side.push_back(d >= 0); side.push_back(d < 1); } else if (a.hi <= 0) { side.push_back(d <= 0); side.push_back(d > -1); }
        return RV{d, false, c.int_val(0), 0, a.lo >= 0 ? 0.0L : -1.0L, a.hi <= 0 ? 0.0L : 1.0L, true};
      }
      if (a.hasI && b.hasI && abs(a.g - b.g) < 400) { int g = std::min(a.g, b.g); z3::expr x = a.it * p2(a.g - g), y = b.it * p2(b.g - g); return finish(sub ? x - y : x + y, g, lo, hi, w); }
      widen(lo, hi); return round(sub ? a.t - b.t : a.t + b.t, lo, hi, w); }
    case OFMul: {
      RV a = rv(e->k[0]), b = rv(e->k[1]); if (!a.fin || !b.fin) return unk();
      long double p[4] = {a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi}; long double lo = *std::min_element(p, p + 4), hi = *std::max_element(p, p + 4);
      bool ca = a.lo == a.hi, cb = b.lo == b.hi; if (!ca && !cb) nonlin = true;
      if (a.hasI && b.hasI && (ca || cb)) return finish(a.it * b.it, a.g + b.g, lo, hi, w);
      widen(lo, hi);
      RV *s = ca ? &a : cb ? &b : nullptr; if (s && s->hasI && s->it.is_numeral() && false) return unk();
      if (s && pw2(s->lo) && (s->lo >= 1 || lo > 1e-200L || hi < -1e-200L)) { RV *o = s == &a ? &b : &a; return RV{o->t * s->t, false, c.int_val(0), 0, lo, hi, true}; }
      return round(a.t * b.t, lo, hi, w, true); }
    case OFDiv: {
      RV a = rv(e->k[0]), b = rv(e->k[1]); if (!a.fin || !b.fin) return unk();
      if (b.lo <= 0 && b.hi >= 0) return unk();
      long double p[4] = {a.lo / b.lo, a.lo / b.hi, a.hi / b.lo, a.hi / b.hi}; long double lo = *std::min_element(p, p + 4), hi = *std::max_element(p, p + 4); widen(lo, hi);
      if (b.lo == b.hi) {
        if (pw2(b.lo) && b.lo > 0) { int ex; frexpl(b.lo, &ex); ex--; if (a.hasI) return finish(a.it, a.g - ex, lo, hi, w); return RV{a.t / b.t, false, c.int_val(0), 0, lo, hi, true}; }
        return round(a.t / b.t, lo, hi, w, true);
      }
      nonlin = true; z3::expr q = freshR(); side.push_back(q * b.t == a.t); return round(q, lo, hi, w, true); }
    case OFRnd: {
      RV x = rv(e->k[0]); if (!x.fin || fabsl(x.lo) > 1e18L || fabsl(x.hi) > 1e18L) return unk();
      if (x.hasI && x.g >= 0) return x;
      if (e->val == RTrunc || (e->val == RFloor && x.lo >= 0)) { IV t = trunc(x); return exactI(t.t, 0, (long double)t.lo, (long double)t.hi); }
      if (e->val == RFloor || e->val == RCeil) {
        long double lo = e->val == RFloor ? floorl(x.lo) : ceill(x.lo), hi = e->val == RFloor ? floorl(x.hi) : ceill(x.hi);
        z3::expr n = freshI(), rn = z3::to_real(n);
        if (e->val == RFloor) { side.push_back(rn <= x.t); side.push_back(x.t < rn + 1); } else { side.push_back(rn >= x.t); side.push_back(x.t > rn - 1); }
        return exactI(n, 0, lo, hi);
      }
      z3::expr n = freshI(), rn = z3::to_real(n), half = c.real_val("1/2"); side.push_back(rn - x.t <= half); side.push_back(x.t - rn <= half);
      if (e->val == RRound) { side.push_back(z3::implies(x.t - rn == half, x.t < 0)); side.push_back(z3::implies(rn - x.t == half, x.t > 0)); }
      else { z3::expr h = freshI(); side.push_back(z3::implies(x.t - rn == half || rn - x.t == half, n == 2 * h)); }
      return exactI(n, 0, roundl(x.lo) - 1, roundl(x.hi) + 1); }
    case OFCvt: {
      RV a = rv(e->k[0]); if (!a.fin) return unk(); if (prec(w) >= prec(e->k[0]->w)) return a;
      if (a.hasI) return finish(a.it, a.g, a.lo, a.hi, w);
      return round(a.t, a.lo, a.hi, w); }
    case OFRem: {
      RV a = rv(e->k[0]), b = rv(e->k[1]); if (!a.fin || !b.fin || b.lo != b.hi || b.lo <= 0) return unk();
      if (fabsl(a.lo / b.lo) > 1e18L || fabsl(a.hi / b.lo) > 1e18L) return unk();
      long double m = b.lo; long double hi = a.hi <= 0 ? 0 : std::min(a.hi, m), lo = a.lo >= 0 ? 0 : std::max(a.lo, -m);
      z3::expr q = freshI(), r = freshR(); side.push_back(a.t == b.t * z3::to_real(q) + r);
      if (a.lo >= 0) { side.push_back(r >= 0); side.push_back(r < b.t); } else { side.push_back(z3::implies(a.t >= 0, r >= 0 && r < b.t)); side.push_back(z3::implies(a.t <= 0, r <= 0 && r > -b.t)); }
      if (a.hasI && b.hasI && abs(a.g - b.g) < 200) { int g = std::min(a.g, b.g); return exactI(a.it * p2(a.g - g) - q * (b.it * p2(b.g - g)), g, lo, hi); }
      return RV{r, false, c.int_val(0), 0, lo, hi, true}; }
    case OFSqrt: {
      RV a = rv(e->k[0]); if (!a.fin || a.lo < 0) return unk();
      z3::expr q = freshR(); nonlin = true; side.push_back(q >= 0); side.push_back(q * q == a.t); long double lo = sqrtl(a.lo), hi = sqrtl(a.hi); widen(lo, hi);
      return round(q, lo, hi, w); }
    default: break;
    }
    return leafR(e);
  }
  static bool pw2(long double v) { int ex; return v > 0 && frexpl(v, &ex) == 0.5L; }
  // ------------------------------------------------------------ booleans
  z3::expr bo(E e) {
    auto it = bm.find(e->id); if (it != bm.end()) return it->second;
    z3::expr r = bo1(e); bm.emplace(e->id, r); return r;
  }
  z3::expr bo1(E e) {
    switch (e->op) {
    case OConst: return c.bool_val(e->val != 0);
    case OVar: { IV v = iv(e); return v.t == 1; }
    case OAnd: return bo(e->k[0]) && bo(e->k[1]);
    case OOr: return bo(e->k[0]) || bo(e->k[1]);
    case OXor: return bo(e->k[0]) != bo(e->k[1]);
    case ONot: return !bo(e->k[0]);
    case OIte: return z3::ite(bo(e->k[0]), bo(e->k[1]), bo(e->k[2]));
    case OEq: {
      E x = e->k[0], y = e->k[1];
      if (x->w == 1) return bo(x) == bo(y);
      if (x->w > 100) return freshB();
      if (isFPVal(x) || isFPVal(y)) { // bit patterns of floating values: equal bits give equal reals
        RV a = rv(x), b = rv(y); z3::expr r = freshB(); if (a.fin && b.fin) { side.push_back(z3::implies(r, a.t == b.t)); side.push_back(z3::implies(a.t == b.t && a.t != 0, r)); } return r; }
      IV a = iv(x), b = iv(y); s128 M = (s128)1 << x->w;
      if (a.hi - b.lo < M && b.hi - a.lo < M) return a.t == b.t;
      a = toU(x); b = toU(y); return a.t == b.t; }
    case OUlt: case OUle: { if (e->k[0]->w > 100) return freshB(); IV a = toU(e->k[0]), b = toU(e->k[1]); return e->op == OUlt ? a.t < b.t : a.t <= b.t; }
    case OSlt: case OSle: { if (e->k[0]->w > 100) return freshB(); IV a = toS(e->k[0]), b = toS(e->k[1]); return e->op == OSlt ? a.t < b.t : a.t <= b.t; }
    case OFEq: case OFLt: case OFLe: {
      RV a = rv(e->k[0]), b = rv(e->k[1]);
      if (!a.fin || !b.fin) { // infinities compare as expected with finite values, NaN compares false
        E k = a.fin ? e->k[1] : e->k[0];
        if ((a.fin || b.fin) && k->isConst()) { long double v = bitsToLD(k->val, k->w); bool bb; 
          if (std::isnan(v)) bb = false; else if (e->op == OFEq) bb = false; else bb = a.fin ? v > 0 : v < 0;
          return c.bool_val(bb); }
        return freshB(); }
      if (a.hasI && b.hasI && abs(a.g - b.g) < 400) { int g = std::min(a.g, b.g); z3::expr x = a.it * p2(a.g - g), y = b.it * p2(b.g - g); return e->op == OFEq ? x == y : e->op == OFLt ? x < y : x <= y; }
      if (e->op == OFLt && (a.lo == a.hi) != (b.lo == b.hi) && (a.lo == a.hi ? fabsl(a.lo) : fabsl(b.lo)) > 1e-290L) {
        // against a constant: the next representable value is the real bound
        z3::expr r = freshB();
        if (b.lo == b.hi) { side.push_back(z3::implies(r, a.t <= ldreal(stepF(b.lo, e->k[0]->w, false)))); side.push_back(z3::implies(!r, a.t >= b.t)); }
        else { side.push_back(z3::implies(r, b.t >= ldreal(stepF(a.lo, e->k[0]->w, true)))); side.push_back(z3::implies(!r, b.t <= a.t)); }
        return r;
      }
      if (e->op == OFLe && (a.lo == a.hi) != (b.lo == b.hi) && (a.lo == a.hi ? fabsl(a.lo) : fabsl(b.lo)) > 1e-290L) {
        z3::expr r = freshB();
        if (b.lo == b.hi) { side.push_back(z3::implies(r, a.t <= b.t)); side.push_back(z3::implies(!r, a.t >= ldreal(stepF(b.lo, e->k[0]->w, true)))); }
        else { side.push_back(z3::implies(r, b.t >= a.t)); side.push_back(z3::implies(!r, b.t <= ldreal(stepF(a.lo, e->k[0]->w, false)))); }
        return r;
      }
      return e->op == OFEq ? a.t == b.t : e->op == OFLt ? a.t < b.t : a.t <= b.t; }
    case OFUno: { RV a = rv(e->k[0]), b = rv(e->k[1]); if (a.fin && b.fin) return c.bool_val(false); return freshB(); }
    case OExtract: case OFPToSI: case OFPToUI: case OUF: default: break;
    }
    if (e->op == OExtract && e->k[0]->w <= 100 && !isFPVal(e->k[0])) {
      IV u = toU(e->k[0]); unsigned lo = (unsigned)e->val; IV q = u; q.t = lo ? fdiv(u.t, (s128)1 << lo, &q, u.lo, u.hi) : u.t;
      if (q.lo >= 0 && q.hi <= 1) return q.t == 1;
      IV h = q; h.t = fdiv(q.t, 2, &h, q.lo, q.hi); return q.t - 2 * h.t == 1;
    }
    return freshB();
  }
};

// ------------------------------------------------------------------ s-expression numbers
struct Rat { bool ok = false; long double v = 0; s128 i = 0; bool isInt = false; };
static Rat parseNum(const std::string &s, size_t &p) {
  while (p < s.size() && isspace(s[p])) p++;
  Rat r; if (p >= s.size()) return r;
  if (s[p] == '(') {
    p++; while (isspace(s[p])) p++; char op = s[p++];
    Rat a = parseNum(s, p);
    if (op == '-') { r = a; r.v = -a.v; r.i = -a.i; }
    else if (op == '/') { Rat b = parseNum(s, p); r.ok = a.ok && b.ok; r.v = a.v / b.v; r.isInt = false; }
    while (p < s.size() && s[p] != ')') p++; p++;
    return r;
  }
  size_t q = p; while (q < s.size() && !isspace(s[q]) && s[q] != ')') q++;
  std::string t = s.substr(p, q - p); p = q; if (t.empty() || !(isdigit(t[0]) || t[0] == '-')) return r;
  bool neg = t[0] == '-'; size_t k = neg; r.ok = true; r.isInt = true;
  size_t sl = t.find('/'); std::string den; if (sl != std::string::npos) { den = t.substr(sl + 1); t = t.substr(0, sl); }
  r.v = strtold(t.c_str(), nullptr);
  for (; k < t.size() && isdigit(t[k]); k++) r.i = r.i * 10 + (t[k] - '0'); if (neg) r.i = -r.i;
  if (!den.empty()) { r.v /= strtold(den.c_str(), nullptr); r.isInt = false; }
  return r;
}

static Res runExternal(const std::string &smt, std::map<std::string, Rat> &vals, const std::vector<std::string> &names, double timeout) {
  char dir[] = "/tmp/symxaXXXXXX"; if (!mkdtemp(dir)) return UNKNOWN;
  std::string d = dir; { std::ofstream f(d + "/q.smt2"); f << smt; }
  std::vector<std::vector<std::string>> cmds = {{"cvc5", "--produce-models", d + "/q.smt2"}, {"z3-new", d + "/q.smt2"}};
  std::vector<pid_t> pids(cmds.size(), 0);
  for (size_t i = 0; i < cmds.size(); i++) {
    pid_t p = fork(); if (!p) prctl(PR_SET_PDEATHSIG, SIGKILL);
    if (p == 0) {
      setpgid(0, 0); int fd = open((d + "/out" + std::to_string(i)).c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600);
      dup2(fd, 1); dup2(open("/dev/null", O_WRONLY), 2);
      std::vector<char *> av; for (auto &s : cmds[i]) av.push_back((char *)s.c_str()); av.push_back(nullptr);
      execvp(av[0], av.data()); _exit(127);
    }
    pids[i] = p;
  }
  double t0 = now(); Res r = UNKNOWN;
  while (r == UNKNOWN && now() - t0 < timeout) {
    bool alive = false;
    for (size_t i = 0; i < pids.size() && r == UNKNOWN; i++) {
      if (!pids[i]) continue; alive = true; int st;
      if (waitpid(pids[i], &st, WNOHANG) != pids[i]) continue;
      pids[i] = 0; std::ifstream f(d + "/out" + std::to_string(i)); std::string line; 
      while (std::getline(f, line)) {
        if (line == "unsat") { r = UNSAT; break; }
        if (line == "sat") { std::stringstream ss; ss << f.rdbuf(); std::string txt = ss.str();
          for (auto &n : names) { std::string key = "(" + n + " "; size_t p = txt.find(key); if (p == std::string::npos) continue; p += key.size(); vals[n] = parseNum(txt, p); }
          r = SAT; break; }
      }
    }
    if (!alive) break;
    usleep(2000);
  }
  for (pid_t p : pids) if (p) { kill(-p, SIGKILL); kill(p, SIGKILL); waitpid(p, nullptr, 0); }
  for (auto n : {"/q.smt2", "/out0", "/out1"}) unlink((d + n).c_str());
  rmdir(dir); return r;
}

// f's result, computed in a child process that is killed after `limit` seconds (then the empty string)
static std::string inChild(double limit, const std::function<std::string()> &f) {
  int fd[2]; if (pipe(fd)) return "";
  pid_t p = fork();
  if (p == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL); close(fd[0]); std::string out;
    try { out = f(); } catch (...) { out = "?"; }
    out += "."; size_t o = 0; while (o < out.size()) { ssize_t k = write(fd[1], out.data() + o, out.size() - o); if (k <= 0) break; o += k; }
    _exit(0);
  }
  close(fd[1]); if (p < 0) { close(fd[0]); return ""; }
  std::string in; double t0 = now(); bool done = false;
  while (!done && now() - t0 < limit) { struct pollfd pf = {fd[0], POLLIN, 0}; if (poll(&pf, 1, 100) > 0) { char b[4096]; ssize_t k = read(fd[0], b, sizeof b); if (k <= 0) done = true; else in.append(b, k); } }
  kill(p, SIGKILL); waitpid(p, nullptr, 0); close(fd[0]);
  if (in.empty() || in.back() != '.') return "";
  in.pop_back(); return in;
}

Res arithSolve(const std::vector<E> &cs, const VarSet *vs, std::unordered_map<uint32_t, u128> *vals, double timeout) {
  static z3::context *ctx = new z3::context();
  z3::context &c = *ctx; bool dbg = getenv("SYMX_ARITH") != nullptr;
  try {
    for (int phase = 0; phase < 2; phase++) {
      AT t(c, phase == 1);
      for (E e : cs) t.bounds(e, true, 0);
      for (E e : cs) t.bounds(e, true, 1);
      z3::expr_vector q(c); for (E e : cs) q.push_back(t.bo(e));
      z3::solver s = z3::solver(c); 
      z3::params p(c); p.set("timeout", (unsigned)((dbg ? 60.0 : std::min(timeout, t.nonlin ? 3.0 : 1.5)) * 1000)); s.set(p);
      for (unsigned i = 0; i < q.size(); i++) s.add(q[i]);
      for (unsigned i = 0; i < t.side.size(); i++) s.add(t.side[i]);
      double t0 = now();
      std::map<std::string, Rat> mv; std::vector<std::string> names; for (auto &l : t.leaf) names.push_back(l.second.second);
      // Z3 does not always honour its timeout on arithmetic: the call runs in a child that is ended when its time is over
      double lim = (dbg ? 60.0 : std::min(timeout, t.nonlin ? 3.0 : 1.5));
      std::string ans = inChild(lim * 1.2 + 0.5, [&]() {
        z3::check_result cr = s.check(); std::string out = cr == z3::unsat ? "u" : cr == z3::sat ? "s" : "?";
        if (cr == z3::sat) { z3::model m = s.get_model(); for (auto &l : t.leaf) { z3::expr x = l.second.first ? c.real_const(l.second.second.c_str()) : c.int_const(l.second.second.c_str()); z3::expr v = m.eval(x, true); if (v.is_numeral()) out += l.second.second + " " + Z3_get_numeral_string(c, v) + "\n"; } }
        return out; });
      Res r = ans.empty() ? UNKNOWN : ans[0] == 'u' ? UNSAT : ans[0] == 's' ? SAT : UNKNOWN;
      if (r == SAT) { std::stringstream as(ans.substr(1)); std::string line; while (std::getline(as, line)) { size_t sp = line.find(' '); if (sp == std::string::npos) continue; size_t pp = 0; mv[line.substr(0, sp)] = parseNum(line.substr(sp + 1), pp); } }
      if (r == UNKNOWN && timeout > 2) {
        std::string smt = s.to_smt2(); size_t pos; while ((pos = smt.find("(set-info")) != std::string::npos) smt.erase(pos, smt.find('\n', pos) - pos);
        std::stringstream gv; gv << "\n(get-value ("; for (auto &n : names) gv << " " << n; gv << "))\n";
        std::string hdr = std::string("(set-option :produce-models true)\n(set-logic ") + (t.nonlin ? "QF_NIRA" : "QF_LIRA") + ")\n";
        for (auto &l : t.leaf) if (smt.find("declare-fun " + l.second.second + " ") == std::string::npos) hdr += "(declare-fun " + l.second.second + " () " + (l.second.first ? "Real" : "Int") + ")\n";
        if (!gDumpDir.empty()) { static int n; std::ofstream(gDumpDir + "/a" + std::to_string(phase) + "_" + std::to_string(getpid()) + "_" + std::to_string(n++) + ".smt2") << hdr << smt << gv.str(); }
        r = runExternal(hdr + smt + (names.empty() ? "" : gv.str()), mv, names, timeout);
      }
      if (dbg) fprintf(stderr, "symx: arith phase %d: %s %.2fs nonlin=%d\n", phase, r == UNSAT ? "unsat" : r == SAT ? "sat" : "unknown", now() - t0, t.nonlin);
      if (r == UNSAT) return UNSAT;
      if (r == SAT) {
        vals->clear(); for (uint32_t v : vs->v) (*vals)[v] = 0;
        for (auto &l : t.leaf) { auto it = mv.find(l.second.second); if (it == mv.end() || !it->second.ok) continue; unsigned w = gVars[l.first].w;
          if (!l.second.first) (*vals)[l.first] = (u128)it->second.i & maskw(w); else (*vals)[l.first] = ldToBits(it->second.v, w); }
        // candidate good enough?  the caller verifies; otherwise refine with the grid facts
        Model m; m.uid = newModelUid(); m.v.assign(gVars.size(), 0); for (auto &x : *vals) m.v[x.first] = x.second;
        bool ok = true; for (E e : cs) if (!evalExpr(e, m)) { ok = false; break; }
        if (ok) return SAT;
        if (phase == 1) {
          // look for a genuine model near the candidate
          uint64_t rs = 88172645463325252ull; auto rnd = [&]() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; };
          std::vector<uint32_t> vl(vs->v.begin(), vs->v.end());
          for (int k = 0; k < 4000 && !vl.empty(); k++) {
            Model n = m; n.uid = newModelUid(); unsigned ch = 1 + rnd() % std::min<size_t>(3, vl.size());
            for (unsigned j = 0; j < ch; j++) { uint32_t v = vl[rnd() % vl.size()]; unsigned mag = rnd() % std::min(40u, gVars[v].w); u128 dlt = rnd() & ((1ull << (mag + 1)) - 1); n.v[v] = (rnd() & 1 ? n.v[v] + dlt : n.v[v] - dlt) & maskw(gVars[v].w); }
            bool good = true; for (E e : cs) if (!evalExpr(e, n)) { good = false; break; }
            if (good) { for (uint32_t v : vl) (*vals)[v] = n.v[v]; return SAT; }
          }
          return UNKNOWN;
        }
        if (!cs.empty()) { bool fp = false; for (E e : cs) fp |= e->hasFP(); if (!fp) { if (dbg) fprintf(stderr, "symx: arith integer model fails\n"); return UNKNOWN; } }
      }
    }
  } catch (z3::exception &ex) { fprintf(stderr, "symx: arith: %s\n", ex.msg()); }
  return UNKNOWN;
}
