#include "expr.h"
#include <cmath>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <algorithm>
#include <set>
#include <map>

std::vector<VarInfo> gVars;
std::vector<std::string> gUFs;
static std::unordered_map<std::string, E> varByName;

// ---------------------------------------------------------------- var sets
static std::unordered_map<std::string, const VarSet *> vsTab;
static uint32_t vsNext = 0;
static const VarSet *vsIntern(std::vector<uint32_t> &&v) {
  std::string key((const char *)v.data(), v.size() * 4);
  auto it = vsTab.find(key);
  if (it != vsTab.end()) return it->second;
  auto *s = new VarSet{std::move(v), vsNext++};
  vsTab[key] = s;
  return s;
}
const VarSet *vsEmpty = vsIntern({});
static std::unordered_map<uint64_t, const VarSet *> vsUn;
const VarSet *vsUnion(const VarSet *a, const VarSet *b) {
  if (a == b || b == vsEmpty) return a;
  if (a == vsEmpty) return b;
  if (a->id > b->id) std::swap(a, b);
  uint64_t key = ((uint64_t)a->id << 32) | b->id;
  auto it = vsUn.find(key);
  if (it != vsUn.end()) return it->second;
  std::vector<uint32_t> r;
  std::set_union(a->v.begin(), a->v.end(), b->v.begin(), b->v.end(), std::back_inserter(r));
  auto *s = vsIntern(std::move(r));
  vsUn[key] = s;
  return s;
}
bool vsIntersects(const VarSet *a, const VarSet *b) {
  if (a == b) return !a->v.empty();
  size_t i = 0, j = 0;
  while (i < a->v.size() && j < b->v.size()) {
    if (a->v[i] == b->v[j]) return true;
    if (a->v[i] < b->v[j]) i++; else j++;
  }
  return false;
}

// ---------------------------------------------------------------- floats
long double bitsToLD(u128 b, unsigned w) {
  if (w == 32) { uint32_t x = (uint32_t)b; float f; memcpy(&f, &x, 4); return f; }
  if (w == 64) { uint64_t x = (uint64_t)b; double f; memcpy(&f, &x, 8); return f; }
  long double r = 0; memcpy(&r, &b, 10); return r;
}
double bitsToD(u128 b, unsigned w) { return (double)bitsToLD(b, w); }
static inline float toF(u128 b) { uint32_t x = (uint32_t)b; float f; memcpy(&f, &x, 4); return f; }
static inline double toD(u128 b) { uint64_t x = (uint64_t)b; double f; memcpy(&f, &x, 8); return f; }
static inline u128 fromF(float f) { if (f != f) return 0x7fc00000u; uint32_t x; memcpy(&x, &f, 4); return x; }
static inline u128 fromD(double f) { if (f != f) return 0x7ff8000000000000ull; uint64_t x; memcpy(&x, &f, 8); return x; }
static inline u128 fromL(long double f) {
  if (f != f) return ((u128)0x7fff << 64) | 0xC000000000000000ull;
  u128 r = 0; memcpy(&r, &f, 10); return r;
}
u128 ldToBits(long double d, unsigned w) { return w == 32 ? fromF((float)d) : w == 64 ? fromD((double)d) : fromL(d); }

unsigned ufId(const std::string &s) {
  for (unsigned i = 0; i < gUFs.size(); i++) if (gUFs[i] == s) return i;
  gUFs.push_back(s);
  return gUFs.size() - 1;
}
double ufNative(unsigned id, const double *a, unsigned n) {
  const std::string &s = gUFs[id];
#define U1(nm) if (s == #nm) return ::nm(a[0]);
#define U2(nm) if (s == #nm) return ::nm(a[0], a[1]);
  U1(sin) U1(cos) U1(tan) U1(asin) U1(acos) U1(atan) U2(atan2) U1(exp) U1(log) U1(log10) U2(pow) U1(sinh) U1(cosh) U1(tanh)
  U2(hypot) U1(cbrt) U1(log2) U1(exp2) U1(erf) U1(erfc) U1(lgamma) U1(tgamma) U2(fmod) U1(log1p) U1(expm1)
  fprintf(stderr, "ufNative: %s\n", s.c_str());
  abort();
}

template <class T> static T rnd(unsigned kind, T a) {
  switch (kind) {
  case RFloor: return std::floor(a);
  case RCeil: return std::ceil(a);
  case RTrunc: return std::trunc(a);
  case RRint: return std::rint(a);
  default: return std::round(a);
  }
}
template <class T> static T fop(Op op, unsigned kind, T a, T b) {
  switch (op) {
  case OFAdd: return a + b;
  case OFSub: return a - b;
  case OFMul: return a * b;
  case OFDiv: return a / b;
  case OFRem: return std::fmod(a, b);
  case OFSqrt: return std::sqrt(a);
  case OFRnd: return rnd(kind, a);
  default: abort();
  }
}

u128 evalOp(Op op, unsigned w, unsigned kw, u128 val, u128 a, u128 b, u128 c) {
  u128 m = maskw(w);
  switch (op) {
  case OAdd: return (a + b) & m;
  case OSub: return (a - b) & m;
  case OMul: return (a * b) & m;
  case OUDiv: return b ? a / b : m;
  case OURem: return b ? a % b : a;
  case OSDiv: { s128 x = sext(a, w), y = sext(b, w); if (!y) return x < 0 ? 1 : m; if (y == -1) return (u128)(-(u128)x) & m; return (u128)(x / y) & m; }
  case OSRem: { s128 x = sext(a, w), y = sext(b, w); if (!y) return a; if (y == -1) return 0; return (u128)(x % y) & m; }
  case OShl: return b >= w ? 0 : (a << (unsigned)b) & m;
  case OLShr: return b >= w ? 0 : a >> (unsigned)b;
  case OAShr: { s128 x = sext(a, w); return (u128)(x >> (b >= w ? (int)w - 1 : (int)b)) & m; }
  case OAnd: return a & b;
  case OOr: return a | b;
  case OXor: return a ^ b;
  case ONot: return ~a & m;
  case OEq: return a == b;
  case OUlt: return a < b;
  case OUle: return a <= b;
  case OSlt: return sext(a, kw) < sext(b, kw);
  case OSle: return sext(a, kw) <= sext(b, kw);
  case OIte: return a ? b : c;
  case OExtract: return (a >> (unsigned)val) & m;
  case OSExt: return (u128)sext(a, kw) & m;
  case OFAdd: case OFSub: case OFMul: case OFDiv: case OFRem: case OFSqrt: case OFRnd:
    if (w == 32) return fromF(fop<float>(op, (unsigned)val, toF(a), toF(b)));
    if (w == 64) return fromD(fop<double>(op, (unsigned)val, toD(a), toD(b)));
    return fromL(fop<long double>(op, (unsigned)val, bitsToLD(a, 80), bitsToLD(b, 80)));
  case OFEq: return bitsToLD(a, kw) == bitsToLD(b, kw);
  case OFLt: return bitsToLD(a, kw) < bitsToLD(b, kw);
  case OFLe: return bitsToLD(a, kw) <= bitsToLD(b, kw);
  case OFUno: { long double x = bitsToLD(a, kw), y = bitsToLD(b, kw); return x != x || y != y; }
  case OFCvt: return ldToBits(bitsToLD(a, kw), w);
  case OSIToFP: {
    s128 x = sext(a, kw);
    if (w == 32) return fromF((float)(int64_t)x);
    if (w == 64) return fromD((double)(int64_t)x);
    return fromL((long double)(int64_t)x);
  }
  case OUIToFP: {
    if (w == 32) return fromF((float)(uint64_t)a);
    if (w == 64) return fromD((double)(uint64_t)a);
    return fromL((long double)(uint64_t)a);
  }
  case OFPToSI: {
    // x86 semantics: conversions go through 32- or 64-bit cvtt; out of range -> indefinite
    long double x = bitsToLD(a, kw);
    if (w <= 32) {
      // narrower than 32: via 32-bit
      if (x != x || x >= 2147483648.0L || x <= -2147483649.0L) return (u128)0x80000000u & m;
      return (u128)(s128)(int32_t)x & m;
    }
    if (x != x || x >= 9223372036854775808.0L || x < -9223372036854775808.0L) return (u128)0x8000000000000000ull & m;
    return (u128)(s128)(int64_t)x & m;
  }
  case OFPToUI: {
    long double x = bitsToLD(a, kw);
    if (w <= 32) { // x86-64 -O0: via 64-bit signed then truncated
      if (x != x || x >= 9223372036854775808.0L || x < -9223372036854775808.0L) return (u128)0x8000000000000000ull & m;
      return (u128)(s128)(int64_t)x & m;
    }
    if (x != x || x >= 18446744073709551616.0L || x < -9223372036854775808.0L) return (u128)0x8000000000000000ull & m;
    if (x < 9223372036854775808.0L) return (u128)(uint64_t)(int64_t)x & m;
    return (u128)(uint64_t)x & m;
  }
  case OUF: { double q[2] = {toD(a), toD(b)}; return fromD(ufNative((unsigned)val, q, 2)); }
  default: break;
  }
  fprintf(stderr, "evalOp %d\n", op);
  abort();
}

// ---------------------------------------------------------------- table
static std::vector<E> tab(1 << 16, nullptr);
static size_t tabN = 0;
static uint32_t nextId = 0;
static char *arenaP = nullptr; static size_t arenaLeft = 0;
uint64_t exprCount() { return tabN; }

static uint32_t hashOf(Op op, unsigned w, u128 val, E a, E b, E c) {
  uint64_t h = op * 0x9E3779B97F4A7C15ull + w * 0xBF58476D1CE4E5B9ull;
  auto mix = [&](uint64_t x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; };
  mix((uint64_t)val); mix((uint64_t)(val >> 64));
  mix(a ? a->id + 1 : 0); mix(b ? b->id + 1 : 0); mix(c ? c->id + 1 : 0);
  return (uint32_t)(h ^ (h >> 32));
}
static void growTab() {
  std::vector<E> n(tab.size() * 2, nullptr);
  for (E e : tab) if (e) { size_t i = e->hash & (n.size() - 1); while (n[i]) i = (i + 1) & (n.size() - 1); n[i] = e; }
  tab.swap(n);
}
static u128 calcKZ(const Expr &e) {
  u128 m = maskw(e.w), nm = ~m;
  switch (e.op) {
  case OConst: return ~e.val;
  case OAnd: return e.k[0]->kz | e.k[1]->kz;
  case OOr: case OXor: return e.k[0]->kz & e.k[1]->kz;
  case OIte: return e.k[1]->kz & e.k[2]->kz;
  case OExtract: return ((e.k[0]->kz >> (unsigned)e.val) & m) | nm;
  case OConcat: { unsigned lw = e.k[1]->w; return ((e.k[0]->kz << lw) | (e.k[1]->kz & maskw(lw))) | nm; }
  case OURem: if (e.k[1]->isConst() && e.k[1]->val) { u128 mx = e.k[1]->val - 1; unsigned b = 0; while (b < 128 && (mx >> b)) b++; return ~maskw(b); } return nm;
  case OUDiv: case OLShr: case OAdd: case OMul: {
    // upper bound by leading zeros
    auto lead = [](E x) { u128 nz = ~x->kz & maskw(x->w); unsigned b = 0; while (nz) { b++; nz >>= 1; } return b; };
    auto trail = [](E x) { unsigned t = 0; while (t < x->w && ((x->kz >> t) & 1)) t++; return t; };
    unsigned la = lead(e.k[0]), lb = lead(e.k[1]); unsigned r = e.w;
    if (e.op == OUDiv || e.op == OLShr) { if (e.op == OUDiv && !(e.k[1]->isConst() && e.k[1]->val)) return nm; return ~maskw(std::min<unsigned>(la, e.w)); }
    if (e.op == OAdd) r = std::max(la, lb) + 1; else r = la + lb;
    u128 res = ~maskw(std::min<unsigned>(r, e.w));
    unsigned t = e.op == OAdd ? std::min(trail(e.k[0]), trail(e.k[1])) : std::min<unsigned>(e.w, trail(e.k[0]) + trail(e.k[1]));
    return res | maskw(t);
  }
  default: return nm;
  }
}
static E intern(Op op, unsigned w, u128 val, E a = nullptr, E b = nullptr, E c = nullptr) {
  if (w > 128 || w == 0) { fprintf(stderr, "symx: width %u unsupported (op %d)\n", w, op); exit(3); }
  uint32_t h = hashOf(op, w, val, a, b, c);
  size_t i = h & (tab.size() - 1);
  while (tab[i]) {
    E e = tab[i];
    if (e->hash == h && e->op == op && e->w == w && e->val == val && e->k[0] == a && e->k[1] == b && e->k[2] == c) return e;
    i = (i + 1) & (tab.size() - 1);
  }
  if (arenaLeft < sizeof(Expr)) { arenaLeft = 1 << 22; arenaP = (char *)malloc(arenaLeft); size_t al = (16 - ((uintptr_t)arenaP & 15)) & 15; arenaP += al; arenaLeft -= al; }
  Expr *e = new (arenaP) Expr();
  arenaP += sizeof(Expr); arenaLeft -= sizeof(Expr);
  e->op = op; e->w = w; e->val = val; e->k[0] = a; e->k[1] = b; e->k[2] = c;
  e->nk = a ? (b ? (c ? 3 : 2) : 1) : 0;
  e->hash = h; e->id = nextId++;
  e->flags = 0;
  for (unsigned j = 0; j < e->nk; j++) e->flags |= e->k[j]->flags;
  if (op >= OFAdd && op <= OFPToUI) e->flags |= 1;
  if (op == OUF) e->flags |= 3;
  e->cleaves = 0;
  if (op == OConst) e->cleaves = 1;
  else if (op == OIte && b->cleaves && c->cleaves && b->cleaves + c->cleaves <= 64) e->cleaves = b->cleaves + c->cleaves;
  e->kz = calcKZ(*e);
  const VarSet *vs = vsEmpty;
  if (op == OVar) vs = vsIntern({(uint32_t)val});
  else for (unsigned j = 0; j < e->nk; j++) vs = vsUnion(vs, e->k[j]->vs);
  e->vs = vs;
  tab[i] = e;
  if (++tabN * 2 > tab.size()) growTab();
  return e;
}

E mkConst(u128 v, unsigned w) { return intern(OConst, w, v & maskw(w)); }
E mkBool(bool b) { static E t = mkConst(1, 1), f = mkConst(0, 1); return b ? t : f; }
E mkVar(const std::string &name, unsigned w) {
  // the same name may have another width on another path: another variable (native.cpp looks for name@width first)
  auto it = varByName.find(name);
  if (it != varByName.end() && it->second->w == w) return it->second;
  std::string n = name;
  if (it != varByName.end()) { n += "@" + std::to_string(w); it = varByName.find(n); if (it != varByName.end()) return it->second; }
  gVars.push_back({n, w});
  E e = intern(OVar, w, gVars.size() - 1);
  varByName[n] = e;
  return e;
}

// map a unary function over the constant leaves of an ite tree
template <class F> static E mapLeaves(E e, F f) {
  if (e->isConst()) return f(e);
  return mkIte(e->k[0], mapLeaves(e->k[1], f), mapLeaves(e->k[2], f));
}
static bool isIteC(E e) { return e->op == OIte && e->cleaves && e->cleaves <= 64; }

E mkNot(E a) {
  if (a->isConst()) return mkConst(~a->val, a->w);
  if (a->op == ONot) return a->k[0];
  if (a->w == 1) {
    switch (a->op) {
    case OUlt: return mkBin(OUle, a->k[1], a->k[0]);
    case OUle: return mkBin(OUlt, a->k[1], a->k[0]);
    case OSlt: return mkBin(OSle, a->k[1], a->k[0]);
    case OSle: return mkBin(OSlt, a->k[1], a->k[0]);
    default: break;
    }
  } else if (isIteC(a)) return mapLeaves(a, [](E x) { return mkNot(x); });
  return intern(ONot, a->w, 0, a);
}

static u128 umax(E e) { return ~e->kz & maskw(e->w); }
static bool complement(E a, E b) {
  if (a->op == ONot) return a->k[0] == b;
  if (b->op == ONot) return b->k[0] == a;
  if (a->w == 1 && a->nk == 2 && b->nk == 2 && a->k[0] == b->k[1] && a->k[1] == b->k[0]) {
    if ((a->op == OUlt && b->op == OUle) || (a->op == OUle && b->op == OUlt)) return true;
    if ((a->op == OSlt && b->op == OSle) || (a->op == OSle && b->op == OSlt)) return true;
  }
  return false;
}

static E fpBin(Op op, E a, E b) {
  if (a->isConst() && b->isConst()) return mkConst(evalOp(op, a->w, a->w, 0, a->val, b->val, 0), a->w);
  if (op == OFAdd || op == OFMul) { if (a->isConst() || (!b->isConst() && a->id > b->id)) std::swap(a, b); }
  if (isIteC(a) && b->isConst()) return mapLeaves(a, [&](E x) { return fpBin(op, x, b); });
  if (isIteC(b) && a->isConst()) return mapLeaves(b, [&](E x) { return fpBin(op, a, x); });
  return intern(op, a->w, 0, a, b);
}

static E cmpBin(Op op, E a, E b);
static E bitwise(Op op, E a, E b);

E mkBin(Op op, E a, E b) {
  if (op == OConcat) return mkConcat(a, b);
  if (a->w != b->w) { fprintf(stderr, "symx: width mismatch op %d: %u %u\n", op, a->w, b->w); abort(); }
  unsigned w = a->w;
  switch (op) {
  case OFAdd: case OFSub: case OFMul: case OFDiv: case OFRem: return fpBin(op, a, b);
  case OEq: case OUlt: case OUle: case OSlt: case OSle: case OFEq: case OFLt: case OFLe: case OFUno: return cmpBin(op, a, b);
  case OAnd: case OOr: case OXor: return bitwise(op, a, b);
  default: break;
  }
  if (a->isConst() && b->isConst()) return mkConst(evalOp(op, w, w, 0, a->val, b->val, 0), w);
  if (op == OAdd || op == OMul) { if (a->isConst()) std::swap(a, b); }
  if (isIteC(a) && b->isConst()) return mapLeaves(a, [&](E x) { return mkBin(op, x, b); });
  if (isIteC(b) && a->isConst()) return mapLeaves(b, [&](E x) { return mkBin(op, a, x); });
  switch (op) {
  case OAdd:
    if (b->isConst()) {
      if (b->val == 0) return a;
      if (a->op == OAdd && a->k[1]->isConst()) return mkBin(OAdd, a->k[0], mkConst(a->k[1]->val + b->val, w));
    } else {
      if (w == 1) return bitwise(OXor, a, b);
      if (a->op == OAdd && a->k[1]->isConst()) return mkBin(OAdd, mkBin(OAdd, a->k[0], b), a->k[1]);
      if (b->op == OAdd && b->k[1]->isConst()) return mkBin(OAdd, mkBin(OAdd, a, b->k[0]), b->k[1]);
      if (a->op == OSub && a->k[1] == b) return a->k[0];
      if (b->op == OSub && b->k[1] == a) return b->k[0];
      if (a->id > b->id) std::swap(a, b);
    }
    if (((a->kz | b->kz) & maskw(w)) == maskw(w)) return bitwise(OOr, a, b);
    break;
  case OSub:
    if (a == b) return mkConst(0, w);
    if (b->isConst()) return mkBin(OAdd, a, mkConst(-b->val, w));
    if (a->op == OAdd) {
      if (a->k[0] == b) return a->k[1];
      if (a->k[1] == b) return a->k[0];
      if (a->k[1]->isConst()) {
        if (b->op == OAdd && b->k[1]->isConst()) return mkBin(OAdd, mkBin(OSub, a->k[0], b->k[0]), mkConst(a->k[1]->val - b->k[1]->val, w));
        return mkBin(OAdd, mkBin(OSub, a->k[0], b), a->k[1]);
      }
    }
    if (b->op == OAdd && b->k[1]->isConst()) return mkBin(OAdd, mkBin(OSub, a, b->k[0]), mkConst(-b->k[1]->val, w));
    break;
  case OMul:
    if (b->isConst()) {
      if (b->val == 0) return b;
      if (b->val == 1) return a;
      if ((b->val & (b->val - 1)) == 0) { unsigned s = 0; while (!((b->val >> s) & 1)) s++; return mkBin(OShl, a, mkConst(s, w)); }
      if (a->op == OMul && a->k[1]->isConst()) return mkBin(OMul, a->k[0], mkConst(a->k[1]->val * b->val, w));
    } else if (a->id > b->id) std::swap(a, b);
    break;
  case OUDiv:
    if (b->isConst() && b->val) {
      if (b->val == 1) return a;
      if ((b->val & (b->val - 1)) == 0) { unsigned s = 0; while (!((b->val >> s) & 1)) s++; return mkBin(OLShr, a, mkConst(s, w)); }
      if (umax(a) < b->val) return mkConst(0, w);
      if (a->op == OMul && a->k[1]->isConst() && w <= 64 && umax(a->k[0]) * a->k[1]->val <= maskw(w) && umax(a->k[0]) <= maskw(64) && a->k[1]->val % b->val == 0)
        return mkBin(OMul, a->k[0], mkConst(a->k[1]->val / b->val, w));
    }
    break;
  case OURem:
    if (b->isConst() && b->val) {
      if (b->val == 1) return mkConst(0, w);
      if ((b->val & (b->val - 1)) == 0) return bitwise(OAnd, a, mkConst(b->val - 1, w));
      if (umax(a) < b->val) return a;
    }
    break;
  case OSDiv: case OSRem:
    if (b->isConst() && b->val == 1) return op == OSDiv ? a : mkConst(0, w);
    if (op == OSDiv && b->isConst() && a->op == OMul && a->k[1]->isConst() && a->k[0]->op == OSExt) {
      s128 c = sext(a->k[1]->val, w), d = sext(b->val, w); unsigned cb = 0; for (u128 t = c < 0 ? -c : c; t; t >>= 1) cb++;
      if (d > 0 && c % d == 0 && a->k[0]->k[0]->w + cb < w) return mkBin(OMul, a->k[0], mkConst((u128)(c / d), w));
    }
    if (((a->kz & b->kz) >> (w - 1)) & 1) return mkBin(op == OSDiv ? OUDiv : OURem, a, b);
    break;
  case OShl:
    if (b->isConst()) {
      if (b->val == 0) return a;
      if (b->val >= w) return mkConst(0, w);
      unsigned s = (unsigned)b->val;
      return mkConcat(mkExtract(a, 0, w - s), mkConst(0, s));
    }
    if (a->isFalse()) return a;
    break;
  case OLShr:
    if (b->isConst()) {
      if (b->val == 0) return a;
      if (b->val >= w) return mkConst(0, w);
      unsigned s = (unsigned)b->val;
      return mkZExt(mkExtract(a, s, w - s), w);
    }
    if (a->isFalse()) return a;
    break;
  case OAShr:
    if (b->isConst()) {
      if (b->val == 0) return a;
      unsigned s = b->val >= w ? w - 1 : (unsigned)b->val;
      return mkSExt(mkExtract(a, s, w - s), w);
    }
    break;
  default: break;
  }
  return intern(op, w, 0, a, b);
}

static bool isConcatLike(E e) { return e->op == OConcat; }

static E bitwiseU(Op op, E a, E b);
static std::unordered_map<uint64_t, E> bwMemo;
static E bitwise(Op op, E a, E b) {
  if (a->nk == 0 && b->nk == 0) return bitwiseU(op, a, b);
  uint64_t key = ((uint64_t)op << 58) ^ ((uint64_t)a->id << 29) ^ b->id;
  auto it = bwMemo.find(key);
  if (it != bwMemo.end()) return it->second;
  E r = bitwiseU(op, a, b);
  bwMemo[key] = r;
  return r;
}
static E bitwiseU(Op op, E a, E b) {
  unsigned w = a->w;
  if (a->isConst() && b->isConst()) return mkConst(evalOp(op, w, w, 0, a->val, b->val, 0), w);
  if (a->isConst() || (!b->isConst() && a->id > b->id)) std::swap(a, b);
  u128 m = maskw(w);
  if (a == b) return op == OXor ? mkConst(0, w) : a;
  if (b->isConst()) {
    if (b->val == 0) return op == OAnd ? b : a;
    if (b->val == m) return op == OAnd ? a : op == OOr ? b : mkNot(a);
    if (op == OAnd && ((~b->val & m) & ~a->kz) == 0) return a;   // clears only known zeros
    if (isIteC(a)) return mapLeaves(a, [&](E x) { return bitwise(op, x, b); });
    if (a->op == op && a->k[1]->isConst()) return bitwise(op, a->k[0], mkConst(evalOp(op, w, w, 0, a->k[1]->val, b->val, 0), w));
    if (op == OAnd) {
      // contiguous mask -> concat of pieces
      u128 x = b->val; unsigned lo = 0; while (!((x >> lo) & 1)) lo++;
      unsigned hi = lo; while (hi < w && ((x >> hi) & 1)) hi++;
      if (hi == w || (x >> hi) == 0) {
        E r = mkExtract(a, lo, hi - lo);
        if (lo) r = mkConcat(r, mkConst(0, lo));
        return mkZExt(r, w);
      }
    }
    if (isConcatLike(a)) {
      unsigned lw = a->k[1]->w;
      return mkConcat(bitwise(op, a->k[0], mkExtract(b, lw, w - lw)), bitwise(op, a->k[1], mkExtract(b, 0, lw)));
    }
  } else {
    if (complement(a, b)) return op == OAnd ? mkConst(0, w) : mkConst(m, w);
    if (isConcatLike(a) && isConcatLike(b)) {
      // split at the lower boundary of either when it makes pieces vanish or align
      unsigned lw = std::min(a->k[1]->w, b->k[1]->w);
      return mkConcat(bitwise(op, mkExtract(a, lw, w - lw), mkExtract(b, lw, w - lw)), bitwise(op, mkExtract(a, 0, lw), mkExtract(b, 0, lw)));
    }
    E cc = isConcatLike(a) ? a : isConcatLike(b) ? b : nullptr;
    if (cc && cc->k[0]->isConst() && (op != OXor || cc->k[0]->val == 0) ) {
      E o = cc == a ? b : a;
      unsigned lw = cc->k[1]->w;
      return mkConcat(bitwise(op, cc->k[0], mkExtract(o, lw, w - lw)), bitwise(op, cc->k[1], mkExtract(o, 0, lw)));
    }
    if (op == OXor) {
      if (a->op == OXor) { if (a->k[0] == b) return a->k[1]; if (a->k[1] == b) return a->k[0]; }
      if (b->op == OXor) { if (b->k[0] == a) return b->k[1]; if (b->k[1] == a) return b->k[0]; }
      if (a->op == ONot && b->op == ONot) return bitwise(OXor, a->k[0], b->k[0]);
      if (a->op == ONot) return mkNot(bitwise(OXor, a->k[0], b));
      if (b->op == ONot) return mkNot(bitwise(OXor, a, b->k[0]));
    } else if (w == 1 || true) {
      Op dual = op == OAnd ? OOr : OAnd;
      for (int s = 0; s < 2; s++) {
        E x = s ? b : a, y = s ? a : b;
        if (y->op == op) {  // x op (x op z)
          if (y->k[0] == x || y->k[1] == x) return y;
          if (complement(x, y->k[0]) || complement(x, y->k[1])) return op == OAnd ? mkConst(0, w) : mkConst(m, w);
        }
        if (y->op == dual) {
          if (y->k[0] == x || y->k[1] == x) return x;               // absorption
          if (complement(x, y->k[0])) return bitwise(op, x, y->k[1]);
          if (complement(x, y->k[1])) return bitwise(op, x, y->k[0]);
        }
      }
      if (a->op == dual && b->op == dual) {
        for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++)
          if (a->k[i] == b->k[j]) {
            E r = bitwise(op, a->k[1 - i], b->k[1 - j]);
            if (r->isConst() || r == a->k[1 - i] || r == b->k[1 - j]) return bitwise(dual, a->k[i], r);
          }
      }
    }
  }
  return intern(op, w, 0, a, b);
}

// linear form of a sum modulo 2^w (at most 32 terms, otherwise the expression itself is the only term)
struct Lin { std::vector<std::pair<E, u128>> t; u128 c = 0; };
static const Lin &linOf(E e) {
  static std::unordered_map<E, Lin> memo;
  auto it = memo.find(e); if (it != memo.end()) return it->second;
  u128 m = maskw(e->w); Lin r; bool ok = true; E x = nullptr; u128 f = 1;
  if (e->isConst()) r.c = e->val;
  else if (e->op == OAdd || e->op == OSub) {
    Lin a = linOf(e->k[0]), b = linOf(e->k[1]); u128 s = e->op == OSub ? m : 1; r.c = (a.c + b.c * s) & m; size_t i = 0, j = 0;
    while (i < a.t.size() || j < b.t.size()) {
      if (j == b.t.size() || (i < a.t.size() && a.t[i].first->id < b.t[j].first->id)) r.t.push_back(a.t[i++]);
      else if (i == a.t.size() || b.t[j].first->id < a.t[i].first->id) { r.t.push_back({b.t[j].first, (b.t[j].second * s) & m}); j++; }
      else { u128 c = (a.t[i].second + b.t[j].second * s) & m; if (c) r.t.push_back({a.t[i].first, c}); i++; j++; }
    }
    ok = r.t.size() <= 32;
  } else if (e->op == OMul && e->k[1]->isConst()) { x = e->k[0]; f = e->k[1]->val; }
  else if (e->op == OShl && e->k[1]->isConst() && e->k[1]->val < e->w) { x = e->k[0]; f = (u128)1 << (unsigned)e->k[1]->val; }
  else if (e->op == OConcat && e->k[1]->isConst() && e->k[1]->val == 0 && e->k[0]->w >= 8) {   // x * 2^k, from the form of x modulo 2^(w-k)
    Lin a = linOf(e->k[0]); unsigned k = e->k[1]->w, w = e->w; std::map<unsigned, std::pair<E, u128>> t;
    for (auto &q : a.t) {
      E y = q.first; if (y->op == OSExt) y = mkSExt(y->k[0], w); else if (y->op == OExtract && y->val == 0 && y->k[0]->w == w) y = y->k[0]; else y = mkZExt(y, w);
      auto &z = t[y->id]; z.first = y; z.second = (z.second + (q.second << k)) & m;
    }
    r.c = (a.c << k) & m; for (auto &q : t) if (q.second.second) r.t.push_back(q.second);
  }
  else ok = false;
  if (x) { const Lin &a = linOf(x); r.c = (a.c * f) & m; for (auto &q : a.t) { u128 c = (q.second * f) & m; if (c) r.t.push_back({q.first, c}); } }
  if (!ok) { r.t = {{e, 1}}; r.c = 0; }
  return memo[e] = r;
}
static bool sumOp(E e) { return e->op == OAdd || e->op == OSub || e->op == OMul || e->op == OShl || e->op == OConcat; }
static E cmpBin(Op op, E a, E b) {
  unsigned w = a->w;
  if (a->isConst() && b->isConst()) return mkBool(evalOp(op, 1, w, 0, a->val, b->val, 0) != 0);
  if (isIteC(a) && b->isConst()) return mapLeaves(a, [&](E x) { return cmpBin(op, x, b); });
  if (isIteC(b) && a->isConst()) return mapLeaves(b, [&](E x) { return cmpBin(op, a, x); });
  u128 m = maskw(w);
  switch (op) {
  case OFEq: case OFUno:
    if (a->id > b->id) std::swap(a, b);
    if (op == OFUno) {
      if (a->op == OSIToFP || a->op == OUIToFP || (a->isConst() && !evalOp(OFUno, 1, w, 0, a->val, a->val, 0))) a = b;
      if (b->op == OSIToFP || b->op == OUIToFP || (b->isConst() && !evalOp(OFUno, 1, w, 0, b->val, b->val, 0))) b = a;
      if (a == b && (a->op == OSIToFP || a->op == OUIToFP)) return mkBool(false);
      if (a == b && a->isConst()) return mkBool(evalOp(OFUno, 1, w, 0, a->val, a->val, 0));
    }
    return intern(op, 1, 0, a, b);
  case OFLt: if (a == b) return mkBool(false); return intern(op, 1, 0, a, b);
  case OFLe: return intern(op, 1, 0, a, b);
  default: break;
  }
  switch (op) {
  case OEq: {
    if (a == b) return mkBool(true);
    if (w >= 32 && (sumOp(a) || sumOp(b)) && (sumOp(a) || a->isConst()) && (sumOp(b) || b->isConst())) {
      const Lin &x = linOf(a), &y = linOf(b);
      if (x.t.size() == y.t.size() && x.t == y.t) return mkBool(x.c == y.c);
    }
    if (a->isConst() || (!b->isConst() && a->id > b->id)) std::swap(a, b);
    if (b->isConst()) {
      if (w == 1) return b->val ? a : mkNot(a);
      if (b->val & a->kz) return mkBool(false);
      if (a->op == OConcat) {
        unsigned lw = a->k[1]->w;
        return mkAnd(cmpBin(OEq, a->k[0], mkExtract(b, lw, w - lw)), cmpBin(OEq, a->k[1], mkExtract(b, 0, lw)));
      }
      if (a->op == OAdd && a->k[1]->isConst()) return cmpBin(OEq, a->k[0], mkConst(b->val - a->k[1]->val, w));
      if (a->op == OSub && b->val == 0) return cmpBin(OEq, a->k[0], a->k[1]);
      if (a->op == OXor && a->k[1]->isConst()) return cmpBin(OEq, a->k[0], mkConst(b->val ^ a->k[1]->val, w));
      if (a->op == OXor && b->val == 0) return cmpBin(OEq, a->k[0], a->k[1]);
      if (a->op == ONot) return cmpBin(OEq, a->k[0], mkNot(b));
      if (a->op == OSExt) {
        unsigned sw = a->k[0]->w; u128 lowv = b->val & maskw(sw);
        if (((u128)sext(lowv, sw) & m) != b->val) return mkBool(false);
        return cmpBin(OEq, a->k[0], mkConst(lowv, sw));
      }
      if (a->op == OIte) {
        if (a->k[1]->isConst()) {
          if (a->k[1]->val == b->val) return mkOr(a->k[0], cmpBin(OEq, a->k[2], b));
          return mkAnd(mkNot(a->k[0]), cmpBin(OEq, a->k[2], b));
        }
        if (a->k[2]->isConst()) {
          if (a->k[2]->val == b->val) return mkOr(mkNot(a->k[0]), cmpBin(OEq, a->k[1], b));
          return mkAnd(a->k[0], cmpBin(OEq, a->k[1], b));
        }
      }
    } else {
      if (complement(a, b)) return mkBool(false);
      if (w == 1) return mkNot(bitwise(OXor, a, b));
      if (a->op == OConcat && b->op == OConcat && a->k[1]->w == b->k[1]->w)
        return mkAnd(cmpBin(OEq, a->k[0], b->k[0]), cmpBin(OEq, a->k[1], b->k[1]));
      if (a->op == OConcat && b->op == OConcat && a->k[0]->isConst() && b->k[0]->isConst()) {
        unsigned lw = std::min(a->k[1]->w, b->k[1]->w);
        return mkAnd(cmpBin(OEq, mkExtract(a, lw, w - lw), mkExtract(b, lw, w - lw)), cmpBin(OEq, mkExtract(a, 0, lw), mkExtract(b, 0, lw)));
      }
      if (a->op == OSExt && b->op == OSExt && a->k[0]->w == b->k[0]->w) return cmpBin(OEq, a->k[0], b->k[0]);
      if (a->op == OAdd && b->op == OAdd && a->k[1] == b->k[1]) return cmpBin(OEq, a->k[0], b->k[0]);
      if (a->op == OIte && (a->k[1] == b || a->k[2] == b)) {
        if (a->k[1] == b) return mkOr(a->k[0], cmpBin(OEq, a->k[2], b));
        return mkOr(mkNot(a->k[0]), cmpBin(OEq, a->k[1], b));
      }
      if (b->op == OIte && b->k[1] == a) return mkOr(b->k[0], cmpBin(OEq, b->k[2], a));
      if (b->op == OIte && b->k[2] == a) return mkOr(mkNot(b->k[0]), cmpBin(OEq, b->k[1], a));
      if (a->op == OIte && b->op == OIte && a->k[0] == b->k[0])
        return mkIte(a->k[0], cmpBin(OEq, a->k[1], b->k[1]), cmpBin(OEq, a->k[2], b->k[2]));
    }
    return intern(OEq, 1, 0, a, b);
  }
  case OUlt: case OUle: {
    if (a == b) return mkBool(op == OUle);
    if (op == OUle && b->isConst() && b->val < m) return cmpBin(OUlt, a, mkConst(b->val + 1, w));
    if (op == OUle && a->isConst() && a->val > 0) return cmpBin(OUlt, mkConst(a->val - 1, w), b);
    if (op == OUle && b->isConst()) return mkBool(true);           // b == max
    if (op == OUle && a->isFalse()) return mkBool(true);
    if (op == OUlt && b->isFalse()) return mkBool(false);
    if (op == OUlt && b->isConst() && b->val == 1) return cmpBin(OEq, a, mkConst(0, w));
    if (op == OUlt && a->isFalse()) return mkNot(cmpBin(OEq, b, a));
    if (b->isConst() && umax(a) < b->val) return mkBool(true);
    if (a->isConst() && umax(b) <= a->val && op == OUlt) return mkBool(false);
    if (w == 1) return op == OUlt ? mkAnd(mkNot(a), b) : mkOr(mkNot(a), b);
    // narrow common known-zero high bits
    u128 nz = (~(a->kz & b->kz)) & m; unsigned nb = 0; while (nb < w && (nz >> nb)) nb++;
    if (nb == 0) nb = 1;
    if (nb < w) return cmpBin(op, mkExtract(a, 0, nb), mkExtract(b, 0, nb));
    return intern(op, 1, 0, a, b);
  }
  case OSlt: case OSle: {
    if (a == b) return mkBool(op == OSle);
    bool pa = (a->kz >> (w - 1)) & 1, pb = (b->kz >> (w - 1)) & 1;
    if (pa && pb) return cmpBin(op == OSlt ? OUlt : OUle, a, b);
    bool na = a->isConst() && !pa, nb = b->isConst() && !pb;
    if (na && pb) return mkBool(true);
    if (pa && nb) return mkBool(false);
    if (op == OSle && b->isConst()) {
      if (b->val == (m >> 1)) return mkBool(true);
      return cmpBin(OSlt, a, mkConst(b->val + 1, w));
    }
    if (op == OSle && a->isConst()) {
      if (a->val == ((m >> 1) + 1)) return mkBool(true);
      return cmpBin(OSlt, mkConst(a->val - 1, w), b);
    }
    if (op == OSlt && b->isFalse()) return mkExtract(a, w - 1, 1);
    if (op == OSlt && a->isConst() && a->val == m) return mkNot(mkExtract(b, w - 1, 1));   // -1 < b
    unsigned sa = a->op == OSExt ? a->k[0]->w : 0, sb = b->op == OSExt ? b->k[0]->w : 0;
    // zero-extended values count as sign-extended from one more bit
    auto zw = [&](E x) -> unsigned { u128 nz = ~x->kz & m; unsigned n = 0; while (n < w && (nz >> n)) n++; return n + 1; };
    if (!sa && pa) sa = zw(a);
    if (!sb && pb) sb = zw(b);
    if (!sa && a->isConst()) { for (sa = 1; sa < w && ((u128)sext(a->val, sa) & m) != a->val; sa++) {} }
    if (!sb && b->isConst()) { for (sb = 1; sb < w && ((u128)sext(b->val, sb) & m) != b->val; sb++) {} }
    if (sa && sb) { unsigned s = std::max(sa, sb); if (s < w) return cmpBin(op, mkExtract(a, 0, s), mkExtract(b, 0, s)); }
    return intern(op, 1, 0, a, b);
  }
  default: break;
  }
  return intern(op, 1, 0, a, b);
}

E mkIte(E c, E a, E b) {
  if (c->isConst()) return c->val ? a : b;
  if (a == b) return a;
  if (a->w != b->w) { fprintf(stderr, "symx: ite width\n"); abort(); }
  if (c->op == ONot) return mkIte(c->k[0], b, a);
  if (a->w == 1) {
    if (a->isConst()) return a->val ? mkOr(c, b) : mkAnd(mkNot(c), b);
    if (b->isConst()) return b->val ? mkOr(mkNot(c), a) : mkAnd(c, a);
    if (a == c) return mkOr(c, b);
    if (b == c) return mkAnd(c, a);
  }
  if (a->w >= 16 && a->w <= 64 && (a->isConst() || isIteC(a)) && (b->isConst() || isIteC(b))) {   // one bit of a packed word set or cleared
    E x = a, y = b; while (x->op == OIte) x = x->k[1]; while (y->op == OIte) y = y->k[1];
    u128 d = x->val ^ y->val;
    if (d && !(d & (d - 1)) && (d >= 16 || (a->w & (a->w - 1)))) {
      unsigned k = 0; while (!(d >> k & 1)) k++;
      E lo = k ? mkExtract(a, 0, k) : nullptr, hi = k + 1 < a->w ? mkExtract(a, k + 1, a->w - 1 - k) : nullptr;
      if (mkExtract(a, k, 1)->isConst() && mkExtract(b, k, 1)->isConst() && (!k || lo == mkExtract(b, 0, k)) && (!hi || hi == mkExtract(b, k + 1, a->w - 1 - k))) {
        E r = mkIte(c, mkExtract(a, k, 1), mkExtract(b, k, 1)); if (k) r = mkConcat(r, lo);
        return hi ? mkConcat(hi, r) : r;
      }
    }
  }
  if (a->op == OIte) {
    if (a->k[0] == c) return mkIte(c, a->k[1], b);
    if (complement(a->k[0], c)) return mkIte(c, a->k[2], b);
    if (a->k[2] == b) return mkIte(mkAnd(c, a->k[0]), a->k[1], b);
    if (a->k[1] == b) return mkIte(mkAnd(c, mkNot(a->k[0])), a->k[2], b);
  }
  if (b->op == OIte) {
    if (b->k[0] == c) return mkIte(c, a, b->k[2]);
    if (complement(b->k[0], c)) return mkIte(c, a, b->k[1]);
    if (b->k[1] == a) return mkIte(mkOr(c, b->k[0]), a, b->k[2]);
    if (b->k[2] == a) return mkIte(mkOr(c, mkNot(b->k[0])), a, b->k[1]);
  }
  if (a->op == OConcat && b->op == OConcat && a->k[1]->w == b->k[1]->w && (a->k[0] == b->k[0] || a->k[1] == b->k[1]))
    return mkConcat(mkIte(c, a->k[0], b->k[0]), mkIte(c, a->k[1], b->k[1]));
  {  // common constant upper part (zero extension)
    E cc = a->op == OConcat ? a : b->op == OConcat ? b : nullptr;
    if (cc && cc->k[0]->isConst()) {
      E o = cc == a ? b : a; unsigned lw = cc->k[1]->w;
      E oh = mkExtract(o, lw, a->w - lw);
      if (oh == cc->k[0]) { E ol = mkExtract(o, 0, lw); return mkConcat(oh, cc == a ? mkIte(c, cc->k[1], ol) : mkIte(c, ol, cc->k[1])); }
    }
  }
  return intern(OIte, a->w, 0, c, a, b);
}

static E mkExtractU(E a, unsigned lo, unsigned w);
// signed range of a sum or difference whose parts cannot wrap
static bool srange(E e, __int128 &lo, __int128 &hi, int depth = 6) {
  if (e->w > 64) return false;
  __int128 mn = -((__int128)1 << (e->w - 1)), mx = -mn - 1;
  if (e->op == OConst) { lo = hi = (__int128)sext(e->val, e->w); return true; }
  if (depth && (e->op == OAdd || e->op == OSub)) {
    __int128 a, b, c, d; if (!srange(e->k[0], a, b, depth - 1) || !srange(e->k[1], c, d, depth - 1)) return false;
    if (e->op == OAdd) lo = a + c, hi = b + d; else lo = a - d, hi = b - c;
    return lo >= mn && hi <= mx;
  }
  u128 m = umax(e); if (m > (u128)mx) return false; lo = 0; hi = (__int128)m; return true;
}
E mkExtract(E a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->w) return a;
  if (a->op == OConst || a->op == OVar || a->op == OExtract) return mkExtractU(a, lo, w);
  static std::unordered_map<uint64_t, E> memo;
  uint64_t key = ((uint64_t)a->id << 16) | (lo << 8) | w;
  if (lo > 255 || w > 255) return mkExtractU(a, lo, w);
  auto it = memo.find(key);
  if (it != memo.end()) return it->second;
  E r = mkExtractU(a, lo, w);
  memo[key] = r;
  return r;
}
static E mkExtractU(E a, unsigned lo, unsigned w) {
  if (lo + w > a->w) { fprintf(stderr, "symx: bad extract\n"); abort(); }
  if (((a->kz >> lo) & maskw(w)) == maskw(w)) return mkConst(0, w);
  switch (a->op) {
  case OConst: return mkConst(a->val >> lo, w);
  case OExtract: return mkExtract(a->k[0], lo + (unsigned)a->val, w);
  case OConcat: {
    unsigned lw = a->k[1]->w;
    if (lo >= lw) return mkExtract(a->k[0], lo - lw, w);
    if (lo + w <= lw) return mkExtract(a->k[1], lo, w);
    return mkConcat(mkExtract(a->k[0], 0, lo + w - lw), mkExtract(a->k[1], lo, lw - lo));
  }
  case OSExt: {
    unsigned sw = a->k[0]->w;
    if (lo + w <= sw) return mkExtract(a->k[0], lo, w);
    if (lo >= sw) return mkSExt(mkExtract(a->k[0], sw - 1, 1), w);
    return mkSExt(mkExtract(a->k[0], lo, sw - lo), w);
  }
  case OIte:
    if (a->k[1]->op == OConst || a->k[2]->op == OConst || a->k[1]->op == OConcat || a->k[2]->op == OConcat || w == 1)
      return mkIte(a->k[0], mkExtract(a->k[1], lo, w), mkExtract(a->k[2], lo, w));
    break;
  case OAnd: case OOr: case OXor:
    return bitwise(a->op, mkExtract(a->k[0], lo, w), mkExtract(a->k[1], lo, w));
  case ONot: return mkNot(mkExtract(a->k[0], lo, w));
  case OAdd: case OSub: case OMul:
    if (w == 1 && lo == a->w - 1 && lo && a->op != OMul) { __int128 l, h; if (srange(a, l, h)) { if (l >= 0) return mkConst(0, 1); if (h < 0) return mkConst(1, 1); } }
    if (lo == 0) return mkBin(a->op, mkExtract(a->k[0], 0, w), mkExtract(a->k[1], 0, w));
    if (lo + w < a->w && a->op != OMul) return mkExtract(mkExtract(a, 0, lo + w), lo, w);
    break;
  case OUDiv: case OURem:
    if (lo == 0) { // narrow when both operands fit
      u128 nz = (~(a->k[0]->kz & a->k[1]->kz)) & maskw(a->w);
      if ((nz >> w) == 0) return mkBin(a->op, mkExtract(a->k[0], 0, w), mkExtract(a->k[1], 0, w));
    }
    break;
  default: break;
  }
  return intern(OExtract, w, lo, a);
}

static bool adjacent(E hi, E lo) {   // hi and lo are neighbouring extracts of the same expression
  E hb = hi->op == OExtract ? hi->k[0] : hi, lb = lo->op == OExtract ? lo->k[0] : lo;
  unsigned hl = hi->op == OExtract ? (unsigned)hi->val : 0, ll = lo->op == OExtract ? (unsigned)lo->val : 0;
  return hb == lb && hl == ll + lo->w && (hi->op == OExtract);
}
static E joinAdj(E hi, E lo) {
  E lb = lo->op == OExtract ? lo->k[0] : lo; unsigned ll = lo->op == OExtract ? (unsigned)lo->val : 0;
  return mkExtract(lb, ll, hi->w + lo->w);
}

static E mkConcatU(E hi, E lo);
static std::unordered_map<uint64_t, E> binMemo;
static inline uint64_t binKey(Op op, E a, E b) { return ((uint64_t)op << 58) ^ ((uint64_t)a->id << 29) ^ b->id; }
E mkConcat(E hi, E lo) {
  if (hi->nk == 0 || lo->nk == 0) return mkConcatU(hi, lo);
  uint64_t key = binKey(OConcat, hi, lo);
  auto it = binMemo.find(key);
  if (it != binMemo.end()) return it->second;
  E r = mkConcatU(hi, lo);
  binMemo[key] = r;
  return r;
}
static E mkConcatU(E hi, E lo) {
  unsigned w = hi->w + lo->w;
  if (hi->isConst() && lo->isConst()) return mkConst((hi->val << lo->w) | lo->val, w);
  if (adjacent(hi, lo)) return joinAdj(hi, lo);
  if (hi->op == OConcat) return mkConcat(hi->k[0], mkConcat(hi->k[1], lo));
  if (lo->op == OConcat) {
    if (adjacent(hi, lo->k[0])) return mkConcat(joinAdj(hi, lo->k[0]), lo->k[1]);
    if (hi->isConst() && lo->k[0]->isConst()) return mkConcat(mkConcat(hi, lo->k[0]), lo->k[1]);
  }
  if (hi->op == OIte && lo->op == OIte && hi->k[0] == lo->k[0])
    return mkIte(hi->k[0], mkConcat(hi->k[1], lo->k[1]), mkConcat(hi->k[2], lo->k[2]));
  if ((hi->op == OXor || hi->op == OAnd || hi->op == OOr) && lo->op == hi->op) {
    for (int s = 0; s < 2; s++) {
      E h0 = hi->k[s], h1 = hi->k[1 - s];
      bool ok0 = adjacent(h0, lo->k[0]) || (h0->isConst() && lo->k[0]->isConst());
      bool ok1 = adjacent(h1, lo->k[1]) || (h1->isConst() && lo->k[1]->isConst());
      if (ok0 && ok1) return bitwise(hi->op, mkConcat(h0, lo->k[0]), mkConcat(h1, lo->k[1]));
    }
  }
  if (hi->op == ONot && lo->op == ONot && adjacent(hi->k[0], lo->k[0])) return mkNot(joinAdj(hi->k[0], lo->k[0]));
  return intern(OConcat, w, 0, hi, lo);
}
E mkZExt(E a, unsigned w) {
  if (a->w == w) return a;
  return mkConcat(mkConst(0, w - a->w), a);
}
E mkZExtOrTrunc(E a, unsigned w) { return w >= a->w ? mkZExt(a, w) : mkExtract(a, 0, w); }
E mkSExt(E a, unsigned w) {
  if (a->w == w) return a;
  if (a->isConst()) return mkConst((u128)sext(a->val, a->w), w);
  if ((a->kz >> (a->w - 1)) & 1) return mkZExt(a, w);
  if (a->op == OSExt) return mkSExt(a->k[0], w);
  if (isIteC(a)) return mapLeaves(a, [&](E x) { return mkSExt(x, w); });
  return intern(OSExt, w, 0, a);
}
E mkFRnd(unsigned kind, E a) {
  if (a->isConst()) return mkConst(evalOp(OFRnd, a->w, a->w, kind, a->val, 0, 0), a->w);
  if (a->op == OSIToFP || a->op == OUIToFP || a->op == OFRnd) return a;
  return intern(OFRnd, a->w, kind, a);
}
E mkFSqrt(E a) {
  if (a->isConst()) return mkConst(evalOp(OFSqrt, a->w, a->w, 0, a->val, 0, 0), a->w);
  return intern(OFSqrt, a->w, 0, a);
}
static unsigned mant(unsigned w) { return w == 32 ? 24 : w == 64 ? 53 : 64; }
static unsigned sigBits(E a) { // significant bits of an integer expression treated as signed
  if (a->op == OSExt) return a->k[0]->w;
  u128 nz = ~a->kz & maskw(a->w); unsigned n = 0; while (n < a->w && (nz >> n)) n++;
  return n;
}
E mkFCvt(E a, unsigned w) {
  if (a->w == w) return a;
  if (a->isConst()) return mkConst(evalOp(OFCvt, w, a->w, 0, a->val, 0, 0), w);
  if ((a->op == OSIToFP || a->op == OUIToFP) && sigBits(a->k[0]) <= mant(a->w)) return intern(a->op, w, 0, a->k[0]);
  if (a->op == OFCvt && mant(a->w) >= mant(a->k[0]->w)) return mkFCvt(a->k[0], w);
  if (isIteC(a)) return mapLeaves(a, [&](E x) { return mkFCvt(x, w); });
  return intern(OFCvt, w, 0, a);
}
E mkIToFP(bool sgn, E a, unsigned w) {
  Op op = sgn ? OSIToFP : OUIToFP;
  if (a->isConst()) return mkConst(evalOp(op, w, a->w, 0, a->val, 0, 0), w);
  if (isIteC(a)) return mapLeaves(a, [&](E x) { return mkIToFP(sgn, x, w); });
  if (sgn && ((a->kz >> (a->w - 1)) & 1)) op = OUIToFP, sgn = false;
  if (op == OUIToFP && a->w < 64) { a = mkZExt(a, 64); }
  if (op == OSIToFP && a->w < 64) a = mkSExt(a, 64);
  return intern(op, w, 0, a);
}
E mkFPToI(bool sgn, E a, unsigned w) {
  Op op = sgn ? OFPToSI : OFPToUI;
  if (a->isConst()) return mkConst(evalOp(op, w, a->w, 0, a->val, 0, 0), w);
  if (isIteC(a)) return mapLeaves(a, [&](E x) { return mkFPToI(sgn, x, w); });
  if (a->op == OFRnd && a->val == RTrunc) a = a->k[0];
  if ((a->op == OSIToFP || a->op == OUIToFP) && sigBits(a->k[0]) <= mant(a->w) && sigBits(a->k[0]) < (w <= 32 ? 32u : 64u)) {
    E s = a->k[0];
    if (w <= s->w) return mkExtract(s, 0, w);
    return a->op == OSIToFP ? mkSExt(s, w) : mkZExt(s, w);
  }
  return intern(op, w, 0, a);
}
E mkUF(unsigned id, unsigned w, E a, E b) {
  if (a->isConst() && (!b || b->isConst())) return mkConst(evalOp(OUF, w, w, id, a->val, b ? b->val : 0, 0), w);
  return intern(OUF, w, id, a, b);
}
E mkFNeg(E a) { return mkBin(OXor, a, mkConst((u128)1 << (a->w - 1), a->w)); }
E mkFAbs(E a) {
  E m = mkConst(maskw(a->w) >> 1, a->w);
  if (a->cleaves) return mkBin(OAnd, a, m);
  if (a->op == OAnd && a->k[1] == m) return a;
  return intern(OAnd, a->w, 0, a, m);
}

// ---------------------------------------------------------------- evaluation
static std::vector<u128> evVal; static std::vector<uint64_t> evEpoch;
static uint64_t modelUid = 1;
uint64_t newModelUid() { return modelUid++; }
static u128 evalRec(E e, const Model &m) {
  if (e->op == OConst) return e->val;
  if (e->op == OVar) return e->val < m.v.size() ? m.v[(size_t)e->val] : 0;
  if (evEpoch[e->id] == m.uid) return evVal[e->id];
  u128 r;
  if (e->op == OIte) r = evalRec(e->k[0], m) ? evalRec(e->k[1], m) : evalRec(e->k[2], m);
  else if (e->op == OConcat) r = (evalRec(e->k[0], m) << e->k[1]->w) | evalRec(e->k[1], m);
  else {
    u128 a = e->nk > 0 ? evalRec(e->k[0], m) : 0, b = e->nk > 1 ? evalRec(e->k[1], m) : 0;
    r = evalOp(e->op, e->w, e->k[0]->w, e->val, a, b, 0);
  }
  evEpoch[e->id] = m.uid; evVal[e->id] = r;
  return r;
}
u128 evalExpr(E e, const Model &m) {
  if (evEpoch.size() < nextId) { evEpoch.resize(nextId * 2 + 1024, 0); evVal.resize(nextId * 2 + 1024); }
  return evalRec(e, m);
}

static const char *opn[] = {"const","var","+","-","*","udiv","sdiv","urem","srem","shl","lshr","ashr","and","or","xor","not",
 "=","u<","u<=","s<","s<=","ite","extract","concat","sext","f+","f-","f*","f/","frem","fsqrt","frnd","f=","f<","f<=","funo",
 "fcvt","si2fp","ui2fp","fp2si","fp2ui","uf"};
std::string exprStr(E e, int d) {
  char buf[64];
  if (e->op == OConst) { snprintf(buf, sizeof buf, "%llu", (unsigned long long)e->val); return buf; }
  if (e->op == OVar) return gVars[(size_t)e->val].name;
  if (d <= 0) return "...";
  std::string s = std::string("(") + opn[e->op];
  if (e->op == OExtract) { snprintf(buf, sizeof buf, "[%u+%u]", (unsigned)e->val, e->w); s += buf; }
  if (e->op == OUF) s += ":" + gUFs[(size_t)e->val];
  for (unsigned i = 0; i < e->nk; i++) s += " " + exprStr(e->k[i], d - 1);
  return s + ")";
}
