// Hash-consed bit-vector expression DAG.  Floating-point values are carried as
// their IEEE bit patterns; the operation says how the bits are interpreted.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <unordered_map>
#include <memory>

typedef unsigned __int128 u128;
typedef __int128 s128;

enum Op : uint8_t {
  OConst, OVar,
  OAdd, OSub, OMul, OUDiv, OSDiv, OURem, OSRem, OShl, OLShr, OAShr,
  OAnd, OOr, OXor, ONot,
  OEq, OUlt, OUle, OSlt, OSle,
  OIte, OExtract, OConcat, OSExt,
  // floating point (width of the node / of operand 0 selects the format)
  OFAdd, OFSub, OFMul, OFDiv, OFRem, OFSqrt, OFRnd,   // val = rounding op (see FRnd*)
  OFEq, OFLt, OFLe, OFUno,
  OFCvt, OSIToFP, OUIToFP, OFPToSI, OFPToUI,
  OUF,                                                 // val = uf id
  OLAST
};
enum { RFloor = 0, RCeil = 1, RTrunc = 2, RRint = 3, RRound = 4 };

struct VarSet { std::vector<uint32_t> v; uint32_t id; };

struct Expr {
  Op op; uint8_t nk; uint8_t flags; uint16_t w;
  uint16_t cleaves;            // number of constant leaves if this is a constant/ite-of-constants, else 0
  uint32_t id, hash;
  u128 val;                    // constant value / extract low bit / var id / uf id / rounding kind
  u128 kz;                     // bits known to be zero
  const Expr *k[3];
  const VarSet *vs;
  bool isConst() const { return op == OConst; }
  bool isFalse() const { return op == OConst && val == 0; }
  bool isTrue() const { return op == OConst && w == 1 && val == 1; }
  bool hasFP() const { return flags & 1; }
  bool hasUF() const { return flags & 2; }
};
typedef const Expr *E;

inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline s128 sext(u128 v, unsigned w) {
  if (w >= 128) return (s128)v;
  u128 m = (u128)1 << (w - 1);
  v &= maskw(w);
  return (s128)((v ^ m) - m);
}

struct VarInfo { std::string name; unsigned w; };
extern std::vector<VarInfo> gVars;
extern std::vector<std::string> gUFs;      // "sin/1/64" style
unsigned ufId(const std::string &);
double ufNative(unsigned id, const double *a, unsigned n);

E mkConst(u128 v, unsigned w);
E mkVar(const std::string &name, unsigned w);
E mkBool(bool b);
E mkBin(Op op, E a, E b);
E mkNot(E a);
E mkIte(E c, E a, E b);
E mkExtract(E a, unsigned lo, unsigned w);
E mkConcat(E hi, E lo);
E mkZExt(E a, unsigned w);
E mkSExt(E a, unsigned w);
E mkZExtOrTrunc(E a, unsigned w);
E mkFRnd(unsigned kind, E a);
E mkFSqrt(E a);
E mkFCvt(E a, unsigned w);
E mkIToFP(bool sgn, E a, unsigned w);
E mkFPToI(bool sgn, E a, unsigned w);
E mkUF(unsigned id, unsigned w, E a, E b = nullptr);
E mkFNeg(E a);
E mkFAbs(E a);
inline E mkAnd(E a, E b) { return mkBin(OAnd, a, b); }
inline E mkOr(E a, E b) { return mkBin(OOr, a, b); }
inline E mkEq(E a, E b) { return mkBin(OEq, a, b); }

const VarSet *vsUnion(const VarSet *a, const VarSet *b);
bool vsIntersects(const VarSet *a, const VarSet *b);
extern const VarSet *vsEmpty;

struct Model { std::vector<u128> v; uint64_t uid; };
typedef std::shared_ptr<const Model> ModelP;
u128 evalExpr(E e, const Model &m);          // memoised per model uid
uint64_t newModelUid();
u128 evalOp(Op op, unsigned w, unsigned kw, u128 val, u128 a, u128 b, u128 c);
std::string exprStr(E e, int depth = 4);
uint64_t exprCount();

// floating helpers
double bitsToD(u128 b, unsigned w);          // f32/f64 only (f80 rounded)
long double bitsToLD(u128 b, unsigned w);
u128 ldToBits(long double d, unsigned w);
