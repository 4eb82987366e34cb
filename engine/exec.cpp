#include <cxxabi.h>
#include "exec.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/CFG.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/Support/raw_ostream.h>
#include <cmath>
#include <cstring>
#include <cstdio>
#include <fstream>
#include <sstream>
#include <chrono>
#include <algorithm>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <signal.h>
using namespace llvm;

static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

// ================================================================== memory
void Mem::drop(Node *n) {
  if (!n || --n->rc > 0) return;
  if (n->lvl == 0) { for (auto &p : n->k) if (p) { Content *c = (Content *)p; if (--c->rc == 0) delete c; } }
  else for (auto &p : n->k) drop((Node *)p);
  delete n;
}
static const int TOPLVL = 4;
static Node *newNode(int l) { Node *n = new Node(); n->rc = 1; n->lvl = l; memset(n->k, 0, sizeof n->k); return n; }
static Node *own(Node *&slot) {       // make slot exclusively owned
  if (slot->rc == 1) return slot;
  Node *n = newNode(slot->lvl);
  for (int i = 0; i < 32; i++) { n->k[i] = slot->k[i]; if (n->k[i]) { if (n->lvl == 0) ((Content *)n->k[i])->rc++; else ((Node *)n->k[i])->rc++; } }
  slot->rc--; slot = n;
  return n;
}
Content *Mem::get(uint32_t id) const {
  Node *n = root;
  for (int l = TOPLVL; n && l > 0; l--) n = (Node *)n->k[(id >> (5 * l)) & 31];
  return n ? (Content *)n->k[id & 31] : nullptr;
}
void Mem::set(uint32_t id, Content *c) {
  if (!root) root = newNode(TOPLVL);
  Node *n = own(root);
  for (int l = TOPLVL; l > 0; l--) {
    Node *&s = (Node *&)n->k[(id >> (5 * l)) & 31];
    if (!s) { if (!c) return; s = newNode(l - 1); }
    n = own(s);
  }
  Content *o = (Content *)n->k[id & 31];
  if (c) c->rc++;
  if (o && --o->rc == 0) delete o;
  n->k[id & 31] = c;
}
Content *Mem::getW(uint32_t id) {
  Node *n = own(root);
  for (int l = TOPLVL; l > 0; l--) { Node *&s = (Node *&)n->k[(id >> (5 * l)) & 31]; if (!s) return nullptr; n = own(s); }
  Content *c = (Content *)n->k[id & 31];
  if (c && c->rc > 1) { Content *d = new Content(*c); c->rc--; d->rc = 1; n->k[id & 31] = d; c = d; }
  return c;
}
static void diffRec(Node *a, Node *b, uint32_t pre, int lvl, std::vector<uint32_t> &ids) {
  if (a == b) return;
  for (int i = 0; i < 32; i++) {
    void *x = a ? a->k[i] : nullptr, *y = b ? b->k[i] : nullptr;
    if (x == y) continue;
    if (lvl == 0) ids.push_back(pre | i);
    else diffRec((Node *)x, (Node *)y, pre | ((uint32_t)i << (5 * lvl)), lvl - 1, ids);
  }
}
void Mem::diff(const Mem &a, const Mem &b, std::vector<uint32_t> &ids) { diffRec(a.root, b.root, 0, TOPLVL, ids); }

// ================================================================== executor
static const uint64_t ABASE = 1ull << 40;
static LLVMContext *ctx;
static std::unique_ptr<Module> mod;
static const DataLayout *DL;
static std::unordered_map<const Function *, Fn *> fnOf;
static std::unordered_map<uint64_t, Fn *> fnAt;
static std::unordered_map<const GlobalValue *, uint64_t> gaddr;
static std::unordered_map<uint64_t, std::string> extName;      // address -> external global name
static std::vector<ObjInfo> objs(1);
static std::vector<uint32_t> pageTab;                          // (addr-ABASE)>>4 -> obj id
static uint64_t nextAddr = ABASE + 0x1000;
static std::unordered_map<std::string, Builtin> builtins;
static uint64_t vt_si, vt_class, vt_vmi, vt_ptr;

static std::vector<State *> work;
static uint32_t nextState = 0;
static uint64_t nInstr = 0, nForks = 0, nMerges = 0, nPaths = 0, nKilled = 0, nUnknown = 0, nMergeRefused = 0;
static bool timedOut = false, stopAll = false;
static std::vector<Violation> violations;
static std::set<std::string> violIds;
static std::map<std::string, uint64_t> reached, covers;
static std::map<std::string, std::string> inconcl;
static std::set<std::string> fnEncoded;
static std::map<std::string, long> opts;
static double deadline = 0; static double startT;
static std::mt19937_64 rng(1);
struct Trace { std::map<std::string, std::string> model; std::vector<std::pair<std::string, std::string>> obs; std::string end; };
static std::vector<Trace> traces; static uint64_t traceSeen = 0;
static long opt(const char *n, long d) { auto i = opts.find(n); return i == opts.end() ? d : i->second; }
static std::string dem(const std::string &s) { int st = 0; char *p = abi::__cxa_demangle(s.c_str(), nullptr, nullptr, &st); std::string r = p ? p : s; free(p); return r; }

static void unsupported(const std::string &what) { inconcl[what] = what; }

static uint32_t findObj(uint64_t a) {
  if (a < ABASE) return 0;
  uint64_t i = (a - ABASE) >> 4;
  return i < pageTab.size() ? pageTab[i] : 0;
}
static uint32_t newObj(uint64_t size, uint8_t kind, const std::string &name, uint64_t align = 16) {
  if (align > 16) nextAddr = (nextAddr + align - 1) & ~(align - 1);
  uint32_t id = objs.size(); if (id > 16000000) timedOut = true;     // the object table is full (ids have 25 bits): the rest is not explored
  objs.push_back(ObjInfo{nextAddr, size, kind, false, name, false});
  uint64_t span = ((size + 15) & ~15ull);
  if (!span) span = 16;
  uint64_t a = (nextAddr - ABASE) >> 4, b = (nextAddr + span - ABASE) >> 4;
  if (pageTab.size() < b + 2) pageTab.resize(std::max<size_t>(b + 2, pageTab.size() * 2));
  for (uint64_t i = a; i < b; i++) pageTab[i] = id;
  nextAddr += span + 16;
  return id;
}

// ------------------------------------------------------------------ values
static inline E toE(const Val &v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }
static unsigned tyW(Type *t) {
  if (t->isPointerTy()) return 64;
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isDoubleTy()) return 64;
  if (t->isFloatTy()) return 32;
  if (t->isX86_FP80Ty()) return 80;
  return 0;
}
static unsigned storeBytes(Type *t) { return (unsigned)DL->getTypeStoreSize(t).getFixedValue(); }

static Val iteV(E c, const Val &a, const Val &b, unsigned w) {
  if (a == b) return a;
  if (a.isAgg()) {
    Agg *r = new Agg();
    for (size_t i = 0; i < a.a()->v.size(); i++) {
      unsigned ww = 64;
      if (a.a()->v[i].issym()) ww = a.a()->v[i].e->w; else if (b.a()->v[i].issym()) ww = b.a()->v[i].e->w;
      r->v.push_back(iteV(c, a.a()->v[i], b.a()->v[i], ww));
    }
    return Val::agg(r);
  }
  return Val::sym(mkIte(c, toE(a, w), toE(b, w)));
}

// ------------------------------------------------------------------ raw memory access (concrete address)
static E bytesExpr(Content *c, uint64_t off, unsigned n) {
  // whole-value fast path
  SymB &s0 = c->s[off];
  if (s0.e && s0.idx == 0 && (s0.e->w + 7) / 8 >= n) {
    bool ok = true;
    for (unsigned i = 1; i < n && ok; i++) ok = c->s[off + i].e == s0.e && c->s[off + i].idx == i;
    if (ok) { if (s0.e->w == n * 8) return s0.e; if (s0.e->w > n * 8) return mkExtract(s0.e, 0, n * 8); return mkZExt(s0.e, n * 8); }
  }
  E r = nullptr;
  unsigned i = 0;
  while (i < n) {
    E piece; unsigned len = 1;
    SymB &s = c->s[off + i];
    if (!s.e) {
      while (i + len < n && len < 16 && !c->s[off + i + len].e) len++;
      u128 v = 0; memcpy(&v, c->b + off + i, len);
      piece = mkConst(v, len * 8);
    } else {
      while (i + len < n && c->s[off + i + len].e == s.e && c->s[off + i + len].idx == s.idx + len) len++;
      unsigned lo = s.idx * 8, w = len * 8;
      if (lo + w <= s.e->w) piece = mkExtract(s.e, lo, w);
      else piece = mkZExt(mkExtract(s.e, lo, s.e->w - lo), w);
    }
    r = r ? mkConcat(piece, r) : piece;
    i += len;
  }
  return r;
}
static Val rdObj(Content *c, uint64_t off, unsigned n, unsigned w) {
  if (!c->nsym || !c->s) {
    if (n <= 8) { uint64_t v = 0; memcpy(&v, c->b + off, n); if (w < 64) v &= (1ull << w) - 1; return Val(v); }
    u128 v = 0; memcpy(&v, c->b + off, n);
    return Val::sym(mkConst(v, w));
  }
  bool any = false;
  for (unsigned i = 0; i < n; i++) if (c->s[off + i].e) { any = true; break; }
  if (!any) {
    u128 v = 0; memcpy(&v, c->b + off, n);
    if (w <= 64) return Val((uint64_t)(v & maskw(w)));
    return Val::sym(mkConst(v, w));
  }
  E e = bytesExpr(c, off, n);
  if (e->w > w) e = mkExtract(e, 0, w);
  return Val::sym(e);
}
static void wrObj(Content *c, uint64_t off, const Val &v, unsigned n, unsigned w) {
  if (!v.e || (v.e->isConst())) {
    u128 x = v.e ? v.e->val : (u128)v.c;
    if (n <= 16) memcpy(c->b + off, &x, n);
    if (c->nsym && c->s) for (unsigned i = 0; i < n; i++) if (c->s[off + i].e) { c->s[off + i].e = nullptr; c->nsym--; }
    return;
  }
  if (!c->s) { c->s = (SymB *)calloc(c->size ? c->size : 1, sizeof(SymB)); c->nsym = 0; }
  for (unsigned i = 0; i < n; i++) {
    SymB &s = c->s[off + i];
    if (!s.e) c->nsym++;
    // collapse byte-sized extracts so that copies keep their provenance
    E e = v.e; unsigned idx = i;
    if (e->op == OExtract && (e->val & 7) == 0 && (e->w & 7) == 0) { idx += (unsigned)e->val / 8; e = e->k[0]; }
    if (i * 8 >= v.e->w) { s.e = nullptr; c->nsym--; c->b[off + i] = 0; continue; }
    s.e = e; s.idx = idx;
  }
}

// ------------------------------------------------------------------ reporting
static std::string hex128(u128 v) {
  char b[40]; if (v >> 64) snprintf(b, sizeof b, "0x%llx%016llx", (unsigned long long)(v >> 64), (unsigned long long)v); else snprintf(b, sizeof b, "0x%llx", (unsigned long long)v);
  return b;
}
static std::map<std::string, std::string> modelOut(State *s, const ModelP &m) {
  std::map<std::string, std::string> r;
  for (size_t i = 0; i < gVars.size(); i++) {
    u128 v = i < m->v.size() ? m->v[i] : 0;
    if (v || gVars[i].name.find('@') != std::string::npos) r[gVars[i].name] = hex128(v);
  }
  return r;
}
static std::vector<std::string> backtrace(State *s) {
  std::vector<std::string> r;
  for (int i = (int)s->st.size() - 1; i >= 0 && r.size() < 12; i--) r.push_back(dem(s->st[i]->fn->name));
  return r;
}
static void report(State *s, const std::string &id, const std::string &kind, const std::string &msg, const ModelP &m) {
  if (!violIds.insert(id).second) return;
  Violation v; v.id = id; v.kind = kind; v.msg = msg; v.stack = backtrace(s); v.model = modelOut(s, m);
  violations.push_back(v);
}
static void fault(State *s, const std::string &kind, const std::string &msg, const ModelP &m) {
  if (msg == "EXT" || msg == "copy: EXT") return;
  // identify by kind and innermost function of the code under test
  std::string where;
  for (int i = (int)s->st.size() - 1; i >= 0; i--) {
    std::string n = dem(s->st[i]->fn->name);
    if (n.find("gpstk") != std::string::npos && n.compare(0, 5, "std::") != 0) { where = n; break; }
  }
  if (where.empty() && !s->st.empty()) where = dem(s->st.back()->fn->name);
  size_t p = where.find('('); if (p != std::string::npos) where = where.substr(0, p);
  report(s, kind + "@" + where, kind, msg, m);
}

// ------------------------------------------------------------------ state bookkeeping
static void finalizeIfDone(GroupP g);
static void addPC(State *s, E c) {
  if (c->isConst()) return;
  if (c->op == OAnd && c->w == 1) { addPC(s, c->k[0]); addPC(s, c->k[1]); return; }
  if (!s->pcIds.insert(c->id).second) return;
  s->pc.push_back(c);
  if (c->op == OEq && c->k[1]->isConst() && c->k[0]->w <= 64) s->known[c->k[0]] = (uint64_t)c->k[1]->val;
  if (c->op == ONot && c->w == 1) s->known[c->k[0]] = 0; else s->known[c] = 1;
}
static void leaveGroups(State *s, size_t keep) {
  while (s->groups.size() > keep) {
    GroupP g = s->groups.back(); s->groups.pop_back();
    g->live--;
    finalizeIfDone(g);
  }
}
static void kill(State *s) {
  leaveGroups(s, 0);
  delete s;
}
static State *cloneState(State *s) {
  State *n = new State(*s);
  n->id = nextState++;
  for (auto &g : n->groups) g->live++;
  nForks++;
  return n;
}
static void ensureGroup(State *s) {
  if (!opt("merge", 1)) return;
  const Frame &f = *s->st.back();
  if (f.fn->noMerge) return;
  int j = f.fn->blks[f.blk].ipdom;
  if (j < 0) return;
  int d = (int)s->st.size();
  if (!s->groups.empty() && s->groups.back()->depth == d && s->groups.back()->blk == j && s->groups.back()->fn == f.fn) return;
  // already inside a group with the same join further out at the same depth: do not nest
  for (auto it = s->groups.rbegin(); it != s->groups.rend() && (*it)->depth == d; ++it) if ((*it)->blk == j) return;
  static int gid = 0;
  auto g = std::make_shared<Group>();
  g->depth = d; g->fn = f.fn; g->blk = j; g->live = 1; g->objMark = objs.size(); g->id = gid++;
  s->groups.push_back(g);
}

// Split s on cond.  Returns the state in which cond holds (s itself) or null; *other gets the state where it does not.
// Current model is used for whichever side it satisfies.
static int knownBool(State *s, E c) {
  if (c->isConst()) return (int)c->val;
  auto it = s->known.find(c);
  if (it != s->known.end()) return (int)it->second;
  if (c->op == ONot) { it = s->known.find(c->k[0]); if (it != s->known.end()) return !(int)it->second; }
  E n = mkNot(c);
  it = s->known.find(n);
  if (it != s->known.end()) return !(int)it->second;
  return -1;
}
struct Split { bool t = false, f = false; ModelP mt, mf; };
static Split feasible(State *s, E c) {
  Split r;
  int kb = knownBool(s, c);
  if (kb >= 0) { r.t = kb; r.f = !kb; r.mt = r.mf = s->model; return r; }
  bool cur = evalExpr(c, *s->model) != 0;
  if (cur) { r.t = true; r.mt = s->model; } else { r.f = true; r.mf = s->model; }
  ModelP m;
  Res q = mayBeTrue(s->pc, cur ? mkNot(c) : c, s->model, &m);
  if (q == SAT) { if (cur) { r.f = true; r.mf = m; } else { r.t = true; r.mt = m; } }
  else if (q == UNKNOWN) { nUnknown++; inconcl["solver: branch feasibility unknown in " + dem(s->st.back()->fn->name)] = "1"; addPC(s, cur ? c : mkNot(c)); }
  else { // implied: remember
    if (cur) s->known[c] = 1; else s->known[c] = 0;
  }
  return r;
}
// Fork s so that s continues under c; the other side is queued to re-execute the same instruction.
// Returns false if c infeasible (s now carries !c).
static bool forkAssume(State *s, E c) {
  Split sp = feasible(s, c);
  if (sp.t && sp.f) {
    ensureGroup(s);
    State *o = cloneState(s);
    addPC(o, mkNot(c)); o->model = sp.mf;
    addPC(s, c); s->model = sp.mt;
    work.push_back(o);
    return true;
  }
  if (sp.t) { s->model = sp.mt; return true; }
  return false;
}
static uint64_t concretize(State *s, const Val &v, unsigned w) {
  if (v.conc()) return v.c;
  auto it = s->known.find(v.e);
  if (it != s->known.end()) return it->second;
  uint64_t x = (uint64_t)evalExpr(v.e, *s->model);
  forkAssume(s, mkEq(v.e, mkConst(x, w)));
  s->known[v.e] = x;
  return x;
}

static Val getV(const Frame &f, const Opnd &o) { return o.reg >= 0 ? f.r[o.reg] : o.k; }

static void setR(State *s, int dst, Val v) {
  if (dst < 0) return;
  if (v.issym() && !s->known.empty()) { auto it = s->known.find(v.e); if (it != s->known.end()) v = Val(it->second); }
  s->top().r[dst] = v;
}

// ------------------------------------------------------------------ symbolic memory
static bool concAccess(State *s, uint64_t a, uint64_t n, bool wr, Content **c, uint64_t *off, std::string *err) {
  uint32_t id = findObj(a);
  char b[160];
  if (!id) { snprintf(b, sizeof b, "access to invalid address 0x%llx", (unsigned long long)a); *err = b; return false; }
  ObjInfo &o = objs[id];
  *off = a - o.addr;
  if (o.ext) { unsupported("undefined global " + o.name); *err = "EXT"; return false; }
  if (*off + n > o.size) { snprintf(b, sizeof b, "%s of %llu bytes at offset %llu of a %llu-byte object %s", wr ? "write" : "read", (unsigned long long)n, (unsigned long long)*off, (unsigned long long)o.size, o.name.c_str()); *err = b; return false; }
  if (wr && o.ro) { *err = "write to constant " + o.name; return false; }
  *c = wr ? s->mem.getW(id) : s->mem.get(id);
  if (!*c) { *err = "use of freed object " + o.name; return false; }
  return true;
}
struct Leaf { E guard; uint64_t addr; E a; uint32_t obj; };
// Resolve a symbolic address to guarded leaves.  false: the state was finished.
static bool resolve(State *s, E a, E guard, uint64_t n, std::vector<Leaf> &out, int depth = 0) {
  if (a->isConst()) { out.push_back({guard, (uint64_t)a->val, nullptr, 0}); return true; }
  auto kn = s->known.find(a);
  if (kn != s->known.end()) { out.push_back({guard, kn->second, nullptr, 0}); return true; }
  if (a->op == OIte && depth < 40) {
    int kb = knownBool(s, a->k[0]);
    if (kb == 1) return resolve(s, a->k[1], guard, n, out, depth + 1);
    if (kb == 0) return resolve(s, a->k[2], guard, n, out, depth + 1);
    return resolve(s, a->k[1], mkAnd(guard, a->k[0]), n, out, depth + 1) && resolve(s, a->k[2], mkAnd(guard, mkNot(a->k[0])), n, out, depth + 1);
  }
  if (a->op == OAdd && (a->k[0]->op == OIte || a->k[1]->op == OIte) && depth < 40) {
    E it = a->k[0]->op == OIte ? a->k[0] : a->k[1], o = it == a->k[0] ? a->k[1] : a->k[0];
    // push the addition only when the ite selects between pointers
    uint64_t v = (uint64_t)evalExpr(it, *s->model);
    if (v >= ABASE) return resolve(s, mkIte(it->k[0], mkBin(OAdd, it->k[1], o), mkBin(OAdd, it->k[2], o)), guard, n, out, depth + 1);
  }
  ModelP m = s->model;
  if (!guard->isConst() && !evalExpr(guard, *m)) {
    Res q = mayBeTrue(s->pc, guard, s->model, &m);
    if (q == UNSAT) return true;
    if (q == UNKNOWN) { nUnknown++; inconcl["solver: pointer guard"] = "1"; return true; }
  }
  uint64_t a0 = (uint64_t)evalExpr(a, *m);
  uint32_t id = findObj(a0);
  if (!id || a0 + n > objs[id].addr + objs[id].size || !s->mem.get(id)) {
    // maybe only this value is bad
    char b[200]; snprintf(b, sizeof b, "symbolic address may be invalid (0x%llx%s%s)", (unsigned long long)a0, id ? ", near object " : "", id ? objs[id].name.c_str() : "");
    fault(s, "memory", b, m);
    // continue where this value is excluded
    E ne = mkNot(mkAnd(guard, mkEq(a, mkConst(a0, 64))));
    if (depth > 60) return false;
    if (!id) for (E x = a; x->op == OAdd; x = x->k[0])    // the object the address was derived from
      if (x->k[1]->isConst() && (uint64_t)x->k[1]->val >= ABASE && (uint64_t)x->k[1]->val < ABASE * 64) {
        uint64_t base = (uint64_t)x->k[1]->val;
        for (uint64_t d : {0, 1, 2, 4, 8, 16, 32, 64, 128, 256, 512}) if ((id = findObj(base + d)) || (id = findObj(base - d))) break;
        break;
      }
    if (id) {
      ObjInfo &o = objs[id];
      E inb = mkBin(OUle, mkBin(OSub, a, mkConst(o.addr, 64)), mkConst(o.size - n, 64));
      if (o.size >= n) ne = mkOr(mkNot(guard), inb);
    }
    Res q = mayBeTrue(s->pc, ne, s->model, &m);
    if (q != SAT) return false;
    addPC(s, ne); s->model = m;
    return resolve(s, a, guard, n, out, depth + 1);
  }
  ObjInfo &o = objs[id];
  E off = mkBin(OSub, a, mkConst(o.addr, 64));
  E inb = mkBin(OUle, off, mkConst(o.size - n, 64));
  E cond = mkOr(mkNot(guard), inb);
  if (!cond->isTrue()) {
    if (s->model != m) { // make cond's truth under current model well defined
    }
    if (!forkAssume(s, cond)) return true;   // cannot happen: m satisfies it
  }
  out.push_back({guard, o.addr, off, id});
  return true;
}
static std::vector<uint64_t> candidates(State *s, E off, uint64_t maxOff, E guard) {
  unsigned t = 0; while (t < 4 && ((off->kz >> t) & 1)) t++;
  uint64_t step = 1ull << t;
  u128 um = ~off->kz & maskw(64);
  uint64_t lo = 0, hi = maxOff; if (um < hi) hi = (uint64_t)um;
  if ((hi - lo) / step > 64) {
    // narrow the range with the solver
    auto feas = [&](E c) { ModelP m; return mayBeTrue(s->pc, mkAnd(guard, c), s->model, &m) != UNSAT; };
    uint64_t l = lo, h = hi;
    while (l < h) { uint64_t mid = l + (h - l) / 2; if (feas(mkBin(OUle, off, mkConst(mid, 64)))) h = mid; else l = mid + 1; }
    lo = l; h = hi;
    while (l < h) { uint64_t mid = l + (h - l + 1) / 2; if (feas(mkBin(OUle, mkConst(mid, 64), off))) l = mid; else h = mid - 1; }
    hi = l;
  }
  std::vector<uint64_t> r;
  for (uint64_t o = (lo + step - 1) / step * step; o <= hi; o += step) r.push_back(o);
  return r;
}
static E muxRead(Content *c, E off, const std::vector<uint64_t> &cand, size_t i, size_t j, unsigned n, unsigned w) {
  if (j - i == 1) return toE(rdObj(c, cand[i], n, w), w);
  size_t m = (i + j) / 2;
  E l = muxRead(c, off, cand, i, m, n, w), r = muxRead(c, off, cand, m, j, n, w);
  return mkIte(mkBin(OUlt, off, mkConst(cand[m], 64)), l, r);
}
static bool memRead(State *s, const Val &av, unsigned n, unsigned w, Val &out) {
  if (av.conc()) {
    Content *c; uint64_t off; std::string err;
    if (!concAccess(s, av.c, n, false, &c, &off, &err)) { fault(s, "memory", err, s->model); return false; }
    out = rdObj(c, off, n, w);
    return true;
  }
  std::vector<Leaf> lv;
  if (!resolve(s, av.e, mkBool(true), n, lv)) return false;
  E r = nullptr;
  for (size_t i = lv.size(); i-- > 0;) {
    Leaf &l = lv[i]; E v;
    if (!l.a) {
      Content *c; uint64_t off; std::string err;
      if (!concAccess(s, l.addr, n, false, &c, &off, &err)) {
        ModelP m; Res q = mayBeTrue(s->pc, l.guard, s->model, &m);
        if (q == SAT) fault(s, "memory", err, m);
        if (q == UNKNOWN) { nUnknown++; inconcl["solver: pointer guard"] = "1"; }
        if (q != UNSAT) { ModelP m2; if (mayBeTrue(s->pc, mkNot(l.guard), s->model, &m2) != SAT) return false; addPC(s, mkNot(l.guard)); s->model = m2; }
        continue;
      }
      v = toE(rdObj(c, off, n, w), w);
    } else {
      Content *c = s->mem.get(l.obj);
      auto cand = candidates(s, l.a, objs[l.obj].size - n, l.guard);
      if (cand.empty()) continue;
      if (cand.size() > 70000) { unsupported("symbolic read over huge object " + objs[l.obj].name); return false; }
      v = muxRead(c, l.a, cand, 0, cand.size(), n, w);
    }
    r = r ? mkIte(l.guard, v, r) : v;
  }
  if (!r) return false;
  out = Val::sym(r);
  return true;
}
static bool memWrite(State *s, const Val &av, const Val &val, unsigned n, unsigned w) {
  if (av.conc()) {
    Content *c; uint64_t off; std::string err;
    if (!concAccess(s, av.c, n, true, &c, &off, &err)) { fault(s, "memory", err, s->model); return false; }
    wrObj(c, off, val, n, w);
    return true;
  }
  std::vector<Leaf> lv;
  if (!resolve(s, av.e, mkBool(true), n, lv)) return false;
  for (Leaf &l : lv) {
    if (!l.a) {
      Content *c; uint64_t off; std::string err;
      if (!concAccess(s, l.addr, n, true, &c, &off, &err)) {
        ModelP m; Res q = mayBeTrue(s->pc, l.guard, s->model, &m);
        if (q == SAT) fault(s, "memory", err, m);
        if (q == UNKNOWN) { nUnknown++; inconcl["solver: pointer guard"] = "1"; }
        if (q != UNSAT) { ModelP m2; if (mayBeTrue(s->pc, mkNot(l.guard), s->model, &m2) != SAT) return false; addPC(s, mkNot(l.guard)); s->model = m2; }
        continue;
      }
      Val old = rdObj(c, off, n, w);
      wrObj(c, off, Val::sym(mkIte(l.guard, toE(val, w), toE(old, w))), n, w);
    } else {
      if (objs[l.obj].ro) { fault(s, "memory", "write to constant", s->model); return false; }
      auto cand = candidates(s, l.a, objs[l.obj].size - n, l.guard);
      if (cand.size() > 5000) { unsupported("symbolic write over huge object " + objs[l.obj].name); return false; }
      Content *c = s->mem.getW(l.obj);
      unsigned nb = n;
      // byte-wise when candidates overlap
      bool overlap = cand.size() > 1 && cand[1] - cand[0] < n;
      if (!overlap) {
        for (uint64_t o : cand) {
          Val old = rdObj(c, o, n, w);
          wrObj(c, o, Val::sym(mkIte(mkAnd(l.guard, mkEq(l.a, mkConst(o, 64))), toE(val, w), toE(old, w))), n, w);
        }
      } else {
        Content tmp(*c);
        E v = mkZExtOrTrunc(toE(val, w), nb * 8);
        for (uint64_t o : cand) for (unsigned i = 0; i < nb; i++) {
          Val old = rdObj(c, o + i, 1, 8);
          wrObj(c, o + i, Val::sym(mkIte(mkAnd(l.guard, mkEq(l.a, mkConst(o, 64))), mkExtract(v, i * 8, 8), toE(old, 8))), 1, 8);
        }
      }
    }
  }
  return true;
}
static bool memReadTy(State *s, const Val &a, Type *t, Val &out) {
  unsigned w = tyW(t);
  if (w) return memRead(s, a, storeBytes(t), w, out);
  if (auto *st = dyn_cast<StructType>(t)) {
    Agg *g = new Agg(); auto *sl = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); i++) {
      Val x; Val aa = a.conc() ? Val(a.c + sl->getElementOffset(i)) : Val::sym(mkBin(OAdd, a.e, mkConst(sl->getElementOffset(i), 64)));
      if (!memReadTy(s, aa, st->getElementType(i), x)) return false;
      g->v.push_back(x);
    }
    out = Val::agg(g); return true;
  }
  if (auto *at = dyn_cast<ArrayType>(t)) {
    Agg *g = new Agg(); uint64_t es = DL->getTypeAllocSize(at->getElementType());
    for (unsigned i = 0; i < at->getNumElements(); i++) {
      Val x; Val aa = a.conc() ? Val(a.c + i * es) : Val::sym(mkBin(OAdd, a.e, mkConst(i * es, 64)));
      if (!memReadTy(s, aa, at->getElementType(), x)) return false;
      g->v.push_back(x);
    }
    out = Val::agg(g); return true;
  }
  unsupported("load of vector type"); return false;
}
static bool memWriteTy(State *s, const Val &a, const Val &v, Type *t) {
  unsigned w = tyW(t);
  if (w) return memWrite(s, a, v, storeBytes(t), w);
  if (v.isAgg()) {
    for (size_t i = 0; i < v.a()->v.size(); i++) {
      uint64_t off; Type *et;
      if (auto *st = dyn_cast<StructType>(t)) { off = DL->getStructLayout(st)->getElementOffset(i); et = st->getElementType(i); }
      else { et = cast<ArrayType>(t)->getElementType(); off = i * DL->getTypeAllocSize(et); }
      Val aa = a.conc() ? Val(a.c + off) : Val::sym(mkBin(OAdd, a.e, mkConst(off, 64)));
      if (!memWriteTy(s, aa, v.a()->v[i], et)) return false;
    }
    return true;
  }
  unsupported("store of vector type"); return false;
}

// ------------------------------------------------------------------ constants
static Val constVal(const Constant *c);
static uint64_t allocGlobal(const GlobalVariable *g);
static Fn *getFn(const Function *f) {
  auto it = fnOf.find(f);
  if (it != fnOf.end()) return it->second;
  Fn *n = new Fn(); n->f = f; n->name = f->getName().str(); n->addr = 0x10000 + 16 * fnOf.size(); n->defined = !f->isDeclaration();
  n->nargs = f->arg_size();
  auto b = builtins.find(n->name);
  if (b != builtins.end()) n->bi = &b->second;
  fnOf[f] = n; fnAt[n->addr] = n;
  return n;
}
static uint64_t addrOf(const GlobalValue *g) {
  if (auto *a = dyn_cast<GlobalAlias>(g)) { Val v = constVal(a->getAliasee()); return v.c; }
  if (auto *f = dyn_cast<Function>(g)) return getFn(f)->addr;
  auto it = gaddr.find(g);
  if (it != gaddr.end()) return it->second;
  return allocGlobal(cast<GlobalVariable>(g));
}
static std::vector<const GlobalVariable *> pendingInit;
static uint64_t allocGlobal(const GlobalVariable *g) {
  uint64_t sz = g->isDeclaration() ? std::max<uint64_t>(512, g->getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(g->getValueType()) : 0) : (uint64_t)DL->getTypeAllocSize(g->getValueType());
  uint32_t id = newObj(sz, KGlobal, g->getName().str(), 16);
  gaddr[g] = objs[id].addr;
  if (g->isDeclaration()) { extName[objs[id].addr] = g->getName().str(); objs[id].ext = true; }
  return objs[id].addr;
}
static uint64_t gepConst(const GEPOperator *g) {
  Val b = constVal(cast<Constant>(g->getPointerOperand()));
  APInt off(64, 0);
  if (!g->accumulateConstantOffset(*DL, off)) { unsupported("constant gep"); return 0; }
  return b.c + off.getSExtValue();
}
static Val apv(const APInt &a) {
  if (a.getBitWidth() <= 64) return Val(a.getZExtValue());
  u128 v = a.getRawData()[0]; if (a.getNumWords() > 1) v |= (u128)a.getRawData()[1] << 64;
  return Val::sym(mkConst(v, a.getBitWidth()));
}
static Val constVal(const Constant *c) {
  if (auto *i = dyn_cast<ConstantInt>(c)) return apv(i->getValue());
  if (auto *f = dyn_cast<ConstantFP>(c)) return apv(f->getValueAPF().bitcastToAPInt());
  if (isa<ConstantPointerNull>(c)) return Val(0);
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) {
    Type *t = c->getType();
    if (auto *st = dyn_cast<StructType>(t)) { Agg *g = new Agg(); for (unsigned i = 0; i < st->getNumElements(); i++) g->v.push_back(constVal(isa<UndefValue>(c) ? UndefValue::get(st->getElementType(i)) : Constant::getNullValue(st->getElementType(i)))); return Val::agg(g); }
    if (auto *at = dyn_cast<ArrayType>(t)) { Agg *g = new Agg(); for (unsigned i = 0; i < at->getNumElements(); i++) g->v.push_back(constVal(Constant::getNullValue(at->getElementType()))); return Val::agg(g); }
    unsigned w = tyW(t);
    if (w > 64) return Val::sym(mkConst(0, w));
    return Val(0);
  }
  if (auto *g = dyn_cast<GlobalValue>(c)) return Val(addrOf(g));
  if (auto *g = dyn_cast<GEPOperator>(c)) return Val(gepConst(g));
  if (isa<ConstantStruct>(c) || isa<ConstantArray>(c)) { Agg *g = new Agg(); for (auto &o : c->operands()) g->v.push_back(constVal(cast<Constant>(o))); return Val::agg(g); }
  if (auto *d = dyn_cast<ConstantDataSequential>(c)) { Agg *g = new Agg(); for (unsigned i = 0; i < d->getNumElements(); i++) g->v.push_back(constVal(d->getElementAsConstant(i))); return Val::agg(g); }
  if (auto *x = dyn_cast<ConstantExpr>(c)) {
    auto op = x->getOpcode();
    unsigned w = tyW(x->getType());
    if (op == Instruction::PtrToInt || op == Instruction::IntToPtr || op == Instruction::BitCast || op == Instruction::Trunc) {
      uint64_t v = constVal(x->getOperand(0)).c; if (w < 64) v &= (1ull << w) - 1; return Val(v);
    }
    uint64_t a = constVal(x->getOperand(0)).c, b = x->getNumOperands() > 1 ? constVal(x->getOperand(1)).c : 0;
    switch (op) {
    case Instruction::Add: return Val((uint64_t)((u128)(a + b) & maskw(w)));
    case Instruction::Sub: return Val((uint64_t)((u128)(a - b) & maskw(w)));
    case Instruction::Mul: return Val((uint64_t)((u128)(a * b) & maskw(w)));
    case Instruction::And: return Val(a & b);
    case Instruction::Or: return Val(a | b);
    case Instruction::Xor: return Val(a ^ b);
    case Instruction::Shl: return Val((uint64_t)((u128)(a << b) & maskw(w)));
    case Instruction::LShr: return Val(a >> b);
    case Instruction::ICmp: {
      auto p = (CmpInst::Predicate)x->getPredicate();
      switch (p) { case CmpInst::ICMP_EQ: return Val(a == b); case CmpInst::ICMP_NE: return Val(a != b); case CmpInst::ICMP_ULT: return Val(a < b); case CmpInst::ICMP_UGT: return Val(a > b); default: break; }
      break;
    }
    default: break;
    }
  }
  std::string t; raw_string_ostream os(t); c->print(os);
  unsupported("constant " + t.substr(0, 100));
  return Val(0);
}
static void initMem(Content *c, uint64_t off, const Constant *k) {
  Type *t = k->getType();
  if (isa<ConstantAggregateZero>(k) || isa<UndefValue>(k)) { memset(c->b + off, 0, DL->getTypeAllocSize(t)); return; }
  if (auto *d = dyn_cast<ConstantDataSequential>(k)) { StringRef r = d->getRawDataValues(); memcpy(c->b + off, r.data(), r.size()); return; }
  if (auto *st = dyn_cast<ConstantStruct>(k)) { auto *sl = DL->getStructLayout(st->getType()); for (unsigned i = 0; i < st->getNumOperands(); i++) initMem(c, off + sl->getElementOffset(i), st->getOperand(i)); return; }
  if (auto *a = dyn_cast<ConstantArray>(k)) { uint64_t es = DL->getTypeAllocSize(a->getType()->getElementType()); for (unsigned i = 0; i < a->getNumOperands(); i++) initMem(c, off + i * es, a->getOperand(i)); return; }
  Val v = constVal(k);
  unsigned n = storeBytes(t);
  u128 x = v.e ? v.e->val : v.c; memcpy(c->b + off, &x, n);
}

// ------------------------------------------------------------------ decode
enum { CZExt, CSExt, CTrunc, CFExt, CSI2F, CUI2F, CF2SI, CF2UI, CBit };
static void decode(Fn *fn) {
  if (fn->decoded) return;
  fn->decoded = true;
  const Function &F = *fn->f;
  if (F.hasFnAttribute("symx-nomerge")) fn->noMerge = true;
  std::unordered_map<const llvm::Value *, int> reg; std::unordered_map<const BasicBlock *, int> bidx;
  int nr = 0;
  for (auto &a : F.args()) reg[&a] = nr++;
  int nb = 0;
  for (auto &b : F) { bidx[&b] = nb++; for (auto &i : b) if (!i.getType()->isVoidTy()) reg[&i] = nr++; }
  fn->nregs = nr; fn->blks.resize(nb);
  auto opn = [&](const llvm::Value *v) -> Opnd {
    Opnd o; o.reg = -1;
    if (auto *c = dyn_cast<Constant>(v)) { o.k = constVal(c); return o; }
    auto it = reg.find(v);
    if (it != reg.end()) o.reg = it->second;   // metadata operands stay as constant 0
    return o;
  };
  for (auto &b : F) {
    Blk &B = fn->blks[bidx[&b]]; B.bb = &b;
    for (auto *p : predecessors(&b)) {
      int pi = bidx[p]; bool dup = false;
      for (auto &x : B.phis) dup |= x.first == pi;
      if (dup) continue;
      std::vector<PhiMove> mv;
      for (auto &phi : b.phis()) mv.push_back({reg[&phi], tyW(phi.getType()), opn(phi.getIncomingValueForBlock(p)), phi.getType()});
      B.phis.push_back({pi, mv});
    }
    for (auto &i : b) {
      if (isa<PHINode>(i)) continue;
      if (isa<DbgInfoIntrinsic>(i)) continue;
      Ins I; I.src = &i; I.dst = i.getType()->isVoidTy() ? -1 : reg[&i]; I.w = tyW(i.getType()); I.ty = i.getType(); I.k = IUnsup; I.sub = 0; I.w2 = 0;
      auto ops = [&]() { for (auto &o : i.operands()) I.op.push_back(opn(o)); };
      if (i.getType()->isVectorTy()) { I.k = IUnsup; B.ins.push_back(I); continue; }
      switch (i.getOpcode()) {
#define BINOP(L, O) case Instruction::L: I.k = IBin; I.sub = O; ops(); break;
      BINOP(Add, OAdd) BINOP(Sub, OSub) BINOP(Mul, OMul) BINOP(UDiv, OUDiv) BINOP(SDiv, OSDiv) BINOP(URem, OURem) BINOP(SRem, OSRem)
      BINOP(Shl, OShl) BINOP(LShr, OLShr) BINOP(AShr, OAShr) BINOP(And, OAnd) BINOP(Or, OOr) BINOP(Xor, OXor)
      BINOP(FAdd, OFAdd) BINOP(FSub, OFSub) BINOP(FMul, OFMul) BINOP(FDiv, OFDiv) BINOP(FRem, OFRem)
      case Instruction::FNeg: I.k = IFNeg; ops(); break;
      case Instruction::ICmp: I.k = IICmp; I.sub = cast<CmpInst>(i).getPredicate(); I.w2 = tyW(i.getOperand(0)->getType()); if (!I.w2) I.k = IUnsup; ops(); break;
      case Instruction::FCmp: I.k = IFCmp; I.sub = cast<CmpInst>(i).getPredicate(); I.w2 = tyW(i.getOperand(0)->getType()); if (!I.w2) I.k = IUnsup; ops(); break;
#define CAST(L, C) case Instruction::L: I.k = ICast; I.sub = C; I.w2 = tyW(i.getOperand(0)->getType()); if (!I.w2) I.k = IUnsup; ops(); break;
      CAST(ZExt, CZExt) CAST(SExt, CSExt) CAST(Trunc, CTrunc) CAST(FPExt, CFExt) CAST(FPTrunc, CFExt) CAST(SIToFP, CSI2F) CAST(UIToFP, CUI2F)
      CAST(FPToSI, CF2SI) CAST(FPToUI, CF2UI) CAST(PtrToInt, CZExt) CAST(IntToPtr, CZExt) CAST(BitCast, CBit)
      case Instruction::Freeze: I.k = IMove; ops(); break;
      case Instruction::Alloca: { I.k = IAlloca; auto &a = cast<AllocaInst>(i); I.imm = {(uint64_t)DL->getTypeAllocSize(a.getAllocatedType()), a.getAlign().value()}; ops(); break; }
      case Instruction::Load: I.k = ILoad; ops(); break;
      case Instruction::Store: I.k = IStore; I.ty = i.getOperand(0)->getType(); ops(); break;
      case Instruction::GetElementPtr: {
        I.k = IGep; I.op.push_back(opn(i.getOperand(0)));
        int64_t off = 0;
        for (gep_type_iterator gi = gep_type_begin(i), ge = gep_type_end(i); gi != ge; ++gi) {
          const llvm::Value *ix = gi.getOperand();
          if (StructType *st = gi.getStructTypeOrNull()) off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
          else {
            uint64_t es = DL->getTypeAllocSize(gi.getIndexedType());
            if (auto *ci = dyn_cast<ConstantInt>(ix)) off += ci->getSExtValue() * (int64_t)es;
            else { I.op.push_back(opn(ix)); I.imm.push_back(es); I.imm.push_back(tyW(ix->getType())); }
          }
        }
        I.imm.push_back((uint64_t)off);
        break;
      }
      case Instruction::Select: I.k = ISelect; ops(); break;
      case Instruction::Br: {
        auto &x = cast<BranchInst>(i);
        if (x.isUnconditional()) { I.k = IBr; I.imm = {(uint64_t)bidx[x.getSuccessor(0)]}; }
        else { I.k = ICondBr; I.op.push_back(opn(x.getCondition())); I.imm = {(uint64_t)bidx[x.getSuccessor(0)], (uint64_t)bidx[x.getSuccessor(1)]}; }
        break;
      }
      case Instruction::Switch: {
        auto &x = cast<SwitchInst>(i); I.k = ISwitch; I.op.push_back(opn(x.getCondition())); I.w2 = tyW(x.getCondition()->getType());
        I.imm.push_back(bidx[x.getDefaultDest()]);
        for (auto &cs : x.cases()) { I.imm.push_back(cs.getCaseValue()->getZExtValue()); I.imm.push_back(bidx[cs.getCaseSuccessor()]); }
        break;
      }
      case Instruction::Ret: I.k = IRet; ops(); break;
      case Instruction::Unreachable: I.k = IUnreach; break;
      case Instruction::Call: case Instruction::Invoke: {
        auto &x = cast<CallBase>(i); I.k = isa<InvokeInst>(i) ? IInvoke : ICall;
        for (auto &a : x.args()) I.op.push_back(opn(a));
        I.op.push_back(opn(x.getCalledOperand()));
        if (auto *iv = dyn_cast<InvokeInst>(&i)) I.imm = {(uint64_t)bidx[iv->getNormalDest()], (uint64_t)bidx[iv->getUnwindDest()]};
        if (auto *f = dyn_cast<Function>(x.getCalledOperand()->stripPointerCasts())) {
          I.callee = getFn(f);
          StringRef n = f->getName();
          if (n.starts_with("llvm.lifetime") || n.starts_with("llvm.dbg") || n.starts_with("llvm.experimental.noalias") || n.starts_with("llvm.assume") || n.starts_with("llvm.invariant")) I.k = INop;
        }
        if (x.isInlineAsm()) I.k = IUnsup;
        break;
      }
      case Instruction::Resume: I.k = IResume; ops(); break;
      case Instruction::LandingPad: I.k = ILandingPad; break;
      case Instruction::ExtractValue: { I.k = IExtractV; ops(); for (unsigned q : cast<ExtractValueInst>(i).indices()) I.imm.push_back(q); break; }
      case Instruction::InsertValue: { I.k = IInsertV; ops(); for (unsigned q : cast<InsertValueInst>(i).indices()) I.imm.push_back(q); break; }
      case Instruction::AtomicRMW: I.k = IRMW; I.sub = cast<AtomicRMWInst>(i).getOperation(); ops(); break;
      case Instruction::AtomicCmpXchg: I.k = ICmpXchg; I.w2 = tyW(i.getOperand(1)->getType()); ops(); break;
      case Instruction::Fence: I.k = INop; break;
      default: break;
      }
      B.ins.push_back(I);
    }
  }
  // post-dominators over normal edges, restricted to blocks that can return
  std::vector<std::vector<int>> succ(nb), pred(nb); std::vector<int> exits;
  for (int i = 0; i < nb; i++) {
    const Instruction *t = fn->blks[i].bb->getTerminator();
    if (auto *iv = dyn_cast<InvokeInst>(t)) succ[i].push_back(bidx[iv->getNormalDest()]);
    else for (unsigned j = 0; j < t->getNumSuccessors(); j++) succ[i].push_back(bidx[t->getSuccessor(j)]);
    if (isa<ReturnInst>(t)) exits.push_back(i);
  }
  for (int i = 0; i < nb; i++) for (int j : succ[i]) pred[j].push_back(i);
  std::vector<char> live(nb, 0); std::vector<int> q = exits; for (int e : exits) live[e] = 1;
  while (!q.empty()) { int x = q.back(); q.pop_back(); for (int p : pred[x]) if (!live[p]) { live[p] = 1; q.push_back(p); } }
  if (exits.size() == 1) {
    // reverse postorder on the reverse graph
    std::vector<int> order, num(nb, -1); std::vector<char> seen(nb, 0);
    std::vector<std::pair<int, size_t>> stk = {{exits[0], 0}}; seen[exits[0]] = 1;
    while (!stk.empty()) {
      auto &t = stk.back();
      if (t.second < pred[t.first].size()) { int p = pred[t.first][t.second++]; if (live[p] && !seen[p]) { seen[p] = 1; stk.push_back({p, 0}); } }
      else { order.push_back(t.first); stk.pop_back(); }
    }
    for (size_t i = 0; i < order.size(); i++) num[order[i]] = (int)i;
    std::vector<int> ip(nb, -1); ip[exits[0]] = exits[0];
    bool ch = true;
    while (ch) {
      ch = false;
      for (int k = (int)order.size() - 2; k >= 0; k--) {
        int b = order[k], n = -1;
        for (int sx : succ[b]) if (live[sx] && ip[sx] >= 0) {
          if (n < 0) n = sx;
          else { int x = sx, y = n; while (x != y) { while (num[x] < num[y]) x = ip[x]; while (num[y] < num[x]) y = ip[y]; } n = x; }
        }
        if (n != ip[b]) { ip[b] = n; ch = true; }
      }
    }
    for (int i = 0; i < nb; i++) if (i != exits[0]) fn->blks[i].ipdom = ip[i];
  }
  // liveness
  std::vector<std::vector<bool>> use(nb, std::vector<bool>(nr)), def(nb, std::vector<bool>(nr)), phiUse(nb, std::vector<bool>(nr));
  for (int i = 0; i < nb; i++) {
    for (auto &pm : fn->blks[i].phis) for (auto &m : pm.second) { if (m.o.reg >= 0) phiUse[pm.first][m.o.reg] = true; def[i][m.dst] = true; }
    for (auto &I : fn->blks[i].ins) { for (auto &o : I.op) if (o.reg >= 0 && !def[i][o.reg]) use[i][o.reg] = true; if (I.dst >= 0) def[i][I.dst] = true; }
  }
  for (int i = 0; i < nb; i++) { fn->blks[i].liveIn = use[i]; }
  bool ch = true;
  while (ch) {
    ch = false;
    for (int i = nb - 1; i >= 0; i--) {
      std::vector<bool> out = phiUse[i];
      const Instruction *t = fn->blks[i].bb->getTerminator();
      for (unsigned j = 0; j < t->getNumSuccessors(); j++) { int sx = bidx[t->getSuccessor(j)]; for (int r = 0; r < nr; r++) if (fn->blks[sx].liveIn[r]) out[r] = true; }
      for (int r = 0; r < nr; r++) if (out[r] && !def[i][r] && !fn->blks[i].liveIn[r]) { fn->blks[i].liveIn[r] = true; ch = true; }
    }
  }
  // phi results are live at the point after the phis
  for (int i = 0; i < nb; i++) for (auto &pm : fn->blks[i].phis) for (auto &m : pm.second) fn->blks[i].liveIn[m.dst] = true;
}

// ------------------------------------------------------------------ merging
static bool ptrLike(const Val &v) { return v.conc() && v.c >= ABASE && v.c < nextAddr + 4096; }
static bool hasPtrLeaf(E e) { if (e->isConst()) return e->w == 64 && (uint64_t)e->val >= ABASE && (uint64_t)e->val < nextAddr; if (e->op == OIte && e->cleaves) return hasPtrLeaf(e->k[1]) || hasPtrLeaf(e->k[2]); return false; }
static bool tryMerge(State *A, State *B, GroupP g) {
  if (A->st.size() != B->st.size() || A->caught != B->caught || A->obs.size() != B->obs.size()) return false;
  for (size_t i = 0; i < A->st.size(); i++) {
    const Frame &a = *A->st[i], &b = *B->st[i];
    if (&a == &b) continue;
    if (a.fn != b.fn || a.blk != b.blk || a.ip != b.ip || a.call != b.call) return false;
  }
  bool mp = opt("mergeptr", 0);
  auto refuse = [&](const Val &x, const Val &y) -> bool {
    if (mp) return false;
    if (ptrLike(x) || ptrLike(y)) return true;
    return false;
  };
  // registers
  struct RD { size_t f; int r; }; std::vector<RD> rds;
  for (size_t i = 0; i < A->st.size(); i++) {
    const Frame &a = *A->st[i], &b = *B->st[i];
    if (&a == &b) continue;
    const Blk &bl = a.fn->blks[a.blk];
    bool topF = i + 1 == A->st.size();
    for (int r = 0; r < a.fn->nregs; r++) {
      if (a.r[r] == b.r[r]) continue;
      if (topF && a.ip == 0 && !bl.liveIn[r]) continue;
      if (a.r[r].isAgg() != b.r[r].isAgg()) { if (!(topF && a.ip == 0)) { /* not yet defined in one */ } return false; }
      if (!a.r[r].isAgg() && refuse(a.r[r], b.r[r])) { nMergeRefused++; return false; }
      rds.push_back({i, r});
    }
  }
  std::vector<uint32_t> ids; Mem::diff(A->mem, B->mem, ids);
  std::vector<uint32_t> both, onlyB; size_t nbytes = 0;
  for (uint32_t id : ids) {
    Content *a = A->mem.get(id), *b = B->mem.get(id);
    if (a && b) {
      bool any = false;
      for (uint32_t o = 0; o < a->size; o++) {
        E ea = a->s ? a->s[o].e : nullptr, eb = b->s ? b->s[o].e : nullptr;
        if (!ea && !eb) { if (a->b[o] != b->b[o]) { any = true; nbytes++; } }
        else if (ea != eb || a->s[o].idx != b->s[o].idx) { any = true; nbytes++; }
      }
      if (!any) continue;
      if (!mp) for (uint32_t o = 0; o + 8 <= a->size; o += 8) {
        uint64_t x, y; memcpy(&x, a->b + o, 8); memcpy(&y, b->b + o, 8);
        bool sa = a->s && a->s[o].e, sb = b->s && b->s[o].e;
        if (sa || sb) continue;
        if (x != y && ((x >= ABASE && x < nextAddr) || (y >= ABASE && y < nextAddr))) { nMergeRefused++; return false; }
      }
      both.push_back(id);
    } else if (objs[id].kind != KStack) {
      if (id < g->objMark) { nMergeRefused++; return false; }   // freed on one side only
      if (!a) onlyB.push_back(id);
    }
  }
  if ((long)nbytes > opt("mergebytes", 4096)) { nMergeRefused++; return false; }
  for (size_t i = 0; i < A->obs.size(); i++) if (A->obs[i].name != B->obs[i].name) return false;
  // conditions
  size_t p = 0; while (p < A->pc.size() && p < B->pc.size() && A->pc[p] == B->pc[p]) p++;
  std::vector<E> la(A->pc.begin() + p, A->pc.end()), lb(B->pc.begin() + p, B->pc.end()), com;
  std::vector<E> la2, lb2;
  for (E x : la) if (B->pcIds.count(x->id)) com.push_back(x); else la2.push_back(x);
  for (E x : lb) if (!A->pcIds.count(x->id)) lb2.push_back(x);
  E ca = mkBool(true), cb = mkBool(true);
  for (size_t i = la2.size(); i-- > 0;) ca = mkAnd(la2[i], ca);
  for (size_t i = lb2.size(); i-- > 0;) cb = mkAnd(lb2[i], cb);
  // a compact selector: complementary literals distinguish the two sides
  E sel = ca;
  for (E x : la2) { bool hit = false; for (E y : lb2) if (mkNot(x) == y) { sel = x; hit = true; break; } if (hit) break; }
  if (sel == ca && sel->isTrue()) return false;
  A->pc.resize(p);
  std::unordered_set<uint32_t> keep; for (E x : A->pc) keep.insert(x->id);
  A->pcIds = keep;
  auto oldKnown = A->known; A->known.clear();
  for (auto &k : oldKnown) { auto it = B->known.find(k.first); if (it != B->known.end() && it->second == k.second) A->known.insert(k); }
  for (E x : com) addPC(A, x);
  addPC(A, mkOr(ca, cb));
  for (auto &rd : rds) {
    FrameP &fp = A->st[rd.f]; if (fp.use_count() > 1) fp = std::make_shared<Frame>(*fp);
    Val &x = fp->r[rd.r]; const Val &y = B->st[rd.f]->r[rd.r];
    unsigned w = x.issym() ? x.e->w : y.issym() ? y.e->w : 64;
    if (!x.issym() && !y.issym() && !x.isAgg()) {
      // width from the defining instruction is not recorded per register; recover it
      w = 0;
      const Fn *fn = fp->fn; 
      for (auto &bl : fn->blks) { for (auto &I : bl.ins) if (I.dst == rd.r) { w = I.w; break; } if (w) break; for (auto &pm : bl.phis) for (auto &m : pm.second) if (m.dst == rd.r) { w = m.w; break; } if (w) break; }
      if (!w && rd.r < (int)fn->nargs) w = tyW(fn->f->getArg(rd.r)->getType());
      if (!w) w = 64;
    }
    x = iteV(sel, x, y, w);
  }
  for (uint32_t id : onlyB) { Content *c = B->mem.get(id); A->mem.set(id, c); }
  for (uint32_t id : both) {
    Content *a = A->mem.getW(id), *b = B->mem.get(id);
    // merge in the widest unit that stays aligned with stored values
    auto same = [&](uint32_t i) {
      E ea = a->s ? a->s[i].e : nullptr, eb = b->s ? b->s[i].e : nullptr;
      return ea == eb && (ea ? a->s[i].idx == b->s[i].idx : a->b[i] == b->b[i]);
    };
    // extent of the stored value starting at byte i (0 if i is inside a value or concrete)
    auto ext = [&](Content *c, uint32_t i) -> uint32_t {
      if (!c->s || !c->s[i].e) return 0;
      if (c->s[i].idx) return 0;
      uint32_t n = (c->s[i].e->w + 7) / 8, k = 1;
      while (k < n && i + k < c->size && c->s[i + k].e == c->s[i].e && c->s[i + k].idx == k) k++;
      return k;
    };
    uint32_t o = 0;
    while (o < a->size) {
      if (same(o)) { o++; continue; }
      uint32_t n = std::max(ext(a, o), ext(b, o));
      if (!n) { // concrete on both sides: natural-alignment guess
        n = (o % 8 == 0 && o + 8 <= a->size) ? 8 : (o % 4 == 0 && o + 4 <= a->size) ? 4 : 1;
        for (uint32_t i = 0; i < n; i++) if ((a->s && a->s[o + i].e) || (b->s && b->s[o + i].e)) { n = 1; break; }
        if (n == 8) { // prefer 4-byte units when one half is equal
          bool l = true, h = true; for (int i = 0; i < 4; i++) { l &= same(o + i); h &= same(o + 4 + i); }
          if (l || h) n = 4;
        }
        if (n == 4) { int d = 0; for (int i = 0; i < 4; i++) d += !same(o + i); if (d == 1) n = 1; }
      }
      if (n > 16) n = 16;
      Val va = rdObj(a, o, n, n * 8), vb = rdObj(b, o, n, n * 8);
      wrObj(a, o, iteV(sel, va, vb, n * 8), n, n * 8);
      o += n;
    }
  }
  for (auto &n : B->names) { int &x = A->names[n.first]; x = std::max(x, n.second); }
  for (auto &x : B->exc) A->exc.insert(x);
  for (size_t i = 0; i < A->obs.size(); i++) A->obs[i].v = iteV(sel, A->obs[i].v, B->obs[i].v, A->obs[i].w);
  A->steps = std::max(A->steps, B->steps);
  nMerges++;
  return true;
}

static void park(State *s);
static void resumeAt(State *s) {   // s sits at a block start: maybe it is the join of its top group
  if (!s->groups.empty()) {
    Group &g = *s->groups.back(); const Frame &f = *s->st.back();
    if (g.depth == (int)s->st.size() && g.fn == f.fn && g.blk == f.blk && f.ip == 0) { park(s); return; }
  }
  work.push_back(s);
}
static void park(State *s) {
  GroupP g = s->groups.back();
  g->parked.push_back(s);
  finalizeIfDone(g);
}
static void finalizeIfDone(GroupP g) {
  if (g->live == 0 || g->live != (int)g->parked.size()) return;
  std::vector<State *> in; in.swap(g->parked);
  g->live = 0;
  std::vector<State *> out;
  for (State *s : in) {
    s->groups.pop_back();     // g
    bool m = false;
    if (!stopAll) for (State *t : out) if (tryMerge(t, s, g)) { m = true; break; }
    if (m) { // s disappears from the outer groups
      for (auto &og : s->groups) og->live--;
      s->groups.clear(); delete s;
    } else out.push_back(s);
  }
  for (State *s : out) resumeAt(s);
}

// ------------------------------------------------------------------ control transfer
// returns false if the state was parked
static bool gotoBlk(State *s, int b) {
  Frame &f = s->top();
  int prev = f.blk;
  Blk &B = f.fn->blks[b];
  for (auto &pm : B.phis) if (pm.first == prev) {
    auto &mv = pm.second;
    if (mv.size() == 1) { Val v = getV(f, mv[0].o); f.r[mv[0].dst] = v; }
    else if (!mv.empty()) {
      Val tmp[64]; std::vector<Val> big; Val *t = tmp;
      if (mv.size() > 64) { big.resize(mv.size()); t = big.data(); }
      for (size_t i = 0; i < mv.size(); i++) t[i] = getV(f, mv[i].o);
      for (size_t i = 0; i < mv.size(); i++) f.r[mv[i].dst] = t[i];
    }
    break;
  }
  f.prev = prev; f.blk = b; f.ip = 0;
  if (!s->groups.empty()) {
    Group &g = *s->groups.back();
    if (g.depth == (int)s->st.size() && g.blk == b && g.fn == f.fn) { park(s); return false; }
  }
  return true;
}
static void freeObj(State *s, uint32_t id) { s->mem.set(id, nullptr); }
static void popFrame(State *s) {
  for (uint32_t id : s->st.back()->allocas) freeObj(s, id);
  s->st.pop_back();
  while (!s->groups.empty() && s->groups.back()->depth > (int)s->st.size()) leaveGroups(s, s->groups.size() - 1);
}
static void pushFrame(State *s, Fn *fn, std::vector<Val> &args, Ins *call) {
  decode(fn);
  if (fn->calls++ == 0) fnEncoded.insert(fn->name);
  auto f = std::make_shared<Frame>();
  f->fn = fn; f->blk = 0; f->ip = 0; f->prev = -1; f->call = call;
  f->r.resize(fn->nregs);
  for (size_t i = 0; i < args.size() && i < fn->nargs; i++) f->r[i] = args[i];
  s->st.push_back(f);
}

// ------------------------------------------------------------------ exceptions
static uint64_t rd64(State *s, uint64_t a) { Val v; Content *c; uint64_t off; std::string err; if (!concAccess(s, a, 8, false, &c, &off, &err)) return 0; v = rdObj(c, off, 8, 64); return v.conc() ? v.c : (uint64_t)evalExpr(v.e, *s->model); }
static uint32_t rd32(State *s, uint64_t a) { return (uint32_t)rd64(s, a & ~0ull) ; }
static std::string rdStr(State *s, uint64_t a) { std::string r; while (r.size() < 4096) { Content *c; uint64_t off; std::string e; if (!concAccess(s, a + r.size(), 1, false, &c, &off, &e)) break; Val v = rdObj(c, off, 1, 8); uint64_t ch = v.conc() ? v.c : (uint64_t)evalExpr(v.e, *s->model); if (!ch) break; r += (char)ch; } return r; }
// is `to` reachable as a base of `from`?  obj adjusted on success.
static bool upcast(State *s, uint64_t from, uint64_t to, uint64_t &obj, int d = 0) {
  if (from == to) return true;
  if (!from || d > 20) return false;
  uint64_t vt = rd64(s, from);
  if (vt == vt_si + 16) return upcast(s, rd64(s, from + 16), to, obj, d + 1);
  if (vt == vt_vmi + 16) {
    uint64_t fc = rd64(s, from + 16); uint32_t n = fc >> 32;
    for (uint32_t i = 0; i < n; i++) {
      uint64_t b = rd64(s, from + 24 + 16 * i); int64_t of = (int64_t)rd64(s, from + 32 + 16 * i);
      int64_t delta = of >> 8; uint64_t o2 = obj;
      if (of & 1) { if (obj) { uint64_t v = rd64(s, obj); delta = (int64_t)rd64(s, v + delta); } }
      o2 = obj + delta;
      if (upcast(s, b, to, o2, d + 1)) { obj = o2; return true; }
    }
  }
  return false;
}
static std::map<uint64_t, int> tyIds;
static int tyId(uint64_t ti) { auto it = tyIds.find(ti); if (it != tyIds.end()) return it->second; int n = tyIds.size() + 1; tyIds[ti] = n; return n; }

static bool lpMatch(State *s, const LandingPadInst *lp, uint64_t ti, uint64_t obj, int &sel, uint64_t &adj, bool &handler) {
  handler = false; adj = obj; sel = 0;
  for (unsigned i = 0; i < lp->getNumClauses(); i++) {
    Constant *c = lp->getClause(i);
    if (lp->isCatch(i)) {
      Val v = constVal(c);
      if (v.c == 0) { sel = tyId(0); handler = true; return true; }
      uint64_t o = obj;
      if (upcast(s, ti, v.c, o)) { sel = tyId(v.c); adj = o; handler = true; return true; }
    } else {
      bool ok = false;
      for (unsigned j = 0; j < c->getNumOperands() && !ok; j++) { uint64_t o = obj; Val v = constVal(cast<Constant>(c->getOperand(j))); ok = v.c == 0 || upcast(s, ti, v.c, o); }
      if (!ok) { sel = -1; handler = true; return true; }
    }
  }
  return lp->isCleanup();
}
// unwinds; 0 = the state ended (caller must kill it), 1 = running, 2 = parked at a join (do not touch)
static int doThrow(State *s, uint64_t obj) {
  uint64_t ti = s->exc[obj].first;
  // search phase
  bool found = false;
  for (int i = (int)s->st.size() - 1; i >= 0 && !found; i--) {
    const Frame &f = *s->st[i];
    const Ins &I = f.fn->blks[f.blk].ins[f.ip];
    if (I.k == IInvoke) {
      auto *iv = cast<InvokeInst>(I.src); auto *lp = iv->getLandingPadInst();
      int sel; uint64_t adj; bool h;
      lpMatch(s, lp, ti, obj, sel, adj, h);
      if (h) found = true;
    }
  }
  if (!found) { fault(s, "terminate", "uncaught exception of type " + rdStr(s, rd64(s, ti + 8)), s->model); return 0; }
  while (!s->st.empty()) {
    const Frame &f = *s->st.back();
    const Ins &I = f.fn->blks[f.blk].ins[f.ip];
    if (I.k == IInvoke) {
      auto *iv = cast<InvokeInst>(I.src); auto *lp = iv->getLandingPadInst();
      int sel; uint64_t adj; bool h;
      if (lpMatch(s, lp, ti, obj, sel, adj, h)) {
        s->exc[obj].second = adj;
        int ub = (int)I.imm[1];
        // the landing pad result is delivered when the block is entered
        Frame &tf = s->top();
        int lpReg = -1; 
        Blk &B = tf.fn->blks[ub];
        for (auto &x : B.ins) if (x.k == ILandingPad) { lpReg = x.dst; break; }
        Agg *a = new Agg(); a->v = {Val(obj), Val((uint64_t)(uint32_t)sel)};
        tf.r[lpReg] = Val::agg(a);
        // leave merge groups whose join cannot be reached by normal flow stays possible; keep them
        return gotoBlk(s, ub) ? 1 : 2;
      }
    }
    popFrame(s);
  }
  return 0;
}

// ------------------------------------------------------------------ instruction helpers
static Val binV(State *s, uint8_t op, unsigned w, const Val &a, const Val &b) {
  if (a.conc() && b.conc()) {
    uint64_t x = a.c, y = b.c, m = w >= 64 ? ~0ull : (1ull << w) - 1;
    switch (op) {
    case OAdd: return Val((x + y) & m);
    case OSub: return Val((x - y) & m);
    case OMul: return Val((x * y) & m);
    case OAnd: return Val(x & y);
    case OOr: return Val(x | y);
    case OXor: return Val(x ^ y);
    case OShl: case OLShr: case OAShr: if (w == 32) y &= 31; else if (w == 64) y &= 63; break;
    default: break;
    }
    u128 r = evalOp((Op)op, w, w, 0, x, y, 0);
    if (w <= 64) return Val((uint64_t)r);
    return Val::sym(mkConst(r, w));
  }
  E x = toE(a, w), y = toE(b, w);
  if ((op == OShl || op == OLShr || op == OAShr) && (w == 32 || w == 64) && !y->isConst()) y = mkAnd(y, mkConst(w - 1, w));
  return Val::sym(mkBin((Op)op, x, y));
}
static Val icmpV(unsigned pred, unsigned w, const Val &a, const Val &b) {
  if (a.conc() && b.conc()) {
    uint64_t x = a.c, y = b.c; int64_t sx = (int64_t)sext(x, w), sy = (int64_t)sext(y, w);
    switch (pred) {
    case CmpInst::ICMP_EQ: return x == y; case CmpInst::ICMP_NE: return x != y;
    case CmpInst::ICMP_ULT: return x < y; case CmpInst::ICMP_ULE: return x <= y; case CmpInst::ICMP_UGT: return x > y; case CmpInst::ICMP_UGE: return x >= y;
    case CmpInst::ICMP_SLT: return sx < sy; case CmpInst::ICMP_SLE: return sx <= sy; case CmpInst::ICMP_SGT: return sx > sy; default: return sx >= sy;
    }
  }
  E x = toE(a, w), y = toE(b, w), r;
  switch (pred) {
  case CmpInst::ICMP_EQ: r = mkEq(x, y); break; case CmpInst::ICMP_NE: r = mkNot(mkEq(x, y)); break;
  case CmpInst::ICMP_ULT: r = mkBin(OUlt, x, y); break; case CmpInst::ICMP_ULE: r = mkBin(OUle, x, y); break;
  case CmpInst::ICMP_UGT: r = mkBin(OUlt, y, x); break; case CmpInst::ICMP_UGE: r = mkBin(OUle, y, x); break;
  case CmpInst::ICMP_SLT: r = mkBin(OSlt, x, y); break; case CmpInst::ICMP_SLE: r = mkBin(OSle, x, y); break;
  case CmpInst::ICMP_SGT: r = mkBin(OSlt, y, x); break; default: r = mkBin(OSle, y, x); break;
  }
  return Val::sym(r);
}
static Val fcmpV(unsigned pred, unsigned w, const Val &a, const Val &b) {
  E x = toE(a, w), y = toE(b, w);
  E eq, lt, gt, un = nullptr, r;
  auto UN = [&]() { return mkBin(OFUno, x, y); };
  switch (pred) {
  case CmpInst::FCMP_OEQ: r = mkBin(OFEq, x, y); break;
  case CmpInst::FCMP_OGT: r = mkBin(OFLt, y, x); break;
  case CmpInst::FCMP_OGE: r = mkBin(OFLe, y, x); break;
  case CmpInst::FCMP_OLT: r = mkBin(OFLt, x, y); break;
  case CmpInst::FCMP_OLE: r = mkBin(OFLe, x, y); break;
  case CmpInst::FCMP_ONE: r = mkOr(mkBin(OFLt, x, y), mkBin(OFLt, y, x)); break;
  case CmpInst::FCMP_ORD: r = mkNot(UN()); break;
  case CmpInst::FCMP_UNO: r = UN(); break;
  case CmpInst::FCMP_UEQ: r = mkOr(UN(), mkBin(OFEq, x, y)); break;
  case CmpInst::FCMP_UGT: r = mkNot(mkBin(OFLe, x, y)); break;
  case CmpInst::FCMP_UGE: r = mkNot(mkBin(OFLt, x, y)); break;
  case CmpInst::FCMP_ULT: r = mkNot(mkBin(OFLe, y, x)); break;
  case CmpInst::FCMP_ULE: r = mkNot(mkBin(OFLt, y, x)); break;
  case CmpInst::FCMP_UNE: r = mkNot(mkBin(OFEq, x, y)); break;
  case CmpInst::FCMP_TRUE: r = mkBool(true); break;
  default: r = mkBool(false); break;
  }
  return Val::sym(r);
}
static Val castV(unsigned k, unsigned sw, unsigned dw, const Val &a) {
  if (a.conc() && sw <= 64 && dw <= 64) {
    switch (k) {
    case CZExt: case CBit: return Val(dw < 64 ? a.c & ((1ull << dw) - 1) : a.c);
    case CTrunc: return Val(dw < 64 ? a.c & ((1ull << dw) - 1) : a.c);
    case CSExt: return Val((uint64_t)((u128)sext(a.c, sw) & maskw(dw)));
    default: break;
    }
  }
  E x = toE(a, sw);
  switch (k) {
  case CZExt: return Val::sym(mkZExtOrTrunc(x, dw));
  case CSExt: return Val::sym(mkSExt(x, dw));
  case CTrunc: return Val::sym(mkExtract(x, 0, dw));
  case CFExt: return Val::sym(mkFCvt(x, dw));
  case CSI2F: return Val::sym(mkIToFP(true, x, dw));
  case CUI2F: return Val::sym(mkIToFP(false, x, dw));
  case CF2SI: return Val::sym(mkFPToI(true, x, dw));
  case CF2UI: return Val::sym(mkFPToI(false, x, dw));
  default: return Val::sym(x);
  }
}

static bool doIntrinsic(State *s, Ins &I, const std::string &n, std::vector<Val> &a, Val &r, bool &handled);
static void endPath(State *s, const char *why);

static bool memCopy(State *s, uint64_t d, uint64_t sr, uint64_t n) {
  if (!n) return true;
  Content *cs, *cd; uint64_t os, od; std::string err;
  if (!concAccess(s, sr, n, false, &cs, &os, &err)) { fault(s, "memory", "copy: " + err, s->model); return false; }
  if (!concAccess(s, d, n, true, &cd, &od, &err)) { fault(s, "memory", "copy: " + err, s->model); return false; }
  cs = s->mem.get(findObj(sr));
  memmove(cd->b + od, cs->b + os, n);
  bool ssym = cs->s && cs->nsym;
  if (!ssym && !(cd->s && cd->nsym)) return true;
  if (!cd->s) cd->s = (SymB *)calloc(cd->size ? cd->size : 1, sizeof(SymB));
  std::vector<SymB> tmp(n, SymB{nullptr, 0});
  if (ssym) memcpy(tmp.data(), cs->s + os, n * sizeof(SymB));
  for (uint64_t i = 0; i < n; i++) {
    SymB &t = cd->s[od + i];
    if (t.e && !tmp[i].e) cd->nsym--;
    if (!t.e && tmp[i].e) cd->nsym++;
    t = tmp[i];
  }
  return true;
}

static void callFn(State *s, Ins &I, Fn *fn, std::vector<Val> &args, bool &alive);

// execute one instruction.  false: state no longer runnable here
static bool step(State *s) {
  Frame *f = &s->top();
  Ins &I = f->fn->blks[f->blk].ins[f->ip];
  nInstr++; s->steps++;
  auto O = [&](unsigned i) -> Val { return getV(*f, I.op[i]); };
  switch (I.k) {
  case IBin: {
    Val a = O(0), b = O(1);
    if (I.sub == OUDiv || I.sub == OSDiv || I.sub == OURem || I.sub == OSRem) {
      if (b.conc()) { if (b.c == 0) { fault(s, "divzero", "integer division by zero", s->model); kill(s); return false; } }
      else {
        E z = mkEq(b.e, mkConst(0, b.e->w)); Split sp = feasible(s, z);
        if (sp.t) { fault(s, "divzero", "integer division by zero", sp.mt); if (!sp.f) { kill(s); return false; } }
        addPC(s, mkNot(z)); s->model = sp.mf;
      }
    }
    Val r = binV(s, I.sub, I.w, a, b);
    setR(s, I.dst, r); s->st.back()->ip++;
    return true;
  }
  case IICmp: setR(s, I.dst, icmpV(I.sub, I.w2, O(0), O(1))); s->st.back()->ip++; return true;
  case IFCmp: setR(s, I.dst, fcmpV(I.sub, I.w2, O(0), O(1))); s->st.back()->ip++; return true;
  case IFNeg: setR(s, I.dst, Val::sym(mkFNeg(toE(O(0), I.w)))); s->st.back()->ip++; return true;
  case ICast: setR(s, I.dst, castV(I.sub, I.w2, I.w, O(0))); s->st.back()->ip++; return true;
  case IMove: setR(s, I.dst, O(0)); s->st.back()->ip++; return true;
  case INop: f->ip++; return true;
  case IAlloca: {
    uint64_t n = concretize(s, O(0), 64) * I.imm[0];
    f = &s->top();
    uint32_t id = newObj(n, KStack, "stack:" + f->fn->name, I.imm[1]);
    s->mem.set(id, new Content(n, 0xCD));
    f->allocas.push_back(id);
    setR(s, I.dst, Val(objs[id].addr)); f->ip++;
    return true;
  }
  case ILoad: {
    Val v;
    if (!memReadTy(s, O(0), I.ty, v)) { kill(s); return false; }
    setR(s, I.dst, v); s->st.back()->ip++;
    return true;
  }
  case IStore:
    if (!memWriteTy(s, O(1), O(0), I.ty)) { kill(s); return false; }
    s->top().ip++;
    return true;
  case IGep: {
    Val b = O(0); uint64_t off = I.imm.back();
    E se = nullptr; 
    for (size_t i = 1; i < I.op.size(); i++) {
      Val x = O(i); uint64_t sc = I.imm[2 * (i - 1)]; unsigned w = (unsigned)I.imm[2 * (i - 1) + 1];
      if (x.conc()) off += (uint64_t)(int64_t)sext(x.c, w) * sc;
      else { E t = mkBin(OMul, mkSExt(x.e, 64), mkConst(sc, 64)); se = se ? mkBin(OAdd, se, t) : t; }
    }
    Val r;
    if (!se && b.conc()) r = Val(b.c + off);
    else { E t = mkBin(OAdd, toE(b, 64), mkConst(off, 64)); if (se) t = mkBin(OAdd, t, se); r = Val::sym(t); }
    setR(s, I.dst, r); s->st.back()->ip++;
    return true;
  }
  case ISelect: {
    Val c = O(0), a = O(1), b = O(2);
    if (c.issym()) { int kb = knownBool(s, c.e); if (kb >= 0) c = Val((uint64_t)kb); }
    if (c.conc()) setR(s, I.dst, c.c & 1 ? a : b);
    else setR(s, I.dst, iteV(c.e, a, b, I.w));
    s->st.back()->ip++;
    return true;
  }
  case IBr: return gotoBlk(s, (int)I.imm[0]);
  case ICondBr: {
    Val c = O(0);
    if (c.conc()) return gotoBlk(s, (int)I.imm[!(c.c & 1)]);
    Split sp = feasible(s, c.e);
    if (sp.t && sp.f) {
      ensureGroup(s);
      State *o = cloneState(s);
      addPC(o, mkNot(c.e)); o->model = sp.mf;
      addPC(s, c.e); s->model = sp.mt;
      if (I.op[0].reg >= 0) { o->top().r[I.op[0].reg] = Val(0); s->top().r[I.op[0].reg] = Val(1); }
      if (gotoBlk(o, (int)I.imm[1])) work.push_back(o);
      return gotoBlk(s, (int)I.imm[0]);
    }
    if (sp.t) return gotoBlk(s, (int)I.imm[0]);
    return gotoBlk(s, (int)I.imm[1]);
  }
  case ISwitch: {
    Val c = O(0);
    if (c.issym()) { auto it = s->known.find(c.e); if (it != s->known.end()) c = Val(it->second); }
    if (c.conc()) {
      for (size_t i = 1; i < I.imm.size(); i += 2) if (I.imm[i] == c.c) return gotoBlk(s, (int)I.imm[i + 1]);
      return gotoBlk(s, (int)I.imm[0]);
    }
    // group cases by destination
    std::map<int, E> dest; E def = mkBool(true); int dd = (int)I.imm[0];
    for (size_t i = 1; i < I.imm.size(); i += 2) {
      E q = mkEq(c.e, mkConst(I.imm[i], I.w2)); int d = (int)I.imm[i + 1];
      def = mkAnd(def, mkNot(q));
      if (d == dd) continue;
      auto it = dest.find(d); if (it == dest.end()) dest[d] = q; else it->second = mkOr(it->second, q);
    }
    if (dest.count(dd) == 0) { E other = mkBool(true); for (auto &d : dest) other = mkAnd(other, mkNot(d.second)); dest[dd] = other; }
    struct B { int d; E c; ModelP m; }; std::vector<B> fs;
    for (auto &d : dest) {
      if (d.second->isFalse()) continue;
      ModelP m; Res q = mayBeTrue(s->pc, d.second, s->model, &m);
      if (q == SAT) fs.push_back({d.first, d.second, m});
      if (q == UNKNOWN) { nUnknown++; inconcl["solver: switch"] = "1"; }
    }
    if (fs.empty()) { kill(s); return false; }
    if (fs.size() > 1) ensureGroup(s);
    std::vector<State *> ss = {s};
    for (size_t i = 1; i < fs.size(); i++) ss.push_back(cloneState(s));
    for (size_t i = 0; i < fs.size(); i++) { addPC(ss[i], fs[i].c); ss[i]->model = fs[i].m; }
    for (size_t i = 1; i < fs.size(); i++) if (gotoBlk(ss[i], fs[i].d)) work.push_back(ss[i]);
    return gotoBlk(s, fs[0].d);
  }
  case IRet: {
    Val v; bool hv = !I.op.empty(); if (hv) v = O(0);
    Ins *ci = f->call;
    popFrame(s);
    if (s->st.empty()) { endPath(s, "return"); return false; }
    if (!ci) { return true; }
    if (hv && ci->dst >= 0) setR(s, ci->dst, v);
    if (ci->k == IInvoke) return gotoBlk(s, (int)ci->imm[0]);
    s->top().ip++;
    return true;
  }
  case IUnreach: fault(s, "unreachable", "reached an unreachable point", s->model); kill(s); return false;
  case ICall: case IInvoke: {
    std::vector<Val> args;
    for (size_t i = 0; i + 1 < I.op.size(); i++) args.push_back(O(i));
    Fn *fn = I.callee;
    if (!fn) {
      Val t = getV(*f, I.op.back());
      uint64_t a = concretize(s, t, 64);
      auto it = fnAt.find(a);
      if (it == fnAt.end()) { fault(s, "memory", "call through an invalid function pointer", s->model); kill(s); return false; }
      fn = it->second;
    }
    bool alive = true;
    callFn(s, I, fn, args, alive);
    return alive;
  }
  case IResume: {
    Val v = O(0); uint64_t obj = v.a()->v[0].c;
    // continue unwinding from the caller
    popFrame(s);
    int t = s->st.empty() ? 0 : doThrow(s, obj);
    if (t == 1) return true;
    if (t == 0) kill(s);
    return false;
  }
  case ILandingPad: f->ip++; return true;   // value was set by the unwinder
  case IExtractV: { Val v = O(0); for (uint64_t i : I.imm) { if (!v.isAgg()) { unsupported("extractvalue of non-aggregate"); kill(s); return false; } v = v.a()->v[i]; } setR(s, I.dst, v); s->st.back()->ip++; return true; }
  case IInsertV: {
    Val v = O(0);
    Agg *a = new Agg(*v.a()); Agg *cur = a;
    for (size_t i = 0; i + 1 < I.imm.size(); i++) { Agg *n = new Agg(*cur->v[I.imm[i]].a()); cur->v[I.imm[i]] = Val::agg(n); cur = n; }
    cur->v[I.imm.back()] = O(1);
    setR(s, I.dst, Val::agg(a)); s->st.back()->ip++; return true;
  }
  case IRMW: {
    Val old; if (!memReadTy(s, O(0), I.ty, old)) { kill(s); return false; }
    Val nv;
    switch (I.sub) { case AtomicRMWInst::Add: nv = binV(s, OAdd, I.w, old, O(1)); break; case AtomicRMWInst::Sub: nv = binV(s, OSub, I.w, old, O(1)); break; case AtomicRMWInst::Xchg: nv = O(1); break; default: unsupported("atomicrmw"); kill(s); return false; }
    if (!memWriteTy(s, O(0), nv, I.ty)) { kill(s); return false; }
    setR(s, I.dst, old); s->st.back()->ip++; return true;
  }
  default: {
    std::string t; raw_string_ostream os(t); I.src->print(os);
    unsupported("instruction in " + dem(f->fn->name) + ": " + t.substr(0, 120)); kill(s); return false;
  }
  }
}

static void afterCall(State *s, Ins &I, const Val &r, bool hasRet, bool &alive) {
  if (I.dst >= 0 && hasRet) setR(s, I.dst, r);
  if (I.k == IInvoke) alive = gotoBlk(s, (int)I.imm[0]);
  else s->top().ip++;
}
static std::map<std::string, int> undefd;
static void callFn(State *s, Ins &I, Fn *fn, std::vector<Val> &args, bool &alive) {
  Val r;
  if (fn->bi) {
    bool ok = (*fn->bi)(s, I, args, r);
    if (!ok) { alive = false; return; }
    afterCall(s, I, r, true, alive);
    return;
  }
  if (fn->name.compare(0, 5, "llvm.") == 0) {
    bool handled = false;
    bool ok = doIntrinsic(s, I, fn->name, args, r, handled);
    if (!handled) { unsupported("intrinsic " + fn->name); kill(s); alive = false; return; }
    if (!ok) { alive = false; return; }
    afterCall(s, I, r, true, alive);
    return;
  }
  if (!fn->defined) {
    unsupported("undefined function " + fn->name + " [" + dem(fn->name) + "] called from " + (s->st.empty() ? "?" : dem(s->st.back()->fn->name)));
    kill(s); alive = false; return;
  }
  if (s->st.size() > 400) { fault(s, "stack", "call depth exceeds 400", s->model); kill(s); alive = false; return; }
  pushFrame(s, fn, args, &I);
}

static std::string fmtVal(u128 v, unsigned w, bool isF) {
  return hex128(v & maskw(w));
}
static void endPath(State *s, const char *why) {
  nPaths++;
  if (!opt("notrace", 0)) {
    Trace t; t.model = modelOut(s, s->model); t.end = why;
    for (auto &o : s->obs) t.obs.push_back({o.name, fmtVal(o.v.conc() ? (u128)o.v.c : evalExpr(o.v.e, *s->model), o.w, o.isF)});
    traceSeen++;
    if (traces.size() < 12) traces.push_back(t);
    else { uint64_t j = rng() % traceSeen; if (j < 12) traces[j] = t; }
  }
  kill(s);
}

// ================================================================== intrinsics & builtins
static u128 cval(const Val &v) { return v.e ? v.e->val : (u128)v.c; }
static bool isC(const Val &v) { return v.conc() || (v.issym() && v.e->isConst()); }

static bool doIntrinsic(State *s, Ins &I, const std::string &n, std::vector<Val> &a, Val &r, bool &handled) {
  handled = true;
  auto has = [&](const char *p) { return n.compare(0, strlen(p), p) == 0; };
  unsigned w = I.w;
  if (has("llvm.memcpy") || has("llvm.memmove")) {
    uint64_t n = concretize(s, a[2], 64); uint64_t d = concretize(s, a[0], 64), sr = concretize(s, a[1], 64);
    if (!memCopy(s, d, sr, n)) { kill(s); return false; }
    return true;
  }
  if (has("llvm.memset")) {
    uint64_t n = concretize(s, a[2], 64), d = concretize(s, a[0], 64);
    if (!n) return true;
    Content *c; uint64_t off; std::string err;
    if (!concAccess(s, d, n, true, &c, &off, &err)) { fault(s, "memory", "memset: " + err, s->model); kill(s); return false; }
    if (a[1].conc()) { memset(c->b + off, (int)a[1].c, n); if (c->s) for (uint64_t i = 0; i < n; i++) if (c->s[off + i].e) { c->s[off + i].e = nullptr; c->nsym--; } }
    else for (uint64_t i = 0; i < n; i++) wrObj(c, off + i, a[1], 1, 8);
    return true;
  }
  auto mm = [&](bool sg, bool mx) {
    Val c = icmpV(sg ? (mx ? CmpInst::ICMP_SGT : CmpInst::ICMP_SLT) : (mx ? CmpInst::ICMP_UGT : CmpInst::ICMP_ULT), w, a[0], a[1]);
    r = c.conc() ? (c.c ? a[0] : a[1]) : iteV(c.e, a[0], a[1], w);
  };
  if (has("llvm.smax")) { mm(true, true); return true; }
  if (has("llvm.smin")) { mm(true, false); return true; }
  if (has("llvm.umax")) { mm(false, true); return true; }
  if (has("llvm.umin")) { mm(false, false); return true; }
  if (has("llvm.abs.")) { Val neg = binV(s, OSub, w, Val::sym(mkConst(0, w)), a[0]); Val c = icmpV(CmpInst::ICMP_SLT, w, a[0], Val::sym(mkConst(0, w))); r = c.conc() ? (c.c ? neg : a[0]) : iteV(c.e, neg, a[0], w); return true; }
  if (has("llvm.bswap")) { E x = toE(a[0], w), q = nullptr; for (unsigned i = 0; i < w; i += 8) { E b = mkExtract(x, i, 8); q = q ? mkConcat(q, b) : b; } r = Val::sym(q); return true; }
  if (has("llvm.bitreverse")) { E x = toE(a[0], w), q = nullptr; for (unsigned i = 0; i < w; i++) { E b = mkExtract(x, i, 1); q = q ? mkConcat(q, b) : b; } r = Val::sym(q); return true; }
  if (has("llvm.ctpop")) { E x = toE(a[0], w), q = mkConst(0, w); if (x->isConst()) { r = Val::sym(mkConst(__builtin_popcountll((uint64_t)x->val) + __builtin_popcountll((uint64_t)(x->val >> 64)), w)); return true; } for (unsigned i = 0; i < w; i++) q = mkBin(OAdd, q, mkZExt(mkExtract(x, i, 1), w)); r = Val::sym(q); return true; }
  if (has("llvm.ctlz") || has("llvm.cttz")) { bool lz = has("llvm.ctlz"); E x = toE(a[0], w), q = mkConst(w, w); for (unsigned i = 0; i < w; i++) { unsigned bit = lz ? i : w - 1 - i; q = mkIte(mkExtract(x, bit, 1), mkConst(w - 1 - i, w), q); } r = Val::sym(q); return true; }
  if (has("llvm.fshl") || has("llvm.fshr")) {
    E x = toE(a[0], w), y = toE(a[1], w), z = mkBin(OURem, toE(a[2], w), mkConst(w, w));
    if (2 * w <= 128) { E cc = mkConcat(x, y), zz = mkZExt(z, 2 * w); r = Val::sym(has("llvm.fshl") ? mkExtract(mkBin(OShl, cc, zz), w, w) : mkExtract(mkBin(OLShr, cc, zz), 0, w)); return true; }
  }
  if (n.find(".with.overflow.") != std::string::npos) {
    unsigned ow = cast<IntegerType>(cast<StructType>(I.ty)->getElementType(0))->getBitWidth();
    bool sg = has("llvm.s"); Op op = n.find("add") != std::string::npos ? OAdd : n.find("sub") != std::string::npos ? OSub : OMul;
    E x = toE(a[0], ow), y = toE(a[1], ow); unsigned xw = std::min(128u, ow * 2);
    E wx = sg ? mkSExt(x, xw) : mkZExt(x, xw), wy = sg ? mkSExt(y, xw) : mkZExt(y, xw);
    E wr = mkBin(op, wx, wy), lo = mkExtract(wr, 0, ow); E back = sg ? mkSExt(lo, xw) : mkZExt(lo, xw);
    Agg *g = new Agg(); g->v = {Val::sym(lo), Val::sym(mkNot(mkEq(wr, back)))}; r = Val::agg(g); return true;
  }
  if (has("llvm.usub.sat")) { Val c = icmpV(CmpInst::ICMP_UGT, w, a[0], a[1]); Val d = binV(s, OSub, w, a[0], a[1]); r = c.conc() ? (c.c ? d : Val(0)) : iteV(c.e, d, Val(0), w); return true; }
  if (has("llvm.uadd.sat")) { E x = toE(a[0], w), y = toE(a[1], w), q = mkBin(OAdd, x, y); r = Val::sym(mkIte(mkBin(OUlt, q, x), mkConst(maskw(w), w), q)); return true; }
  if (has("llvm.expect")) { r = a[0]; return true; }
  if (has("llvm.is.constant")) { r = Val(0); return true; }
  if (has("llvm.objectsize")) { r = Val::sym(mkConst(a[1].c ? 0 : maskw(w), w)); return true; }
  if (has("llvm.fabs")) { r = Val::sym(mkFAbs(toE(a[0], w))); return true; }
  if (has("llvm.floor")) { r = Val::sym(mkFRnd(RFloor, toE(a[0], w))); return true; }
  if (has("llvm.ceil")) { r = Val::sym(mkFRnd(RCeil, toE(a[0], w))); return true; }
  if (has("llvm.trunc.")) { r = Val::sym(mkFRnd(RTrunc, toE(a[0], w))); return true; }
  if (has("llvm.rint") || has("llvm.nearbyint") || has("llvm.roundeven")) { r = Val::sym(mkFRnd(RRint, toE(a[0], w))); return true; }
  if (has("llvm.round.")) { r = Val::sym(mkFRnd(RRound, toE(a[0], w))); return true; }
  if (has("llvm.sqrt")) { r = Val::sym(mkFSqrt(toE(a[0], w))); return true; }
  if (has("llvm.fmuladd")) { r = Val::sym(mkBin(OFAdd, mkBin(OFMul, toE(a[0], w), toE(a[1], w)), toE(a[2], w))); return true; }
  if (has("llvm.copysign")) { E x = toE(a[0], w), y = toE(a[1], w); r = Val::sym(mkConcat(mkExtract(y, w - 1, 1), mkExtract(x, 0, w - 1))); return true; }
  if (has("llvm.maxnum") || has("llvm.minnum")) { E x = toE(a[0], w), y = toE(a[1], w); E c = has("llvm.maxnum") ? mkBin(OFLt, x, y) : mkBin(OFLt, y, x); c = mkOr(c, mkBin(OFUno, x, x)); r = Val::sym(mkIte(c, y, x)); return true; }
  if (has("llvm.is.fpclass")) {
    unsigned m = (unsigned)a[1].c; unsigned xw = 64; xw = a[0].issym() ? a[0].e->w : tyW(cast<CallBase>(I.src)->getArgOperand(0)->getType());
    E x = toE(a[0], xw), q = mkBool(false); E ax = mkFAbs(x); E inf = mkConst(ldToBits(INFINITY, xw), xw);
    if (m & 3) q = mkOr(q, mkBin(OFUno, x, x));
    if ((m & 0x204) == 0x204) q = mkOr(q, mkBin(OFEq, ax, inf)); else if (m & 0x204) { handled = false; return false; }
    unsigned fin = m & 0x1f8; if (fin == 0x1f8) q = mkOr(q, mkAnd(mkNot(mkBin(OFUno, x, x)), mkNot(mkBin(OFEq, ax, inf)))); else if (fin) { handled = false; return false; }
    r = Val::sym(q); return true;
  }
  if (has("llvm.eh.typeid.for")) { r = Val((uint64_t)tyId(a[0].c)); return true; }
  if (has("llvm.stacksave") || has("llvm.stackrestore")) { r = Val(0); return true; }
  if (has("llvm.trap")) { fault(s, "abort", "trap", s->model); kill(s); return false; }
  if (has("llvm.ptrmask")) { r = binV(s, OAnd, 64, a[0], a[1]); return true; }
  for (auto fnm : {"sin", "cos", "exp2", "exp", "log10", "log2", "log", "pow"}) {
    std::string p = std::string("llvm.") + fnm + ".f";
    if (has(p.c_str())) { if (w != 64) { handled = false; return false; } r = Val::sym(mkUF(ufId(fnm), 64, toE(a[0], 64), a.size() > 1 ? toE(a[1], 64) : nullptr)); return true; }
  }
  if (has("llvm.ldexp")) { if (a[1].conc() && w == 64) { int e = (int32_t)a[1].c; if (e > -1000 && e < 1000) { r = Val::sym(mkBin(OFMul, toE(a[0], 64), mkConst(ldToBits(ldexpl(1, e), 64), 64))); return true; } } }
  handled = false;
  return false;
}

static uint64_t doAlloc(State *s, uint64_t n, const char *nm) {
  std::string w = nm;
  for (int i = (int)s->st.size() - 1; i >= 0; i--) if (s->st[i]->fn->name.find("gpstk") != std::string::npos) { w += " in " + dem(s->st[i]->fn->name).substr(0, 80); break; }
  uint32_t id = newObj(n, KHeap, w);
  s->mem.set(id, new Content(n, 0xCD));
  return objs[id].addr;
}
static std::string symName(State *s, uint64_t p) {
  std::string n = rdStr(s, p);
  int k = s->names[n]++;
  return k ? n + "#" + std::to_string(k) : n;
}
static std::string fmtNative(State *s, const std::string &fmt, std::vector<Val> &a, size_t ai, bool &symb) {
  std::string out; symb = false;
  for (size_t i = 0; i < fmt.size(); i++) {
    if (fmt[i] != '%') { out += fmt[i]; continue; }
    std::string sp = "%"; i++;
    while (i < fmt.size() && !isalpha(fmt[i]) && fmt[i] != '%') {
      if (fmt[i] == '*') { int v = ai < a.size() ? (int)(int32_t)concretize(s, a[ai++], 32) : 0; sp += std::to_string(v); i++; }
      else sp += fmt[i++];
    }
    std::string len; while (i < fmt.size() && strchr("hlLqjzt", fmt[i])) len += fmt[i++];
    char c = i < fmt.size() ? fmt[i] : 0;
    if (c == '%') { out += '%'; continue; }
    if (ai >= a.size()) break;
    Val v = a[ai++]; char buf[512]; buf[0] = 0;
    if (c == 's') { uint64_t p = concretize(s, v, 64); std::string str = rdStr(s, p); snprintf(buf, sizeof buf, (sp + "s").c_str(), str.c_str()); out += buf; continue; }
    u128 x; if (isC(v)) x = cval(v); else { x = evalExpr(v.e, *s->model); symb = true; }
    if (strchr("diuxXoc", c)) {
      bool isl = len.find('l') != std::string::npos || len == "z" || len == "j" || len == "t";
      if (c == 'c') snprintf(buf, sizeof buf, (sp + "c").c_str(), (int)x);
      else if (isl) snprintf(buf, sizeof buf, (sp + "l" + c).c_str(), (long)(uint64_t)x);
      else { int xi = (int)(uint32_t)x; if (len == "h") xi = c == 'd' || c == 'i' ? (short)xi : (unsigned short)xi; if (len == "hh") xi = c == 'd' || c == 'i' ? (signed char)xi : (unsigned char)xi; snprintf(buf, sizeof buf, (sp + c).c_str(), xi); }
    } else if (strchr("eEfFgGaA", c)) {
      if (len == "L") snprintf(buf, sizeof buf, (sp + "L" + c).c_str(), bitsToLD(x, 80));
      else snprintf(buf, sizeof buf, (sp + c).c_str(), bitsToD(x, 64));
    } else if (c == 'p') snprintf(buf, sizeof buf, "0x%llx", (unsigned long long)x);
    out += buf;
  }
  return out;
}
static bool writeBytes(State *s, uint64_t p, const void *d, size_t n) {
  if (!n) return true;
  Content *c; uint64_t off; std::string err;
  if (!concAccess(s, p, n, true, &c, &off, &err)) { fault(s, "memory", err, s->model); return false; }
  for (size_t i = 0; i < n; i++) wrObj(c, off + i, Val((uint64_t)((const uint8_t *)d)[i]), 1, 8);
  return true;
}

static void setupBuiltins() {
#define BI(nm) builtins[nm] = [](State * s, Ins & I, std::vector<Val> & a, Val & r) -> bool
  auto alloc = [](const char *k) { return Builtin([k](State *s, Ins &I, std::vector<Val> &a, Val &r) -> bool {
    uint64_t n = concretize(s, a[0], 64);
    if (n > (1ull << 28)) { unsupported("huge allocation"); kill(s); return false; }
    r = Val(doAlloc(s, n, k)); return true; }); };
  for (auto n : {"malloc", "_Znwm", "_Znam", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t", "__cxa_allocate_exception"}) builtins[n] = alloc(n);
  for (auto n : {"llabs", "labs", "abs"}) BI(n) { int w = I.w; Val neg = binV(s, OSub, w, Val::sym(mkConst(0, w)), a[0]), c = icmpV(CmpInst::ICMP_SLT, w, a[0], Val::sym(mkConst(0, w))); r = c.conc() ? (c.c ? neg : a[0]) : iteV(c.e, neg, a[0], w); return true; };
  BI("calloc") { uint64_t n = concretize(s, a[0], 64) * concretize(s, a[1], 64); uint64_t p = doAlloc(s, n, "calloc"); if (n) memset(s->mem.getW(findObj(p))->b, 0, n); r = Val(p); return true; };
  auto dealloc = Builtin([](State *s, Ins &I, std::vector<Val> &a, Val &r) -> bool {
    uint64_t p = concretize(s, a[0], 64); if (!p) return true;
    uint32_t id = findObj(p);
    if (!id || objs[id].addr != p || objs[id].kind != KHeap || !s->mem.get(id)) { fault(s, "memory", "invalid or double free", s->model); kill(s); return false; }
    freeObj(s, id); return true; });
  for (auto n : {"free", "_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "__cxa_free_exception"}) builtins[n] = dealloc;
  BI("realloc") {
    uint64_t p = concretize(s, a[0], 64), n = concretize(s, a[1], 64); uint64_t q = doAlloc(s, n, "realloc");
    if (p) { uint32_t id = findObj(p); memCopy(s, q, p, std::min<uint64_t>(n, objs[id].size)); freeObj(s, id); } r = Val(q); return true; };
  auto mcpy = Builtin([](State *s, Ins &I, std::vector<Val> &a, Val &r) -> bool {
    uint64_t n = concretize(s, a[2], 64), d = concretize(s, a[0], 64), sr = concretize(s, a[1], 64);
    if (!memCopy(s, d, sr, n)) { kill(s); return false; } r = Val(d); return true; });
  builtins["memcpy"] = builtins["memmove"] = mcpy;
  BI("memset") { bool h; std::vector<Val> b = {a[0], Val(0), a[2]}; b[1] = castV(CTrunc, 32, 8, a[1]); bool ok = doIntrinsic(s, I, "llvm.memset", b, r, h); r = a[0]; return ok; };
  auto mcmp = Builtin([](State *s, Ins &I, std::vector<Val> &a, Val &r) -> bool {
    uint64_t n = concretize(s, a[2], 64), x = concretize(s, a[0], 64), y = concretize(s, a[1], 64);
    E res = mkConst(0, 32);
    for (uint64_t i = n; i-- > 0;) {
      Val p, q;
      if (!memRead(s, Val(x + i), 1, 8, p) || !memRead(s, Val(y + i), 1, 8, q)) { kill(s); return false; }
      if (p.conc() && q.conc()) { if (p.c != q.c) res = mkConst(p.c < q.c ? (u128)0xffffffffu : 1, 32); continue; }
      E pe = toE(p, 8), qe = toE(q, 8);
      res = mkIte(mkEq(pe, qe), res, mkIte(mkBin(OUlt, pe, qe), mkConst(0xffffffffu, 32), mkConst(1, 32)));
    }
    r = Val::sym(res); return true; });
  builtins["memcmp"] = builtins["bcmp"] = mcmp;
  // exceptions
  BI("__cxa_throw") {
    s->exc[a[0].c] = {a[1].c, a[0].c};
    int t = doThrow(s, a[0].c);
    if (t == 1) work.push_back(s); else if (t == 0) kill(s);
    return false; };
  BI("__cxa_rethrow") {
    if (s->caught.empty()) { fault(s, "terminate", "rethrow without exception", s->model); kill(s); return false; }
    uint64_t o = s->caught.back().first;
    int t = doThrow(s, o);
    if (t == 1) work.push_back(s); else if (t == 0) kill(s);
    return false; };
  BI("__cxa_begin_catch") { uint64_t o = a[0].c; s->caught.push_back({o, 0}); r = Val(s->exc.count(o) ? s->exc[o].second : o); return true; };
  BI("__cxa_end_catch") { if (!s->caught.empty()) s->caught.pop_back(); return true; };
  BI("__cxa_get_exception_ptr") { uint64_t o = a[0].c; r = Val(s->exc[o].second); return true; };
  auto term = [](const char *k) { return Builtin([k](State *s, Ins &I, std::vector<Val> &a, Val &r) -> bool { fault(s, "terminate", k, s->model); kill(s); return false; }); };
  for (auto n : {"_ZSt9terminatev", "abort", "__cxa_call_unexpected", "__cxa_pure_virtual", "__assert_fail", "exit", "_exit", "__stack_chk_fail", "__cxa_bad_cast", "_ZSt16__throw_bad_castv", "__cxa_throw_bad_array_new_length", "_ZSt28__throw_bad_array_new_lengthv", "_ZSt17__throw_bad_allocv"}) builtins[n] = term(n);
  BI("__cxa_guard_acquire") { Val v; if (!memRead(s, a[0], 1, 8, v)) { kill(s); return false; } r = Val(v.conc() && v.c ? 0 : 1); return true; };
  BI("__cxa_guard_release") { memWrite(s, a[0], Val(1), 1, 8); return true; };
  BI("__cxa_guard_abort") { return true; };
  auto zero = Builtin([](State *s, Ins &I, std::vector<Val> &a, Val &r) -> bool { r = Val(0); return true; });
  for (auto n : {"__cxa_atexit", "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev", "getenv", "puts", "printf", "fprintf", "putchar", "fflush", "fputs", "fwrite", "_ZSt18uncaught_exceptionv", "_ZSt19uncaught_exceptionsv", "__gthread_active_p", "pthread_mutex_lock", "pthread_mutex_unlock"}) builtins[n] = zero;
  BI("__dynamic_cast") {
    uint64_t p = concretize(s, a[0], 64); if (!p) { r = Val(0); return true; }
    uint64_t vt = rd64(s, p); int64_t top = (int64_t)rd64(s, vt - 16); uint64_t full = p + top; uint64_t ti = rd64(s, vt - 8);
    uint64_t o = full; if (upcast(s, ti, a[2].c, o)) r = Val(o); else r = Val(0); return true; };
  // libm
  auto rndb = [](unsigned k) { return Builtin([k](State *s, Ins &I, std::vector<Val> &a, Val &r) -> bool { r = Val::sym(mkFRnd(k, toE(a[0], I.w))); return true; }); };
  for (auto sfx : {"", "f", "l"}) {
    std::string x = sfx;
    builtins["floor" + x] = rndb(RFloor); builtins["ceil" + x] = rndb(RCeil); builtins["trunc" + x] = rndb(RTrunc); builtins["rint" + x] = rndb(RRint); builtins["nearbyint" + x] = rndb(RRint); builtins["round" + x] = rndb(RRound);
    BI("fabs" + x) { r = Val::sym(mkFAbs(toE(a[0], I.w))); return true; };
    BI("sqrt" + x) { r = Val::sym(mkFSqrt(toE(a[0], I.w))); return true; };
    BI("fmod" + x) { r = Val::sym(mkBin(OFRem, toE(a[0], I.w), toE(a[1], I.w))); return true; };
    auto lr = [](unsigned k, unsigned w) { return Builtin([k, w](State *s, Ins &I, std::vector<Val> &a, Val &r) -> bool { r = Val::sym(mkFPToI(true, mkFRnd(k, toE(a[0], w)), 64)); return true; }); };
    unsigned w = x == "f" ? 32 : x == "l" ? 80 : 64;
    builtins["lround" + x] = builtins["llround" + x] = lr(RRound, w); builtins["lrint" + x] = builtins["llrint" + x] = lr(RRint, w);
  }
  for (auto nm : {"sin", "cos", "tan", "asin", "acos", "atan", "atan2", "exp", "log", "log10", "pow", "sinh", "cosh", "tanh", "hypot", "cbrt", "log2", "exp2", "erf", "erfc", "lgamma", "tgamma", "log1p", "expm1"}) {
    std::string n = nm;
    builtins[n] = [n](State *s, Ins &I, std::vector<Val> &a, Val &r) -> bool { r = Val::sym(mkUF(ufId(n), 64, toE(a[0], 64), a.size() > 1 ? toE(a[1], 64) : nullptr)); return true; };
  }
  BI("ldexp") { Val e = a[1]; int x = (int32_t)concretize(s, e, 32); if (x < -1000 || x > 1000) { unsupported("ldexp range"); kill(s); return false; } r = Val::sym(mkBin(OFMul, toE(a[0], 64), mkConst(ldToBits(ldexpl(1, x), 64), 64))); return true; };
  builtins["scalbn"] = builtins["ldexp"];
  BI("frexp") { if (!isC(a[0])) { unsupported("frexp symbolic"); kill(s); return false; } int e; double d = frexp(bitsToD(cval(a[0]), 64), &e); r = Val((uint64_t)ldToBits(d, 64)); memWrite(s, a[1], Val((uint64_t)(uint32_t)e), 4, 32); return true; };
  BI("snprintf") { bool sy; uint64_t n = concretize(s, a[1], 64), d = concretize(s, a[0], 64), fp = concretize(s, a[2], 64); std::string t = fmtNative(s, rdStr(s, fp), a, 3, sy); if (sy && !opt("opaquefmt", 1)) unsupported("snprintf of symbolic value"); if (n) { std::string u = t.substr(0, n - 1); u.push_back(0); if (!writeBytes(s, d, u.data(), u.size())) { kill(s); return false; } } r = Val(t.size()); return true; };
  BI("sprintf") { bool sy; uint64_t d = concretize(s, a[0], 64), fp = concretize(s, a[1], 64); std::string t = fmtNative(s, rdStr(s, fp), a, 2, sy); if (sy && !opt("opaquefmt", 1)) unsupported("sprintf of symbolic value"); std::string u = t; u.push_back(0); if (!writeBytes(s, d, u.data(), u.size())) { kill(s); return false; } r = Val(t.size()); return true; };
  BI("strtod") {
    uint64_t p = concretize(s, a[0], 64); // concrete text only
    for (uint64_t q = p;; q++) { Val v; if (!memRead(s, Val(q), 1, 8, v)) { kill(s); return false; } if (v.issym()) { unsupported("strtod of symbolic text"); kill(s); return false; } if (!v.c) break; }
    std::string t = rdStr(s, p); char *e; double d = strtod(t.c_str(), &e); r = Val((uint64_t)ldToBits(d, 64)); if (a[1].c) memWrite(s, a[1], Val(p + (e - t.c_str())), 8, 64); return true; };
  BI("atof") { uint64_t p = concretize(s, a[0], 64); for (uint64_t q = p;; q++) { Val v; if (!memRead(s, Val(q), 1, 8, v)) { kill(s); return false; } if (v.issym()) { unsupported("atof of symbolic text"); kill(s); return false; } if (!v.c) break; } r = Val((uint64_t)ldToBits(atof(rdStr(s, p).c_str()), 64)); return true; };
  // formatting hooks used by the runtime library:  size_t symx_fmt_d(char*buf, const char*spec, double, bool*sym)
  BI("symx_fmt_f64") { bool sy = a[2].issym(); uint64_t fp = concretize(s, a[1], 64); u128 x = sy ? evalExpr(a[2].e, *s->model) : a[2].c; int pr = (int32_t)concretize(s, a[3], 32); char buf[512]; int n = snprintf(buf, sizeof buf, rdStr(s, fp).c_str(), pr, bitsToD(x, 64)); if (sy) n = snprintf(buf, sizeof buf, "?"); if (!writeBytes(s, a[0].c, buf, n + 1)) { kill(s); return false; } r = Val((uint64_t)n); return true; };
  BI("symx_is_sym") { r = Val(a[0].issym() ? 1 : 0); return true; };
  BI("symx_is_sym_f64") { r = Val(a[0].issym() ? 1 : 0); return true; };
  // ---- harness interface
  BI("symx_u64") { unsigned w = (unsigned)a[1].c; E v = mkVar(symName(s, a[0].c), w); r = Val::sym(mkZExt(v, 64)); return true; };
  BI("symx_s64") { unsigned w = (unsigned)a[1].c; E v = mkVar(symName(s, a[0].c), w); r = Val::sym(mkSExt(v, 64)); return true; };
  BI("symx_f64") { E v = mkVar(symName(s, a[0].c), 64); r = Val::sym(v); return true; };
  BI("symx_bytes") { uint64_t p = a[0].c, n = a[1].c; std::string nm = symName(s, a[2].c); for (uint64_t i = 0; i < n; i++) if (!memWrite(s, Val(p + i), Val::sym(mkVar(nm + "[" + std::to_string(i) + "]", 8)), 1, 8)) { kill(s); return false; } return true; };
  BI("symx_assume") {
    Val c = a[0];
    if (c.conc()) { if (!(c.c & 1)) { nKilled++; kill(s); return false; } return true; }
    E e = c.e->w == 1 ? c.e : mkNot(mkEq(c.e, mkConst(0, c.e->w)));
    ModelP m; Res q = mayBeTrue(s->pc, e, s->model, &m);
    if (q == SAT) { addPC(s, e); s->model = m; return true; }
    if (q == UNKNOWN) { nUnknown++; inconcl["solver: assumption"] = "1"; }
    nKilled++; kill(s); return false; };
  BI("symx_assert") {
    std::string id = rdStr(s, concretize(s, a[1], 64)); Val c = a[0];
    reached[id]++;
    if (c.conc()) { if (!(c.c & 1)) report(s, id, "assert", "assertion fails", s->model); return true; }
    E e = c.e->w == 1 ? c.e : mkNot(mkEq(c.e, mkConst(0, c.e->w)));
    int kb = knownBool(s, e); if (kb == 1) return true;
    if (violIds.count(id)) return true;
    ModelP m; Res q = mayBeTrue(s->pc, mkNot(e), s->model, &m);
    if (q == SAT) report(s, id, "assert", "assertion fails", m);
    else if (q == UNKNOWN) { nUnknown++; inconcl["solver: assertion " + id + " undecided"] = "1"; }
    else { s->known[e] = 1; }
    return true; };
  BI("symx_cover") { covers[rdStr(s, a[0].c)]++; return true; };
  BI("symx_observe") { s->obs.push_back({rdStr(s, a[0].c), a[1], 64, false}); return true; };
  BI("symx_observe_f64") { s->obs.push_back({rdStr(s, a[0].c), a[1], 64, true}); return true; };
  BI("symx_opt") { opts[rdStr(s, a[0].c)] = (long)a[1].c; return true; };
  BI("symx_getopt") { r = Val((uint64_t)opt(rdStr(s, a[0].c).c_str(), (long)a[1].c)); return true; };
  BI("symx_concretize") { r = Val(concretize(s, a[0], 64)); return true; };
  BI("symx_native") { r = Val(0); return true; };
  BI("symx_ite_u64") { Val c = a[0]; if (c.conc()) r = (c.c & 1) ? a[1] : a[2]; else { E e = c.e->w == 1 ? c.e : mkNot(mkEq(c.e, mkConst(0, c.e->w))); r = iteV(e, a[1], a[2], 64); } return true; };
  BI("symx_and") { E x = toE(a[0], 1), y = toE(a[1], 1); r = Val::sym(mkAnd(x, y)); return true; };
  BI("symx_or") { E x = toE(a[0], 1), y = toE(a[1], 1); r = Val::sym(mkOr(x, y)); return true; };
  BI("symx_print") { if (getenv("SYMX_PRINT")) fprintf(stderr, "[print] %s = %s\n", rdStr(s, a[0].c).c_str(), a[1].conc() ? hex128(a[1].c).c_str() : exprStr(a[1].e, 12).c_str()); return true; };
  BI("symx_end") { endPath(s, "end"); return false; };
}

// ================================================================== driver
static std::string js(const std::string &s) {
  std::string o = "\"";
  for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += c; }
  return o + "\"";
}
static void runLoop() {
  uint64_t cnt = 0;
  size_t maxStates = (size_t)opt("maxstates", 200000);
  while (!work.empty()) {
    State *s = work.back(); work.pop_back();
    while (step(s)) {
      if ((++cnt & 0xfff) == 0) {
        if (deadline && now() > deadline) { timedOut = true; }
        if (timedOut) break;
      }
    }
    if (timedOut) { inconcl["time limit reached"] = "1"; return; }
    if ((++cnt & 0xff) == 0 && deadline && now() > deadline) { timedOut = true; inconcl["time limit reached"] = "1"; return; }
    if (work.size() > maxStates) { inconcl["state limit reached"] = "1"; return; }
    if (getenv("SYMX_PROGRESS") && (cnt & 0x3ff) < 2) fprintf(stderr, "[%.1fs] work=%zu paths=%llu instr=%llu forks=%llu merges=%llu refused=%llu queries=%llu (%.1fs) exprs=%llu\n", now() - startT, work.size(), (unsigned long long)nPaths, (unsigned long long)nInstr, (unsigned long long)nForks, (unsigned long long)nMerges, (unsigned long long)nMergeRefused, (unsigned long long)gSS.queries, gSS.time, (unsigned long long)exprCount());
  }
}

static void writeOut(const std::string &path, const std::string &entry, double wall) {
  std::ofstream f(path);
  f << "{\"entry\":" << js(entry) << ",\"paths\":" << nPaths << ",\"infeasible\":" << nKilled << ",\"forks\":" << nForks << ",\"merges\":" << nMerges << ",\"merge_refused\":" << nMergeRefused
    << ",\"instructions\":" << nInstr << ",\"wall\":" << wall << ",\"unknown\":" << nUnknown << ",\"exprs\":" << exprCount()
    << ",\"solver\":{\"queries\":" << gSS.queries << ",\"sat\":" << gSS.sat << ",\"unsat\":" << gSS.unsat << ",\"unknown\":" << gSS.unknown << ",\"cache_hits\":" << gSS.cacheHits << ",\"model_hits\":" << gSS.modelHits
    << ",\"arith\":" << gSS.arith << ",\"portfolio\":" << gSS.portfolio << ",\"time\":" << gSS.time << ",\"max\":" << gSS.maxTime << "}";
  f << ",\"inconclusive\":["; bool c = false; for (auto &x : inconcl) { f << (c ? "," : "") << js(x.first); c = true; } f << "]";
  f << ",\"reached\":{"; c = false; for (auto &x : reached) { f << (c ? "," : "") << js(x.first) << ":" << x.second; c = true; } f << "}";
  f << ",\"covers\":{"; c = false; for (auto &x : covers) { f << (c ? "," : "") << js(x.first) << ":" << x.second; c = true; } f << "}";
  f << ",\"functions\":["; c = false; for (auto &x : fnEncoded) { std::string d = dem(x); if (d.find("gpstk") == std::string::npos || d.compare(0, 5, "std::") == 0 || d.find("__gnu_cxx") == 0) continue; f << (c ? "," : "") << js(d); c = true; } f << "]";
  auto mm = [&](const std::map<std::string, std::string> &m) { std::string o = "{"; bool q = false; for (auto &x : m) { o += (q ? "," : "") + js(x.first) + ":" + js(x.second); q = true; } return o + "}"; };
  f << ",\"violations\":["; c = false;
  for (auto &v : violations) { f << (c ? "," : "") << "{\"id\":" << js(v.id) << ",\"kind\":" << js(v.kind) << ",\"msg\":" << js(v.msg) << ",\"stack\":["; bool q = false; for (auto &x : v.stack) { f << (q ? "," : "") << js(x); q = true; } f << "],\"model\":" << mm(v.model) << "}"; c = true; }
  f << "],\"traces\":["; c = false;
  for (auto &t : traces) { f << (c ? "," : "") << "{\"model\":" << mm(t.model) << ",\"obs\":["; bool q = false; for (auto &o : t.obs) { f << (q ? "," : "") << "[" << js(o.first) << "," << js(o.second) << "]"; q = true; } f << "]}"; c = true; }
  f << "]}\n";
}

static std::string gOutPath, gEntry;
static void onAlarm(int) {       // hard limit: the current step or query did not return
  static int n = 0;
  if (n++) _exit(3);
  alarm(10);
  inconcl["time limit reached"] = "1";
  writeOut(gOutPath, gEntry, now() - startT);
  _exit(0);
}
int main(int argc, char **argv) {
  // deep recursion in expression walks: run with a large stack
  if (!getenv("SYMX_STACK")) {
    struct rlimit rl; getrlimit(RLIMIT_STACK, &rl);
    rlim_t want = 4ull << 30;
    if (rl.rlim_max != RLIM_INFINITY && rl.rlim_max < want) want = rl.rlim_max;
    rl.rlim_cur = want; setrlimit(RLIMIT_STACK, &rl);
    setenv("SYMX_STACK", "1", 1);
    execv("/proc/self/exe", argv);
  }
  std::string file, outdir = "."; std::vector<std::string> entries; int jobs = 1; double timeout = 600; bool list = false;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto val = [&]() { return std::string(argv[++i]); };
    if (a == "--out") outdir = val();
    else if (a == "--jobs") jobs = std::stoi(val());
    else if (a == "--timeout") timeout = std::stod(val());
    else if (a == "--query-timeout") gQueryTimeout = std::stod(val());
    else if (a == "--portfolio-timeout") gPortfolioTimeout = std::stod(val());
    else if (a == "--fpmode") gFPMode = std::stoi(val());
    else if (a == "--dump") gDumpDir = val();
    else if (a == "--list") list = true;
    else if (a == "--opt") { std::string kv = val(); size_t p = kv.find('='); opts[kv.substr(0, p)] = std::stol(kv.substr(p + 1)); }
    else if (file.empty()) file = a;
    else entries.push_back(a);
  }
  ctx = new LLVMContext(); SMDiagnostic err;
  mod = parseIRFile(file, err, *ctx);
  if (!mod) { err.print("symx", errs()); return 2; }
  DL = &mod->getDataLayout();
  setupBuiltins();
  for (auto &f : *mod) getFn(&f);
  if (list) { for (auto &f : *mod) if (f.getName().starts_with("check_") && !f.isDeclaration()) printf("%s\n", f.getName().str().c_str()); return 0; }
  State *s0 = new State(); s0->id = nextState++;
  { auto m = std::make_shared<Model>(); m->uid = newModelUid(); s0->model = m; }
  for (auto &g : mod->globals()) if (!gaddr.count(&g)) allocGlobal(&g);
  auto ga = [&](const char *n) -> uint64_t { if (auto *g = mod->getNamedGlobal(n)) return gaddr[g]; return ~0ull; };
  vt_si = ga("_ZTVN10__cxxabiv120__si_class_type_infoE"); vt_class = ga("_ZTVN10__cxxabiv117__class_type_infoE"); vt_vmi = ga("_ZTVN10__cxxabiv121__vmi_class_type_infoE"); vt_ptr = ga("_ZTVN10__cxxabiv119__pointer_type_infoE");
  for (auto &g : mod->globals()) {
    uint32_t id = findObj(gaddr[&g]);
    Content *c = new Content(objs[id].size, 0);
    if (!g.isDeclaration()) initMem(c, 0, g.getInitializer());
    objs[id].ro = g.isConstant();
    s0->mem.set(id, c);
  }
  startT = now();
  // static constructors
  std::vector<std::pair<uint32_t, const Function *>> ctors;
  if (auto *gc = mod->getNamedGlobal("llvm.global_ctors")) if (gc->hasInitializer()) if (auto *ca = dyn_cast<ConstantArray>(gc->getInitializer()))
    for (auto &o : ca->operands()) { auto *st = cast<ConstantStruct>(o); if (auto *f = dyn_cast<Function>(st->getOperand(1)->stripPointerCasts())) ctors.push_back({(uint32_t)cast<ConstantInt>(st->getOperand(0))->getZExtValue(), f}); }
  std::stable_sort(ctors.begin(), ctors.end(), [](auto &a, auto &b) { return a.first < b.first; });
  for (auto &c : ctors) {
    std::vector<Val> no;
    pushFrame(s0, getFn(c.second), no, nullptr);
    // run until that frame is gone
    size_t depth = s0->st.size();
    bool ok = true;
    while (true) {
      const Frame &f = *s0->st.back();
      if (s0->st.size() == depth && f.fn->blks[f.blk].ins[f.ip].k == IRet) { for (uint32_t id : f.allocas) freeObj(s0, id); s0->st.pop_back(); break; }
      ok = step(s0);
      if (!ok) { if (!work.empty() && work.back() == s0) { work.pop_back(); continue; } break; }
    }
    if (!ok || !violations.empty()) {
      fprintf(stderr, "symx: static initialisation failed in %s\n", c.second->getName().str().c_str());
      for (auto &v : violations) { fprintf(stderr, "  %s %s\n", v.id.c_str(), v.msg.c_str()); for (auto &b : v.stack) fprintf(stderr, "     %s\n", b.c_str()); }
      for (auto &x : inconcl) fprintf(stderr, "  %s\n", x.first.c_str());
      return 2;
    }
  }
  double initT = now() - startT;
  if (getenv("SYMX_PROGRESS")) fprintf(stderr, "init %.2fs %llu instr\n", initT, (unsigned long long)nInstr);
  fnEncoded.clear(); for (auto &f : fnOf) f.second->calls = 0;
  nInstr = 0;
  std::map<pid_t, std::string> kids; size_t next = 0; int bad = 0;
  while (next < entries.size() || !kids.empty()) {
    while (next < entries.size() && (int)kids.size() < jobs) {
      std::string en = entries[next++];
      fflush(stdout); fflush(stderr);
      pid_t p = (jobs == 1 && entries.size() == 1) ? 0 : fork();
      if (p == 0) {
        Function *f = mod->getFunction(en);
        if (!f || f->isDeclaration()) { fprintf(stderr, "no entry %s\n", en.c_str()); _exit(2); }
        startT = now(); deadline = startT + timeout;
        gOutPath = outdir + "/" + en + ".json"; gEntry = en;
        signal(SIGALRM, onAlarm); alarm((unsigned)timeout + 15);
        std::vector<Val> no;
        pushFrame(s0, getFn(f), no, nullptr);
        work.push_back(s0);
        runLoop();
        writeOut(outdir + "/" + en + ".json", en, now() - startT);
        fflush(stderr);
        _exit(0);
      }
      kids[p] = en;
    }
    int st; pid_t p = wait(&st);
    if (p > 0) { if (!WIFEXITED(st) || WEXITSTATUS(st)) { bad++; fprintf(stderr, "symx: entry %s ended abnormally (status %d)\n", kids[p].c_str(), st); } kids.erase(p); }
  }
  return bad ? 2 : 0;
}
