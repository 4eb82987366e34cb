#pragma once
#include "expr.h"
#include "solver.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/DataLayout.h>
#include <map>
#include <set>
#include <memory>
#include <functional>
#include <random>
#include <unordered_set>

struct Agg;
struct Val {
  E e; uint64_t c;
  Val() : e(nullptr), c(0) {}
  Val(uint64_t x) : e(nullptr), c(x) {}
  static Val sym(E x) { Val v; if (x->op == OConst && x->w <= 64) v.c = (uint64_t)x->val; else v.e = x; return v; }
  static Val agg(Agg *a) { Val v; v.e = (E)1; v.c = (uint64_t)a; return v; }
  bool isAgg() const { return e == (E)1; }
  bool conc() const { return e == nullptr; }
  bool issym() const { return (uintptr_t)e > 1; }
  Agg *a() const { return (Agg *)c; }
  bool operator==(const Val &o) const { return e == o.e && c == o.c; }
};
struct Agg { std::vector<Val> v; };

// ------------------------------------------------------------------ decoded code
struct Opnd { int reg; Val k; };
enum IK : uint8_t { IBin, IICmp, IFCmp, ICast, IAlloca, ILoad, IStore, IGep, ISelect, IBr, ICondBr, ISwitch, IRet, IUnreach, ICall, IInvoke,
  IResume, ILandingPad, IExtractV, IInsertV, IMove, IFNeg, IRMW, ICmpXchg, INop, IUnsup };
struct Fn;
typedef struct Exec ExecT;
struct Ins {
  IK k; uint8_t sub; uint16_t w; int dst; uint32_t w2;
  std::vector<Opnd> op;
  std::vector<uint64_t> imm;
  llvm::Type *ty = nullptr;
  const llvm::Instruction *src = nullptr;
  Fn *callee = nullptr;
};
struct PhiMove { int dst; unsigned w; Opnd o; llvm::Type *ty; };
struct Blk { std::vector<Ins> ins; std::vector<std::pair<int, std::vector<PhiMove>>> phis; int ipdom = -1; std::vector<bool> liveIn; const llvm::BasicBlock *bb; };
struct State;
typedef std::function<bool(State *, Ins &, std::vector<Val> &, Val &)> Builtin;   // false: state finished or restarted
struct Fn {
  const llvm::Function *f; std::string name; uint64_t addr; bool decoded = false; int nregs = 0;
  std::vector<Blk> blks; Builtin *bi = nullptr; bool defined = false; unsigned nargs = 0; uint64_t calls = 0;
  bool noMerge = false;
};

// ------------------------------------------------------------------ memory
struct SymB { E e; uint8_t idx; };
struct Content {
  int rc = 0;
  uint32_t size; uint32_t nsym = 0;
  uint8_t *b; SymB *s = nullptr;
  Content(uint32_t n, uint8_t fill) : size(n) { b = (uint8_t *)malloc(n + 1); memset(b, fill, n); }
  Content(const Content &o) : size(o.size), nsym(o.nsym) {
    b = (uint8_t *)malloc(size + 1); memcpy(b, o.b, size);
    if (o.s && nsym) { s = (SymB *)malloc(sizeof(SymB) * size); memcpy(s, o.s, sizeof(SymB) * size); }
  }
  ~Content() { free(b); free(s); }
};
struct Node { int rc = 0; int lvl; void *k[32]; };
struct Mem {      // persistent radix map  object id -> Content
  Node *root = nullptr;
  Mem() {}
  Mem(const Mem &o) : root(o.root) { if (root) root->rc++; }
  Mem &operator=(const Mem &o) { if (o.root) o.root->rc++; drop(root); root = o.root; return *this; }
  ~Mem() { drop(root); }
  static void drop(Node *n);
  Content *get(uint32_t id) const;
  Content *getW(uint32_t id);
  void set(uint32_t id, Content *c);     // c may be null
  static void diff(const Mem &a, const Mem &b, std::vector<uint32_t> &ids);
};
struct ObjInfo { uint64_t addr; uint64_t size; uint8_t kind; bool ro; std::string name; bool ext = false; };
enum { KGlobal, KHeap, KStack };

// ------------------------------------------------------------------ states
struct Frame {
  Fn *fn; int blk, ip, prev; std::vector<Val> r; std::vector<uint32_t> allocas; Ins *call; bool isCtor = false;
};
typedef std::shared_ptr<Frame> FrameP;
struct Group { int depth; Fn *fn; int blk; int live = 0; std::vector<State *> parked; uint32_t objMark; size_t obsMark; int id; };
typedef std::shared_ptr<Group> GroupP;
struct Obs { std::string name; Val v; unsigned w; bool isF; };
struct State {
  uint32_t id;
  std::vector<FrameP> st;
  Mem mem;
  std::vector<E> pc;
  std::unordered_set<uint32_t> pcIds;
  ModelP model;
  std::vector<GroupP> groups;
  std::unordered_map<E, uint64_t> known;
  std::vector<std::pair<uint64_t, uint64_t>> caught;      // exception ptr stack
  std::map<uint64_t, std::pair<uint64_t, uint64_t>> exc;  // ptr -> (typeinfo, adjusted ptr)
  std::map<std::string, int> names;
  std::vector<Obs> obs;
  uint64_t steps = 0; uint32_t forks = 0;
  Frame &top() { FrameP &p = st.back(); if (p.use_count() > 1) p = std::make_shared<Frame>(*p); return *p; }
};

struct Violation { std::string id, kind, msg; std::vector<std::string> stack; std::map<std::string, std::string> model; };
