#include <sys/prctl.h>
#include "solver.h"
#include "arith.h"
#include "gf2.h"
#include "order.h"
#include <z3++.h>
#include <chrono>
#include <cstring>
#include <fstream>
#include <sstream>
#include <algorithm>
#include <map>
#include <set>
#include <unistd.h>
#include <sys/wait.h>
#include <signal.h>
#include <fcntl.h>
#include <poll.h>
#include <unordered_set>

SolverStats gSS;
double gQueryTimeout = 8, gPortfolioTimeout = 120;
int gFPMode = 1;
std::string gDumpDir;

static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

struct Tr {
  z3::context c;
  std::unordered_map<uint32_t, z3::expr> bv, bo, fp;
  std::vector<z3::func_decl> uf;
  z3::sort fpSort(unsigned w) { return w == 32 ? c.fpa_sort(8, 24) : w == 64 ? c.fpa_sort(11, 53) : c.fpa_sort(15, 64); }
  z3::expr rm(int k) {
    Z3_ast a = k == RFloor ? Z3_mk_fpa_rtn(c) : k == RCeil ? Z3_mk_fpa_rtp(c) : k == RTrunc ? Z3_mk_fpa_rtz(c) : k == RRint ? Z3_mk_fpa_rne(c) : Z3_mk_fpa_rna(c);
    return z3::expr(c, a);
  }
  z3::expr num(u128 v, unsigned w) {
    if (w <= 64) return c.bv_val((uint64_t)v, w);
    return z3::concat(c.bv_val((uint64_t)(v >> 64), w - 64), c.bv_val((uint64_t)v, 64));
  }
  z3::expr bvToFp(const z3::expr &b, unsigned w) {
    if (w == 80) { z3::expr x = z3::concat(b.extract(79, 64), b.extract(62, 0)); return z3::expr(c, Z3_mk_fpa_to_fp_bv(c, x, fpSort(80))); }
    return z3::expr(c, Z3_mk_fpa_to_fp_bv(c, b, fpSort(w)));
  }
  z3::expr fpToBv(const z3::expr &f, unsigned w) {
    z3::expr b(c, Z3_mk_fpa_to_ieee_bv(c, f));
    if (w == 80) {
      z3::expr ib = z3::ite(b.extract(77, 63) != c.bv_val(0, 15), c.bv_val(1, 1), c.bv_val(0, 1));
      return z3::concat(z3::concat(b.extract(78, 63), ib), b.extract(62, 0));
    }
    return b;
  }
  z3::expr toFP(E e) {
    auto it = fp.find(e->id);
    if (it != fp.end()) return it->second;
    z3::expr r = toFP1(e);
    fp.emplace(e->id, r);
    return r;
  }
  z3::expr mk(Z3_ast a) { c.check_error(); return z3::expr(c, a); }
  z3::expr toFP1(E e) {
    unsigned w = e->w;
    z3::expr rne = rm(RRint);
    switch (e->op) {
    case OFAdd: return mk(Z3_mk_fpa_add(c, rne, toFP(e->k[0]), toFP(e->k[1])));
    case OFSub: return mk(Z3_mk_fpa_sub(c, rne, toFP(e->k[0]), toFP(e->k[1])));
    case OFMul: return mk(Z3_mk_fpa_mul(c, rne, toFP(e->k[0]), toFP(e->k[1])));
    case OFDiv: return mk(Z3_mk_fpa_div(c, rne, toFP(e->k[0]), toFP(e->k[1])));
    case OFSqrt: return mk(Z3_mk_fpa_sqrt(c, rne, toFP(e->k[0])));
    case OFRnd: return mk(Z3_mk_fpa_round_to_integral(c, rm((int)e->val), toFP(e->k[0])));
    case OFCvt: return mk(Z3_mk_fpa_to_fp_float(c, rne, toFP(e->k[0]), fpSort(w)));
    case OSIToFP: return mk(Z3_mk_fpa_to_fp_signed(c, rne, toBV(e->k[0]), fpSort(w)));
    case OUIToFP: return mk(Z3_mk_fpa_to_fp_unsigned(c, rne, toBV(e->k[0]), fpSort(w)));
    case OIte: return z3::ite(toBool(e->k[0]), toFP(e->k[1]), toFP(e->k[2]));
    case OAnd: if (e->k[1]->isConst() && e->k[1]->val == (maskw(w) >> 1)) return mk(Z3_mk_fpa_abs(c, toFP(e->k[0]))); break;
    case OXor: if (e->k[1]->isConst() && e->k[1]->val == ((u128)1 << (w - 1))) return mk(Z3_mk_fpa_neg(c, toFP(e->k[0]))); break;
    default: break;
    }
    return bvToFp(toBV(e), w);
  }
  z3::expr toBool(E e) {
    auto it = bo.find(e->id);
    if (it != bo.end()) return it->second;
    z3::expr r = toBool1(e);
    bo.emplace(e->id, r);
    return r;
  }
  z3::expr toBool1(E e) {
    switch (e->op) {
    case OConst: return c.bool_val(e->val != 0);
    case OEq: if (e->k[0]->w == 1) return toBool(e->k[0]) == toBool(e->k[1]); return toBV(e->k[0]) == toBV(e->k[1]);
    case OUlt: return z3::ult(toBV(e->k[0]), toBV(e->k[1]));
    case OUle: return z3::ule(toBV(e->k[0]), toBV(e->k[1]));
    case OSlt: return toBV(e->k[0]) < toBV(e->k[1]);
    case OSle: return toBV(e->k[0]) <= toBV(e->k[1]);
    case OAnd: return toBool(e->k[0]) && toBool(e->k[1]);
    case OOr: return toBool(e->k[0]) || toBool(e->k[1]);
    case OXor: return toBool(e->k[0]) != toBool(e->k[1]);
    case ONot: return !toBool(e->k[0]);
    case OIte: return z3::ite(toBool(e->k[0]), toBool(e->k[1]), toBool(e->k[2]));
    case OFEq: return mk(Z3_mk_fpa_eq(c, toFP(e->k[0]), toFP(e->k[1])));
    case OFLt: return mk(Z3_mk_fpa_lt(c, toFP(e->k[0]), toFP(e->k[1])));
    case OFLe: return mk(Z3_mk_fpa_leq(c, toFP(e->k[0]), toFP(e->k[1])));
    case OFUno: return mk(Z3_mk_fpa_is_nan(c, toFP(e->k[0]))) || mk(Z3_mk_fpa_is_nan(c, toFP(e->k[1])));
    default: return toBV(e) == c.bv_val(1, 1);
    }
  }
  z3::expr toBV(E e) {
    auto it = bv.find(e->id);
    if (it != bv.end()) return it->second;
    z3::expr r = toBV1(e);
    bv.emplace(e->id, r);
    return r;
  }
  z3::expr toBV1(E e) {
    unsigned w = e->w;
#define A toBV(e->k[0])
#define B toBV(e->k[1])
    switch (e->op) {
    case OConst: return num(e->val, w);
    case OVar: { char b[32]; snprintf(b, sizeof b, "v%u", (unsigned)e->val); return c.bv_const(b, w); }
    case OAdd: return A + B;
    case OSub: return A - B;
    case OMul: return A * B;
    case OUDiv: return z3::udiv(A, B);
    case OSDiv: return A / B;
    case OURem: return z3::urem(A, B);
    case OSRem: return z3::srem(A, B);
    case OShl: return z3::shl(A, B);
    case OLShr: return z3::lshr(A, B);
    case OAShr: return z3::ashr(A, B);
    case OAnd: if (w == 1) break; return A & B;
    case OOr: if (w == 1) break; return A | B;
    case OXor: if (w == 1) break; return A ^ B;
    case ONot: if (w == 1) break; return ~A;
    case OIte: if (w == 1) break; return z3::ite(toBool(e->k[0]), B, toBV(e->k[2]));
    case OExtract: return A.extract((unsigned)e->val + w - 1, (unsigned)e->val);
    case OConcat: if (e->k[0]->isFalse()) return z3::zext(B, e->k[0]->w); return z3::concat(A, B);
    case OSExt: return z3::sext(A, w - e->k[0]->w);
    case OFAdd: case OFSub: case OFMul: case OFDiv: case OFSqrt: case OFRnd: case OFCvt: case OSIToFP: case OUIToFP:
      return fpToBv(toFP(e), w);
    case OFPToSI: case OFPToUI: {
      z3::expr f = toFP(e->k[0]);
      unsigned kw = e->k[0]->w;
      unsigned iw = (e->op == OFPToSI && w <= 32) ? 32 : 64;
      long double lo = iw == 32 ? -2147483649.0L : -9223372036854775808.0L, hi = iw == 32 ? 2147483648.0L : 9223372036854775808.0L;
      bool uns = e->op == OFPToUI && w > 32;
      // bounds rounded into the source format
      z3::expr zlo = bvToFp(num(ldToBits(lo, kw), kw), kw), zhi = bvToFp(num(ldToBits(uns ? 18446744073709551616.0L : hi, kw), kw), kw);
      z3::expr inr = mk((iw == 32 && kw != 32) ? Z3_mk_fpa_gt(c, f, zlo) : Z3_mk_fpa_geq(c, f, zlo)) && mk(Z3_mk_fpa_lt(c, f, zhi));
      z3::expr bad = iw == 32 ? c.bv_val((uint64_t)0x80000000u, 32) : c.bv_val((uint64_t)0x8000000000000000ull, 64);
      z3::expr sv = mk(Z3_mk_fpa_to_sbv(c, rm(RTrunc), f, iw));
      if (uns) {
        z3::expr z63 = bvToFp(num(ldToBits(9223372036854775808.0L, kw), kw), kw);
        sv = z3::ite(mk(Z3_mk_fpa_lt(c, f, z63)), sv, mk(Z3_mk_fpa_to_ubv(c, rm(RTrunc), f, 64)));
      }
      z3::expr r = z3::ite(inr, sv, bad);
      if (w < iw) return r.extract(w - 1, 0);
      return r;
    }
    case OUF: case OFRem: {
      char nm[64]; z3::sort s = c.bv_sort(w);
      if (e->op == OUF) snprintf(nm, sizeof nm, "uf_%s_%u", gUFs[(size_t)e->val].c_str(), w); else snprintf(nm, sizeof nm, "uf_frem_%u", w);
      if (e->nk == 1) return c.function(nm, s, s)(A);
      return c.function(nm, s, s, s)(A, B);
    }
    default: break;
    }
    return z3::ite(toBool(e), c.bv_val(1, 1), c.bv_val(0, 1));
  }
};
static Tr *tr;

struct CacheEnt { Res r; std::unordered_map<uint32_t, u128> vals; };
static std::map<std::vector<uint32_t>, CacheEnt> cache;

static u128 parseBV(const std::string &s) {
  u128 v = 0;
  if (s.size() > 2 && s[0] == '#' && s[1] == 'x') { for (size_t i = 2; i < s.size(); i++) v = v * 16 + (isdigit(s[i]) ? s[i] - '0' : (tolower(s[i]) - 'a' + 10)); }
  else if (s.size() > 2 && s[1] == 'b') { for (size_t i = 2; i < s.size(); i++) v = v * 2 + (s[i] - '0'); }
  else for (char ch : s) if (isdigit(ch)) v = v * 10 + (ch - '0');
  return v;
}

// run external solvers concurrently on an SMT-LIB file
static Res portfolio(const std::string &smt, const std::string &dimacs, const VarSet *vs, std::unordered_map<uint32_t, u128> *vals, double timeout) {
  gSS.portfolio++;
  char dir[] = "/tmp/symxqXXXXXX";
  if (!mkdtemp(dir)) return UNKNOWN;
  std::string d = dir;
  { std::ofstream f(d + "/q.smt2"); f << smt; }
  bool cnf = !dimacs.empty();
  if (cnf) { std::ofstream f(d + "/q.cnf"); f << dimacs; }
  std::vector<std::vector<std::string>> cmds = {{"cvc5", "--produce-models", d + "/q.smt2"}, {"z3-new", d + "/q.smt2"}};
  if (cnf) cmds.push_back({"kissat", "-q", "-n", d + "/q.cnf"});
  std::vector<pid_t> pids(cmds.size(), 0);
  for (size_t i = 0; i < cmds.size(); i++) {
    pid_t p = fork(); if (!p) prctl(PR_SET_PDEATHSIG, SIGKILL);
    if (p == 0) {
      setpgid(0, 0);
      int fd = open((d + "/out" + std::to_string(i)).c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600);
      dup2(fd, 1); dup2(open("/dev/null", O_WRONLY), 2);
      std::vector<char *> av; for (auto &s : cmds[i]) av.push_back((char *)s.c_str()); av.push_back(nullptr);
      execvp(av[0], av.data()); _exit(127);
    }
    pids[i] = p;
  }
  double t0 = now(); Res r = UNKNOWN;
  while (r == UNKNOWN && now() - t0 < timeout) {
    bool any = false;
    for (size_t i = 0; i < pids.size(); i++) {
      if (!pids[i]) continue;
      any = true; int st;
      if (waitpid(pids[i], &st, WNOHANG) == pids[i]) {
        pids[i] = 0;
        std::ifstream f(d + "/out" + std::to_string(i)); std::string line; std::stringstream rest;
        while (std::getline(f, line)) {
          if (line == "unsat" || line == "s UNSATISFIABLE") { r = UNSAT; break; }
          if (line == "sat") { rest << f.rdbuf(); std::string txt = rest.str(); 
            // ((v1 #x..)(v2 ...))
            if (vals) for (uint32_t v : vs->v) {
              std::string key = "(v" + std::to_string(v) + " "; size_t p = txt.find(key);
              if (p == std::string::npos) continue;
              size_t q = p + key.size(), e = txt.find(')', q); std::string tok = txt.substr(q, e - q);
              if (tok.rfind("(_ bv", 0) == 0) tok = tok.substr(5, tok.find(' ', 5) - 5);
              (*vals)[v] = parseBV(tok);
            }
            r = SAT; break; }
        }
        if (r != UNKNOWN) break;
      }
    }
    if (!any) break;
    usleep(5000);
  }
  for (pid_t p : pids) if (p) { kill(-p, SIGKILL); kill(p, SIGKILL); waitpid(p, nullptr, 0); }
  for (auto n : {"/q.smt2", "/q.cnf", "/out0", "/out1", "/out2"}) unlink((d + n).c_str());
  rmdir(dir);
  return r;
}

static bool verify(const std::vector<E> &cs, const std::unordered_map<uint32_t, u128> &vals) {
  Model m; m.uid = newModelUid(); m.v.assign(gVars.size(), 0);
  for (auto &p : vals) m.v[p.first] = p.second;
  for (E c : cs) if (!evalExpr(c, m)) return false;
  return true;
}

static bool bigQuery(const std::vector<E> &cs, size_t limit) {
  std::unordered_set<E> seen; std::vector<E> st(cs);
  while (!st.empty()) { E e = st.back(); st.pop_back(); if (!seen.insert(e).second) continue; if (seen.size() > limit) return true; for (int i = 0; i < e->nk; i++) st.push_back(e->k[i]); }
  return false;
}
// Z3 in a child process that is ended when its time is up (Z3 does not always honour its own time limit)
static z3::check_result guardedCheck(z3::solver &s, z3::context &c, const VarSet *vs, std::unordered_map<uint32_t, u128> &mv, double timeout) {
  int fd[2]; if (pipe(fd)) return z3::unknown;
  pid_t p = fork();
  if (p == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL); close(fd[0]); std::string out;
    try {
      z3::check_result cr = s.check(); out = cr == z3::unsat ? "u" : cr == z3::sat ? "s" : "?";
      if (cr == z3::sat) { z3::model m = s.get_model(); for (uint32_t v : vs->v) { char b[32]; snprintf(b, sizeof b, "v%u", v); z3::expr x = m.eval(c.bv_const(b, gVars[v].w), true); out += std::to_string(v) + " " + Z3_get_numeral_string(c, x) + "\n"; } }
    } catch (...) { out = "?"; }
    out += "."; size_t o = 0; while (o < out.size()) { ssize_t k = write(fd[1], out.data() + o, out.size() - o); if (k <= 0) break; o += k; }
    _exit(0);
  }
  close(fd[1]); if (p < 0) { close(fd[0]); return z3::unknown; }
  std::string in; double t0 = now(); bool done = false;
  while (!done && now() - t0 < timeout) { struct pollfd pf = {fd[0], POLLIN, 0}; if (poll(&pf, 1, 200) > 0) { char b[4096]; ssize_t k = read(fd[0], b, sizeof b); if (k <= 0) done = true; else in.append(b, k); } }
  kill(p, SIGKILL); waitpid(p, nullptr, 0); close(fd[0]);
  if (in.empty() || in.back() != '.') return z3::unknown;
  if (in[0] == 'u') return z3::unsat;
  if (in[0] != 's') return z3::unknown;
  std::stringstream ss(in.substr(1, in.size() - 2)); uint32_t v; std::string num; while (ss >> v >> num) mv[v] = parseBV(num);
  return z3::sat;
}

Res solve(const std::vector<E> &cs0, std::unordered_map<uint32_t, u128> *vals) {
  std::vector<E> cs;
  for (E c : cs0) { if (c->isFalse()) return UNSAT; if (!c->isConst()) cs.push_back(c); }
  std::sort(cs.begin(), cs.end(), [](E a, E b) { return a->id < b->id; });
  cs.erase(std::unique(cs.begin(), cs.end()), cs.end());
  if (cs.empty()) return SAT;
  std::vector<uint32_t> key; for (E c : cs) key.push_back(c->id);
  auto it = cache.find(key);
  if (it != cache.end()) { gSS.cacheHits++; if (vals) for (auto &p : it->second.vals) (*vals)[p.first] = p.second; return it->second.r; }
  gSS.queries++;
  double t0 = now();
  { bool f = false; for (E &c : cs) { c = gf2Simplify(c); f |= c->isFalse(); } if (f) { gSS.unsat++; gSS.gf2++; gSS.time += now() - t0; cache[key] = CacheEnt{UNSAT, {}}; return UNSAT; }
    cs.erase(std::remove_if(cs.begin(), cs.end(), [](E c) { return c->isTrue(); }), cs.end()); if (cs.empty()) { cache[key] = CacheEnt{SAT, {}}; gSS.sat++; return SAT; } }
  const VarSet *vs = vsEmpty; bool fp = false, uf = false;
  for (E c : cs) { vs = vsUnion(vs, c->vs); fp |= c->hasFP(); uf |= c->hasUF(); }
  Res r = UNKNOWN; std::unordered_map<uint32_t, u128> mv;
  { r = orderDecide(cs, &mv); if (r == SAT) { for (uint32_t v : vs->v) mv.insert({v, 0}); if (!verify(cs, mv)) { r = UNKNOWN; mv.clear(); } } if (r != UNKNOWN) gSS.order++; }
  if (r == UNKNOWN && !fp) { r = gf2Decide(cs, &mv); if (r == SAT) { for (uint32_t v : vs->v) mv.insert({v, 0}); if (!verify(cs, mv)) { r = UNKNOWN; mv.clear(); } } if (r != UNKNOWN) gSS.gf2++; }
  if (r == UNKNOWN && ((fp && gFPMode == 1) || gFPMode == 2)) { gSS.arith++; r = arithSolve(cs, vs, &mv, gQueryTimeout); if (r == SAT && !verify(cs, mv)) { r = UNKNOWN; mv.clear(); } }
  if (r == UNKNOWN && !(fp && uf)) {
    if (!tr) tr = new Tr();
    z3::context &c = tr->c;
    try {
      z3::solver s = fp ? z3::solver(c, "QF_FPBV") : z3::solver(c, "QF_BV");
      z3::params p(c); p.set("timeout", (unsigned)(gQueryTimeout * 1000)); s.set(p);
      for (E e : cs) s.add(tr->toBool(e));
      bool big = bigQuery(cs, 150);
      z3::check_result cr = fp && gFPMode == 2 ? z3::unknown : big ? guardedCheck(s, c, vs, mv, gQueryTimeout * 1.1 + 1) : s.check();
      if (cr == z3::unsat) r = UNSAT;
      else if (cr == z3::sat) {
        r = SAT; if (!big) { z3::model m = s.get_model();
        for (uint32_t v : vs->v) {
          char b[32]; snprintf(b, sizeof b, "v%u", v);
          z3::expr x = m.eval(c.bv_const(b, gVars[v].w), true);
          mv[v] = parseBV(Z3_get_numeral_string(c, x));
        } }
        if (!verify(cs, mv)) { fprintf(stderr, "symx: solver model fails evaluation (%s)\n", fp ? "fp" : "bv"); r = UNKNOWN; mv.clear(); }
      }
      if (r == UNKNOWN && gPortfolioTimeout > 0) {
        std::string smt = s.to_smt2();
        std::string hdr = std::string("(set-option :produce-models true)\n(set-logic ") + (fp ? "QF_FPBV" : "QF_BV") + ")\n";
        size_t pos; while ((pos = smt.find("(set-info")) != std::string::npos) smt.erase(pos, smt.find('\n', pos) - pos);
        std::stringstream gv; gv << "\n(get-value ("; for (uint32_t v : vs->v) gv << " v" << v; gv << "))\n";
        for (uint32_t v : vs->v) { std::string dn = "declare-fun v" + std::to_string(v) + " "; if (smt.find(dn) == std::string::npos) hdr += "(" + dn + "() (_ BitVec " + std::to_string(gVars[v].w) + "))\n"; }
        std::string dm;
        if (!(fp && gFPMode == 2) && !bigQuery(cs, 20000)) try {
          z3::goal g(c); for (E e : cs) g.add(tr->toBool(e));
          z3::tactic t = z3::tactic(c, "simplify") & z3::tactic(c, "propagate-values") & z3::tactic(c, "fpa2bv") & z3::tactic(c, "simplify") & z3::tactic(c, "solve-eqs") & z3::tactic(c, "bit-blast") & z3::tactic(c, "simplify") & z3::tactic(c, "tseitin-cnf");
          z3::apply_result ar = t(g);
          if (ar.size() == 1) dm = ar[0].dimacs();
        } catch (z3::exception &) {}
        if (!gDumpDir.empty()) { static int n; std::ofstream(gDumpDir + "/q" + std::to_string(getpid()) + "_" + std::to_string(n++) + ".smt2") << hdr << smt << gv.str(); }
        r = portfolio(hdr + smt + gv.str(), dm, vs, &mv, gPortfolioTimeout);
        if (r == SAT && !verify(cs, mv)) { fprintf(stderr, "symx: portfolio model fails evaluation\n"); r = UNKNOWN; mv.clear(); }
      }
    } catch (z3::exception &ex) { fprintf(stderr, "symx: z3 exception %s\n", ex.msg()); r = UNKNOWN; }
  }
  double dt = now() - t0; gSS.time += dt; gSS.maxTime = std::max(gSS.maxTime, dt);
  if (r == SAT) gSS.sat++; else if (r == UNSAT) gSS.unsat++; else gSS.unknown++;
  if (getenv("SYMX_SLOW") && dt > atof(getenv("SYMX_SLOW"))) { fprintf(stderr, "symx: slow query %.2fs r=%d n=%zu:", dt, r, cs.size()); for (E e : cs) fprintf(stderr, "\n    %s", exprStr(e, 8).substr(0, 1500).c_str()); fprintf(stderr, "\n"); }
  cache[key] = CacheEnt{r, mv};
  if (vals) for (auto &p : mv) (*vals)[p.first] = p.second;
  return r;
}

std::vector<E> slice(const std::vector<E> &pc, E cond) {
  std::vector<E> out; std::vector<char> in(pc.size(), 0);
  const VarSet *vs = cond->vs; bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < pc.size(); i++)
      if (!in[i] && vsIntersects(pc[i]->vs, vs)) { in[i] = 1; vs = vsUnion(vs, pc[i]->vs); ch = true; out.push_back(pc[i]); }
  }
  return out;
}

Res mayBeTrue(const std::vector<E> &pc, E cond, const ModelP &m, ModelP *out) {
  if (cond->isConst()) { if (cond->val) { if (out) *out = m; return SAT; } return UNSAT; }
  if (evalExpr(cond, *m)) { gSS.modelHits++; if (out) *out = m; return SAT; }
  std::vector<E> cs = slice(pc, cond);
  cs.push_back(cond);
  std::unordered_map<uint32_t, u128> vals;
  Res r = solve(cs, &vals);
  if (r == SAT && out) {
    auto nm = std::make_shared<Model>(*m);
    nm->uid = newModelUid();
    nm->v.resize(gVars.size(), 0);
    for (auto &p : vals) nm->v[p.first] = p.second;
    *out = nm;
  }
  return r;
}
