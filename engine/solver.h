#pragma once
#include "expr.h"
#include <functional>

enum Res { SAT, UNSAT, UNKNOWN };

struct SolverStats {
  uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, modelHits = 0, arith = 0, portfolio = 0, gf2 = 0, order = 0;
  double time = 0, maxTime = 0;
};
extern SolverStats gSS;
extern double gQueryTimeout;      // seconds for the in-process solver
extern double gPortfolioTimeout;  // seconds for the external portfolio
extern int gFPMode;               // 0 = bit-precise first, 1 = arithmetic relaxation first
extern std::string gDumpDir;

// Satisfiability of the conjunction.  On SAT, fills vals for the variables in the constraints.
Res solve(const std::vector<E> &cs, std::unordered_map<uint32_t, u128> *vals);

// Constraints of pc that (transitively) share variables with cond.
std::vector<E> slice(const std::vector<E> &pc, E cond);

// Is pc && cond satisfiable, knowing that m |= pc ?  Fills *out with a model of pc && cond.
Res mayBeTrue(const std::vector<E> &pc, E cond, const ModelP &m, ModelP *out);
