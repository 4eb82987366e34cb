#pragma once
#include "solver.h"
// Sound relaxation of floating-point constraints into linear/nonlinear integer-real arithmetic.
// UNSAT is definitive; SAT carries a candidate that the caller must verify.
Res arithSolve(const std::vector<E> &cs, const VarSet *vs, std::unordered_map<uint32_t, u128> *vals, double timeout);
