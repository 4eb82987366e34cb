#pragma once
#include "expr.h"
#include "solver.h"
// Simplifies a boolean expression over xor networks; returns the expression itself when nothing is gained.
E gf2Simplify(E e);
// Gaussian elimination over the linear constraints of a conjunction: UNSAT, SAT with a candidate model, or UNKNOWN.
Res gf2Decide(const std::vector<E> &cs, std::unordered_map<uint32_t, u128> *vals);
