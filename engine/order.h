#pragma once
#include "solver.h"
// Difference logic with small boolean structure: decides conjunctions whose atoms compare variables (plus constants) with each other
// or with constants; constraints of other
// kinds are left out, so UNSAT is final and a SAT model has to be checked against all constraints by the caller.
Res orderDecide(const std::vector<E> &cs, std::unordered_map<uint32_t, u128> *vals);
