// bsym - solver front end: slicing, caches, incremental z3, forked portfolio (fresh z3 tactic, kissat, cvc5).
#pragma once
#include "expr.h"
#include <unordered_set>
enum Res { R_UNSAT = 0, R_SAT = 1, R_UNKNOWN = 2 };
struct SolverStats {
  uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, modelHits = 0, z3Calls = 0, heavy = 0, fpQueries = 0, own = 0, ownCalls = 0, ownUnsat = 0, xcheck = 0, cuts = 0, disagree = 0;
  double time = 0, heavyTime = 0;
};
extern SolverStats gSS;
extern double gHeavyTimeout; // seconds
extern bool gFpUF;           // abstract FP arithmetic as uninterpreted functions first
extern std::string gTmpDir;
void solverInit();
// Is  /\ cs /\ extra  satisfiable? base = a model known to satisfy cs (used to complete the model). Model returned in *out if sat.
Res solverCheck(const std::vector<Expr*>& cs, Expr* extra, const Model& base, Model* out, bool heavy = true);
