#pragma once
#include "expr.h"
#include <map>
enum Res { R_UNSAT, R_SAT, R_UNKNOWN };
struct SolverStats {
  uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, modelHits = 0, external = 0, relaxed = 0, finite = 0;
  double time = 0, maxTime = 0;
};
extern SolverStats gSS;
extern unsigned gTimeoutMs;      // in-process budget
extern unsigned gExtTimeoutS;    // external portfolio budget
extern std::string gDumpDir;
void solverInit();
// Is PC /\ cond satisfiable?  On R_SAT 'out' (seeded with the current model) is
// updated on the variables of the relevant slice.
Res solveQuery(const std::vector<Expr*>& pc, Expr* cond, Model* out);
Res relaxQuery(const std::vector<Expr*>& sel, unsigned timeoutMs, std::vector<std::pair<uint32_t, u128>>* cand);
bool searchModel(const std::vector<Expr*>& sel, std::vector<std::pair<uint32_t, u128>>* cand, double budget);
