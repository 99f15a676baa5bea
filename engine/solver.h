#pragma once
#include <string>
#include <vector>
#include "expr.h"

namespace sx {
enum class Res { Sat, Unsat, Unknown };

struct SolverStats {
  uint64_t queries = 0, cacheHits = 0, modelHits = 0, z3 = 0, z3int = 0, sat = 0, unsat = 0, unknown = 0;
  double time = 0, maxTime = 0;
};
extern SolverStats gSolverStats;
extern double gDeadline;     // end of the run (steady clock, seconds; 0: none)
extern double gHardTimeout;  // seconds, for the final attempt of one query
extern std::string gDumpDir;

// Is (constraints && extra) satisfiable? On Sat, model gets values for the variables
// involved (other entries keep their value).
Res solve(const std::vector<E>& constraints, E extra, Model* model);
}  // namespace sx
