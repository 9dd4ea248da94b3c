#pragma once
#include "expr.h"
struct SolverStats { uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, modelHits = 0; double secs = 0; };
extern SolverStats gSolver;
extern unsigned gSolverTimeoutMs;
enum class SatRes { SAT, UNSAT, UNKNOWN };
// satisfiability of the conjunction; when SAT and out!=null the values of all involved symbols are set in *out
SatRes solveConj(const std::vector<E>& cs, Assignment* out);
// from here on queries are limited by wall-clock time
void solverTimer();
