#pragma once
#include "expr.h"
#include <vector>
#include <string>
struct SolverStats { u64 queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, modelHits = 0; double seconds = 0; };
extern SolverStats gSolver;
enum Res { R_UNSAT = 0, R_SAT = 1, R_UNKNOWN = 2 };
// Decide satisfiability of the conjunction; on SAT `out` receives values for the symbols that occur.
// A shorter time limit than the configured one can be given; an undecided answer is then not remembered.
Res solveConj(const std::vector<Expr *> &conj, std::vector<std::pair<u32, u64>> *out, unsigned timeout_ms = 0);
void solverInit(unsigned timeout_ms, const char *dumpDir, unsigned dumpMax);
std::string solverVersion();
void solverInterrupt();
