#pragma once
#include "expr.h"
#include <memory>
enum SatResult { R_UNSAT, R_SAT, R_UNKNOWN };
struct SolverStats { uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, cachehits = 0, fastpath = 0; double seconds = 0, maxq = 0; };
extern SolverStats g_sstats;
extern unsigned g_solver_timeout_ms;
// Is conj(constraints) /\ cond satisfiable?  Only the constraints sharing variables (transitively) with cond are used:
// the caller guarantees conj(constraints) itself to be satisfiable.  On SAT, 'out' holds values for the variables of the slice.
SatResult solverCheck(const std::vector<Expr*>& constraints, Expr* cond, Model& out);
void solverInit();
