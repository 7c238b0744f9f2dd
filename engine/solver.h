#pragma once
#include "expr.h"
#include <string>
#include <vector>

enum class Res { Sat, Unsat, Unknown };

struct SolverStats {
    uint64_t queries = 0;      // feasibility/assertion questions asked
    uint64_t cacheHits = 0;
    uint64_t fdDecided = 0;    // decided by finite-domain propagation over one <=8-bit symbol
    uint64_t modelReuse = 0;
    uint64_t smtCalls = 0, smtSat = 0, smtUnsat = 0, smtUnknown = 0;
    uint64_t external = 0;     // handed to a second solver
    double smtTime = 0;
    double maxTime = 0;
};
extern SolverStats gStats;
extern unsigned gTimeoutMs;      // per SMT call
extern std::string gDumpDir;

// Is cons /\ cond satisfiable?  `hint` satisfies cons.  On Sat, *out is a model of cons /\ cond.
// smtOnly: the verdict must come from the SMT solver (used for property assertions).
Res solve(const std::vector<E> &cons, E cond, const Model *hint, Model **out, bool smtOnly);
