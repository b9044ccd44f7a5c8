#pragma once
#include "posym.h"
extern SolverStats SS;
extern unsigned z3RLimit;
void solverInit();
void pcGrow(PathCond& p, uint32_t nvars);
void pcAdd(PathCond& p, Expr* c);                     // add constraint (must hold under p.model afterwards)
enum Res { UNSAT = 0, SAT = 1, UNKNOWN = 2 };
// is p /\ c satisfiable?  model (in/out: updated copy of p.model) on SAT
Res pcCheck(const PathCond& p, Expr* c, std::vector<uint8_t>& model, bool forceZ3 = false);
Expr* pcRestrict(const PathCond& p, Expr* e);
bool pcChoices(Expr* e, std::vector<Expr*>& out, size_t lim);
