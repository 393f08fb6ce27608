// Path-condition representation and satisfiability queries (z3), with independence slicing and caching.
#pragma once
#include "expr.h"
struct Dom { ByteSet s; u32 id; };
Dom* internDom(const ByteSet&s);
struct PathCond {
  std::vector<Dom*> dom;       // per symbol; nullptr = unconstrained
  std::vector<Expr*> multi;    // constraints over two or more symbols
  std::vector<u8> model;       // satisfies dom and multi
};
struct SolverStats { u64 z3_queries=0, tt_proofs=0, cache_hits=0, tt_decided=0, unknowns=0; double z3_s=0; u64 unsat=0,sat=0; };
extern SolverStats SS_;
extern unsigned g_z3_timeout_ms;
// is pc /\ extra satisfiable?  On success fills model (a full copy of pc.model updated).  Returns 1 sat, 0 unsat, -1 unknown
int checkSat(const PathCond&pc,Expr*extra,std::vector<u8>&model);
bool addConstraint(PathCond&pc,Expr*e);   // false when a byte domain became empty (cannot happen for feasible e)
void crossCheck(const PathCond&pc);
