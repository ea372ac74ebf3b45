#pragma once
#include "expr.h"
#include <vector>
#include <memory>
#include <string>

struct Con {                    // a path constraint
  E e;
  bool def = false;             // definitional: (raw symbol bits) == expr, raw bits otherwise unconstrained
  bool neg = false;             // ... or its negation
  E raw = nullptr, rhs = nullptr;
};

struct PathCons {
  std::vector<Con> cons;
  std::unordered_map<uint32_t, bool> known;  // expr id -> value implied syntactically
  BitSet used;                               // all symbol bits mentioned by any constraint (incl. raw bits of defs)
  Facts facts;
};

enum Res { R_UNSAT = 0, R_SAT = 1, R_UNKNOWN = 2 };

void solverInterrupt();
struct SolverStats { uint64_t queries = 0, z3 = 0, cacheHits = 0, modelHits = 0, defHits = 0, unsat = 0, sat = 0, unknown = 0, refined = 0; double time = 0, maxTime = 0; };
extern SolverStats g_ss;
extern double g_queryTimeout;   // seconds

// is (path && c) satisfiable?  m must satisfy path; on R_SAT, out satisfies path && c.
Res solverCheck(const PathCons &pc, E c, const Model &m, Model &out);
// add c (known satisfiable) to the path. m is a model of path && c.
void pathAdd(PathCons &pc, E c);
// exact re-solve of whole path (used before emitting replay): makes the model exact w.r.t. multiplication
Res solverExact(const PathCons &pc, E extra, Model &m);
bool checkModel(const PathCons &pc, Model &m);
