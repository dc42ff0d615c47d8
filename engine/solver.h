#pragma once
#include "expr.h"
#include <memory>
enum Res { UNSAT = 0, SAT = 1, UNKNOWN = 2 };
struct Solver {
  u64 queries = 0, sat = 0, unsat = 0, unknown = 0, cachehits = 0, modelhits = 0; double secs = 0;
  unsigned timeout_ms = 20000;
  // Is (conjunction of pc) AND q satisfiable?  On SAT, upd receives an assignment satisfying all of pc and q,
  // obtained from base (a model of pc) by replacing the slice of variables related to q.
  Res check(const std::vector<E> &pc, E q, const Model &base, Model *upd);
  Solver(); ~Solver();
  struct Impl; Impl *im;
};
