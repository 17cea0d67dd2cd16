#pragma once
#include "expr.h"
#include <string>

enum class Sat { Sat, Unsat, Unknown };

struct SolverStats {
  uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, cached = 0, byModel = 0;
  double seconds = 0, maxSeconds = 0;
};

struct Solver {
  Solver();
  ~Solver();
  void newPath();
  // satisfiability of the conjunction; on Sat fills env for the variables it mentions
  Sat check(const std::vector<E>& as, Env* env, unsigned timeoutMs);
  // slices pc down to what is connected with c, then check(slice + c)
  Sat checkWith(const std::vector<E>& pc, E c, Env* env, unsigned timeoutMs);
  // full model of pc (component by component)
  Sat fullModel(const std::vector<E>& pc, Env& env, unsigned timeoutMs);
  SolverStats st;
  std::string lastReason;
  std::string dumpDir;
 private:
  struct Impl;
  Impl* d;
};
