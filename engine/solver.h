// Path conditions, per-byte domains and the z3 back end.
#pragma once
#include "expr.h"
#include <vector>
#include <string>

struct Dom {
  uint64_t w[4];
  Dom() { w[0] = w[1] = w[2] = w[3] = ~0ull; }
  bool has(unsigned i) const { return (w[i >> 6] >> (i & 63)) & 1; }
  bool empty() const { return !(w[0] | w[1] | w[2] | w[3]); }
  unsigned count() const { return __builtin_popcountll(w[0]) + __builtin_popcountll(w[1]) + __builtin_popcountll(w[2]) + __builtin_popcountll(w[3]); }
  int first() const { for (int i = 0; i < 4; i++) if (w[i]) return i * 64 + __builtin_ctzll(w[i]); return -1; }
};
inline Dom operator&(const Dom &a, const Dom &b) { Dom r; for (int i = 0; i < 4; i++) r.w[i] = a.w[i] & b.w[i]; return r; }
inline Dom operator~(const Dom &a) { Dom r; for (int i = 0; i < 4; i++) r.w[i] = ~a.w[i]; return r; }

struct Model { uint8_t v[MAXSYM]; Model() { memset(v, 0, sizeof v); } };

struct PathCond {
  std::vector<E> cons;          // conjunction
  std::vector<Dom> dom;         // per symbol, from single-symbol constraints
  Mask multi;                   // symbols in multi-symbol constraints
  Model model;                  // satisfies cons
};

struct SolverStats {
  uint64_t z3_queries = 0, z3_sat = 0, z3_unsat = 0, fast = 0, cache = 0, model_hits = 0, crosscheck = 0;
  uint64_t checks = 0, checks_const = 0;
  double z3_time = 0;
};
extern SolverStats sstats;
extern bool opt_z3only, opt_cross;
extern unsigned opt_z3rlimit;

struct SolverUnknown { std::string why; };

// Is cons && cond satisfiable? On success fills model. forceZ3 bypasses the
// byte-domain shortcut so that the verdict is the SMT solver's.
bool feasible(const PathCond &pc, E cond, Model &out, bool forceZ3 = false);
// 1: cond holds on the whole path, 0: never, -1: not decided by the domains
int implied(const PathCond &pc, E cond);
// Distinct values of a single-symbol expression under the domains, at most max+1
unsigned distinct(const PathCond &pc, E e, unsigned max);
void addConstraint(PathCond &pc, E cond, const Model &m);
void solverReset();             // after fork()
std::string toSMT2(const PathCond &pc, E cond);
