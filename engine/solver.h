#pragma once
#include "expr.h"
#include "poly.h"
#include <z3++.h>
#include <atomic>
#include <set>
enum SatR { R_SAT, R_UNSAT, R_UNK };
struct Shared {
  std::atomic<long> paths, okPaths, assumeKilled, warm, fatalOk, forks, queries, qsat, qunsat, qunk, solver_us, instrs;
  std::atomic<long> goals, goalsConcrete, goalsSolver, goalsSyntactic, goalsRaw, rawAgree, polyTerms, maxPathCond, guesses;
  std::atomic<long> live, stop, violations, inconclusive, samples, divAssumed, witness;
  std::atomic<long> deadline_ms;
  uint8_t fnSeen[1 << 17];
};
extern Shared* g_sh;
extern int g_maxProcs; extern unsigned g_rlimit; extern uint64_t g_seed;
struct Solver {
  z3::context ctx;
  std::unordered_map<uint32_t, Z3_ast> memo; std::vector<z3::expr> keep;
  std::unordered_map<uint32_t, int> divc;
  PolyCtx poly;
  std::vector<E> splits;   // conditions decided by poly.split during the query in progress
  z3::expr tr(E e);
  z3::expr var(const char* pfx, E e, z3::sort s);
  void sides(const std::vector<E>& cs, z3::expr_vector& out);
  SatR query(const std::vector<E>& cs, Model* m, unsigned rlimit = 0, bool allowGuess = true);
  bool guess(const std::vector<E>& cs, Model& m, int tries, const Model* base);
  E normCmp(E c);           // normalise a real comparison
  SatR lraNear(const Poly& n, const std::map<int,int>& den, double tol);   // R_UNSAT: |n/den|<=tol proven
};
std::vector<E> sliceFor(const std::vector<E>& pc, E goal);
double nowSec();
