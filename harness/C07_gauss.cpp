// @budget 400
// @bounds symmetric systems of 1..3 (thorough 4) equations with any real coefficients in [-9,9], any sparsity pattern, any right-hand side; one solver object used for up to three systems in a row
// @outside more equations; rounding of double arithmetic (pivot threshold of 1e-20 treated exactly); systems whose pivots vanish (the solver ends the program)
// @assume every pivot the algorithm meets is at least 1e-20 in magnitude, otherwise a fatal error is expected
#include "symx.h"
#include "math/EquationSolver.h"
using namespace nla3d; using namespace nla3d::math;
static double D(const char* n) { return symD(n, -9, 9); }
static void system(GaussDenseEquationSolver& s, int n, int how, bool dense) {
  SparseSymMatrix A(n, n); double a[4][4], b[4], rhs[4], x[5]; for (int i = 0; i < n; i++) for (int j = i; j < n; j++) { a[i][j] = a[j][i] = 0; if (i == j || dense || pickB("entry")) { A.addEntry(i + 1, j + 1); a[i][j] = 1; } }
  A.compress(); for (int i = 0; i < n; i++) for (int j = i; j < n; j++) if (a[i][j] != 0) { a[i][j] = a[j][i] = D("a"); A.addValue(i + 1, j + 1, a[i][j]); }
  for (int i = 0; i < n; i++) { rhs[i] = b[i] = D("b"); } for (int i = 0; i < 5; i++) x[i] = 77; __sym_expect_fatal(1);
  if (how == 0) s.solveEquations(&A, rhs, x); else { s.factorizeEquations(&A); s.substituteEquations(&A, rhs, x); } __sym_expect_fatal(0);
  for (int i = 0; i < n; i++) { double e = 0; for (int j = 0; j < n; j++) e += a[i][j] * x[j]; EQ(e, b[i], L2("A x = b", i)); } EQ(x[n], 77, "nothing is written past the unknowns");
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) EQ(A.value(i + 1, j + 1), a[i][j], "the matrix is left as it was"); REACH("end");
}
HARNESS(n1) { GaussDenseEquationSolver s; system(s, 1, pickU("how", 0, 1), true); }
HARNESS(n2) { GaussDenseEquationSolver s; system(s, 2, pickU("how", 0, 1), false); }
HARNESS(n3) { GaussDenseEquationSolver s; system(s, 3, 0, false); }
HARNESS(reuse) { GaussDenseEquationSolver s; int n1 = pickU("n1", 1, 2), n2 = pickU("n2", 1, 2); system(s, n1, 0, true); system(s, n2, 1, true); }
#if THOROUGH
HARNESS(n4) { GaussDenseEquationSolver s; system(s, 4, 0, true); }
#endif
// several right-hand sides with one factorisation: each answer solves its own system
HARNESS(resolve) { GaussDenseEquationSolver s; SparseSymMatrix A(2, 2); A.addEntry(1, 2); A.compress(); double p = D("p"), q = D("q"), r = D("r"); A.addValue(1, 1, p); A.addValue(1, 2, q); A.addValue(2, 2, r); __sym_expect_fatal(1); s.factorizeEquations(&A); for (int t = 0; t < 2; t++) { double b0 = D("b"), b1 = D("b"), b[2] = {b0, b1}, x[2]; s.substituteEquations(&A, b, x); EQ(p * x[0] + q * x[1], b0, "first equation of each substitution"); EQ(q * x[0] + r * x[1], b1, "second equation of each substitution"); } REACH("end"); }
// the dense kernel on non-symmetric systems
HARNESS(kernel) { const int n = 3; double A[9], a[9], B[3], b[3], X[3]; for (int i = 0; i < 9; i++) A[i] = a[i] = D("a"); for (int i = 0; i < 3; i++) B[i] = b[i] = D("b"); bool ok = GaussDenseEquationSolver::_solve(X, A, B, n); if (ok) { for (int i = 0; i < n; i++) { double e = 0; for (int j = 0; j < n; j++) e += a[i * n + j] * X[j]; EQ(e, b[i], L2("A x = b (kernel)", i)); } } else { double det = a[0] * (a[4] * a[8] - a[5] * a[7]) - a[1] * (a[3] * a[8] - a[5] * a[6]) + a[2] * (a[3] * a[7] - a[4] * a[6]); NEAR(det, 0, 1e-15, "a refused system is singular"); } REACH("end"); }
