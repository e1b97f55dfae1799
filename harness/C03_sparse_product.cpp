// @bounds general matrices of 2x3 and 3x2 (thorough: 3x3) and symmetric matrices of 3 (thorough: 4) rows with every sparsity pattern, of 300 rows (tridiagonal), and general matrices of 65600 rows or columns, with free values in and around picked rows; every value, vector component, coefficient and prior content of the result over exact reals in [-9,9]
// @outside larger matrices; rounding of double arithmetic; entries of V with |V| <= 1e-20, which the symmetric product may skip, are covered up to the resulting 1e-15 tolerance
// @assume shapes match (asserted by the code)
#include "symx.h"
#include "math/SparseMatrix.h"
using namespace nla3d; using namespace nla3d::math;
static double D(const char* n) { return symD(n, -9, 9); }
template <int NR, int NC> static void general() {
  SparseMatrix A(NR, NC, NC); bool in[NR][NC]; double a[NR][NC], v[NC], w[NR], r0[NR + 1], t0[NC + 1], coef = D("coef");
  for (int i = 0; i < NR; i++) for (int j = 0; j < NC; j++) { in[i][j] = pickB("entry"); a[i][j] = 0; if (in[i][j]) A.addEntry(i + 1, j + 1); }
  A.compress(); for (int i = 0; i < NR; i++) for (int j = 0; j < NC; j++) if (in[i][j]) { a[i][j] = D("a"); A.addValue(i + 1, j + 1, a[i][j]); }
  dVec V(NC), W(NR), R(NR + 1), T(NC + 1); for (int j = 0; j < NC; j++) V[j] = v[j] = D("v"); for (int i = 0; i < NR; i++) W[i] = w[i] = D("w"); for (int i = 0; i <= NR; i++) R[i] = r0[i] = D("r"); for (int i = 0; i <= NC; i++) T[i] = t0[i] = D("t");
  matBVprod(A, V, coef, R); matBTVprod(A, W, coef, T);
  for (int i = 0; i <= NR; i++) { double e = r0[i]; if (i < NR) for (int j = 0; j < NC; j++) e += coef * a[i][j] * v[j]; EQ(R[i], e, L2("R += coef B V", i)); }
  for (int j = 0; j <= NC; j++) { double e = t0[j]; if (j < NC) for (int i = 0; i < NR; i++) e += coef * a[i][j] * w[i]; EQ(T[j], e, L2("R += coef B^T V", j)); }
  for (int i = 0; i < NR; i++) for (int j = 0; j < NC; j++) EQ(A.value(i + 1, j + 1), a[i][j], "the matrix is not changed by products"); for (int j = 0; j < NC; j++) EQ(V[j], v[j], "the vector is not changed by products"); REACH("end");
}
HARNESS(general_2x3) { general<2, 3>(); }
HARNESS(general_3x2) { general<3, 2>(); }
#if THOROUGH
HARNESS(general_3x3) { general<3, 3>(); }
#endif
HARNESS(symmetric) {
  const int N = THOROUGH ? 4 : 3; SparseSymMatrix A(N, N); double a[N][N], v[N], r0[N + 1], coef = D("coef"); bool in[N][N];
  for (int i = 0; i < N; i++) for (int j = i; j < N; j++) { in[i][j] = i == j || pickB("entry"); a[i][j] = a[j][i] = 0; if (in[i][j]) A.addEntry(j + 1, i + 1); }
  A.compress(); for (int i = 0; i < N; i++) for (int j = i; j < N; j++) if (in[i][j]) { a[i][j] = a[j][i] = D("a"); A.addValue(i + 1, j + 1, a[i][j]); }
  dVec V(N), R(N + 1); for (int j = 0; j < N; j++) V[j] = v[j] = D("v"); for (int i = 0; i <= N; i++) R[i] = r0[i] = D("r");
  matBVprod(A, V, coef, R); for (int i = 0; i <= N; i++) { double e = r0[i]; if (i < N) for (int j = 0; j < N; j++) e += coef * a[i][j] * v[j]; NEAR(R[i], e, 1e-15, L2("R += coef B V (symmetric)", i)); } REACH("end");
}
// rows are not cut to 8 or 16 bits
HARNESS(many_rows) { const uint32 NB = 65600; static const uint32 AT[6] = {2, 255, 256, 65535, 65536, 65599}; uint32 k = AT[pickU("at", 0, 5)]; double d = D("d"), u = D("u"), v = D("v"), coef = D("coef"); dVec V(NB, 1.0); V[k - 1] = v; SparseMatrix B(3, NB, 4), C(NB, 3, 2); B.addEntry(2, k); B.addEntry(2, 1); C.addEntry(k, 3); C.addEntry(1, 1); B.compress(); C.compress(); B.addValue(2, k, d); C.addValue(k, 3, d); dVec S(3), T(NB); matBVprod(B, V, coef, S); EQ(S[1], coef * d * v, "column of the product beyond 65535"); dVec W(3, 1.0); W[2] = u; matBVprod(C, W, coef, T); EQ(T[k - 1], coef * d * u, "row of a general product beyond 65535"); for (int t = 0; t < 6; t++) if (AT[t] != k) EQ(T[AT[t] - 1], 0, "other rows"); dVec X(NB), Y(3); W[1] = v; matBTVprod(B, W, coef, X); EQ(X[k - 1], coef * d * v, "column of a transposed product beyond 65535"); matBTVprod(C, V, coef, Y); EQ(Y[2], coef * d * v, "row of a transposed product beyond 65535"); REACH("end"); }
HARNESS(symmetric_300) { const uint32 NB = 300; static const uint32 AT[4] = {2, 255, 256, 299}; SparseSymMatrix A(NB, 3); for (uint32 i = 1; i < NB; i++) A.addEntry(i, i + 1); A.compress(); uint32 k = AT[pickU("at", 0, 3)]; double d = D("d"), l = D("l"), u = D("u"), v = symD("v", 0.125, 9), r = D("r"), coef = D("coef"); A.addValue(k, k, d); A.addValue(k, k - 1, l); A.addValue(k, k + 1, u); dVec V(NB, 0.0), R(NB, 1.0); V[k - 1] = v; V[k] = 2; V[k - 2] = 3; R[k - 1] = r; matBVprod(A, V, coef, R); EQ(R[k - 1], r + coef * (l * 3 + d * v + u * 2), "row of the product"); EQ(R[k - 2], 1 + coef * l * v, "row of the product"); EQ(R[k], 1 + coef * u * v, "row of the product"); for (int t = 0; t < 4; t++) if (AT[t] > k + 1 || AT[t] + 1 < k) EQ(R[AT[t] - 1], 1, "the other rows are unchanged"); REACH("end"); }
