// @bounds Vec of 3 and 6, Mat up to 6x8 (the shapes the elements use), MatSym of 2,3,4,6, dMat up to 4x4; every component over exact reals
// @outside rounding of double arithmetic; other template dimensions; Mat::eigenvalues (trigonometric)
// @assume inverses: the determinant passed is the determinant of the matrix and is not zero
#include "symx.h"
#include "math/Mat.h"
using namespace nla3d; using namespace nla3d::math;
static double D(const char* n) { return symD(n, -1e6, 1e6); }
template <uint16 M, uint16 N> static void fill(Mat<M, N>& a, const char* n) { for (uint16 i = 0; i < M; i++) for (uint16 j = 0; j < N; j++) a[i][j] = D(n); }
template <uint16 N> static void fill(Vec<N>& a, const char* n) { for (uint16 i = 0; i < N; i++) a[i] = D(n); }
template <uint16 N> static void fill(MatSym<N>& a, double (&f)[N][N], const char* n) { uint16 k = 0; for (uint16 i = 0; i < N; i++) for (uint16 j = i; j < N; j++) f[i][j] = f[j][i] = a.data[k++] = D(n); }   // row-wise upper triangle: the documented storage
HARNESS(vec) {
  Vec<6> a, b; for (int i = 0; i < 6; i++) EQ(a[i], 0, "new Vec is zero"); fill(a, "a"); fill(b, "b"); double k = D("k"), dot = 0, q = 0; Vec<6> s = a + b, d = a - b, m = -a, x = a * k, c(a); for (int i = 0; i < 6; i++) { EQ(s[i], a[i] + b[i], "+"); EQ(d[i], a[i] - b[i], "-"); EQ(m[i], -a[i], "negation"); EQ(x[i], a[i] * k, "* scalar"); EQ(c[i], a[i], "copy"); dot += a[i] * b[i]; q += a[i] * a[i]; }
  EQ(a * b, dot, "scalar product"); EQ(a.qlength(), q, "qlength"); c += b; for (int i = 0; i < 6; i++) EQ(c[i], a[i] + b[i], "+="); c = b; for (int i = 0; i < 6; i++) EQ(c[i], b[i], "="); Vec<3> v(1.0, k, 3.0); EQ(v[0], 1, "variadic constructor"); EQ(v[1], k, "variadic constructor"); EQ(v[2], 3, "variadic constructor"); CK(a.size() == 6 && v.size() == 3, "size"); v.zero(); for (int i = 0; i < 3; i++) EQ(v[i], 0, "zero"); REACH("end"); }
HARNESS(vec_length) { Vec<3> a; fill(a, "a"); double l = a.length(); CK(l >= 0, "length is not negative"); EQ(l * l, a[0] * a[0] + a[1] * a[1] + a[2] * a[2], "length squared"); REACH("end"); }
HARNESS(vec_compare) { Vec<2> a, b; fill(a, "a"); fill(b, "b"); double th = symD("th", 0, 1); bool eq = true; for (int i = 0; i < 2; i++) { double d = a[i] - b[i]; d = d < 0 ? -d : d; assume((d - th > 1e-6) | (th - d > 1e-6)); eq = eq & (d <= th); } CK(a.compare(b, th) == eq, "Vec compare"); Mat<1, 2> x, y; for (int i = 0; i < 2; i++) { x[0][i] = a[i]; y[0][i] = b[i]; } CK(x.compare(y, th) == eq, "Mat compare"); REACH("end"); }
HARNESS(sym_compare) { MatSym<2> a, b; double x[2][2], y[2][2]; fill(a, x, "a"); fill(b, y, "b"); double th = symD("th", 0, 1); bool eq = true; for (int i = 0; i < 2; i++) for (int j = i; j < 2; j++) { double d = x[i][j] - y[i][j]; d = d < 0 ? -d : d; assume((d - th > 1e-6) | (th - d > 1e-6)); eq = eq & (d <= th); } CK(a.compare(b, th) == eq, "MatSym compare"); REACH("end"); }
HARNESS(mat_algebra) {
  Mat<2, 3> a, b; fill(a, "a"); fill(b, "b"); double k = D("k"); Mat<2, 3> s = a + b, d = a - b, n = -a, m = a * k, c; c = a; c += b; Mat<3, 2> t = a.transpose(); for (int i = 0; i < 2; i++) for (int j = 0; j < 3; j++) { EQ(s[i][j], a[i][j] + b[i][j], "+"); EQ(d[i][j], a[i][j] - b[i][j], "-"); EQ(n[i][j], -a[i][j], "negation"); EQ(m[i][j], a[i][j] * k, "* scalar"); EQ(c[i][j], a[i][j] + b[i][j], "+="); EQ(t[j][i], a[i][j], "transpose"); }
  Mat<3, 4> e; fill(e, "e"); Mat<2, 4> p = a * e; for (int i = 0; i < 2; i++) for (int j = 0; j < 4; j++) { double x = 0; for (int l = 0; l < 3; l++) x += a[i][l] * e[l][j]; EQ(p[i][j], x, "Mat * Mat"); } Vec<3> v; fill(v, "v"); Vec<2> w = a * v; for (int i = 0; i < 2; i++) { double x = 0; for (int l = 0; l < 3; l++) x += a[i][l] * v[l]; EQ(w[i], x, "Mat * Vec"); }
  Mat<3, 3> I; I.Identity(); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) EQ(I[i][j], i == j, "Identity"); I.zero(); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) EQ(I[i][j], 0, "zero"); Mat<2, 2> f(1.0, k, 3.0, 4.0); EQ(f[0][0], 1, "variadic"); EQ(f[0][1], k, "variadic row-major"); EQ(f[1][0], 3, "variadic row-major"); EQ(f[1][1], 4, "variadic"); CK(a.dM() == 2 && a.dN() == 3, "dimensions"); REACH("end"); }
template <uint16 N> static double leibniz(Mat<N, N>& a) { int p[N]; for (int i = 0; i < N; i++) p[i] = i; double d = 0; for (;;) { int inv = 0; for (int i = 0; i < N; i++) for (int j = i + 1; j < N; j++) inv += p[i] > p[j]; double t = inv % 2 ? -1.0 : 1.0; for (int i = 0; i < N; i++) t *= a[i][p[i]]; d += t; if (!std::next_permutation(p, p + N)) break; } return d; }
template <uint16 N> static void detinv() { Mat<N, N> a; fill(a, "a"); double d = a.det(); EQ(d, leibniz<N>(a), "det is the signed sum over permutations"); assume((d > 0.001) | (d < -0.001)); Mat<N, N> b = a.inv(d); for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) { double x = 0; for (int l = 0; l < N; l++) x += a[i][l] * b[l][j]; EQ(x, i == j, L2("A * A.inv(det A) is the identity", i, j)); } REACH("end"); }
HARNESS(inv1) { detinv<1>(); } HARNESS(inv2) { detinv<2>(); } HARNESS(inv3) { detinv<3>(); } HARNESS(inv4) { detinv<4>(); }
HARNESS(cross_cut) { Mat<4, 4> a; fill(a, "a"); uint16 ci = pickU("ci", 0, 3), cj = pickU("cj", 0, 3); Mat<3, 3> c = a.cross_cut(ci, cj); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) EQ(c[i][j], a[i + (i >= ci)][j + (j >= cj)], "cross_cut drops one row and one column"); REACH("end"); }
template <uint16 N> static void sym() { MatSym<N> a, b; double f[N][N], g[N][N]; fill(a, f, "a"); fill(b, g, "b"); for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) EQ(a.comp(i, j), f[i][j], "comp addresses the upper triangle row by row, symmetrically"); Mat<N, N> m = a.toMat(); for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) EQ(m[i][j], f[i][j], "toMat");
  Vec<N> v, r, r0; fill(v, "v"); fill(r, "r"); r0 = r; double k = D("k"); matBVprod(a, v, k, r); for (int i = 0; i < N; i++) { double e = r0[i]; for (int j = 0; j < N; j++) e += k * f[i][j] * v[j]; EQ(r[i], e, "R += coef B V (symmetric)"); } a += b; for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) EQ(a.comp(i, j), f[i][j] + g[i][j], "+="); CK(a.getLength() == N * (N + 1) / 2, "length"); a.zero(); for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) EQ(a.comp(i, j), 0, "zero"); REACH("end"); }
HARNESS(sym2) { sym<2>(); } HARNESS(sym3) { sym<3>(); } HARNESS(sym4) { sym<4>(); } HARNESS(sym6) { sym<6>(); }
template <uint16 M, uint16 N> static void btdb() { Mat<M, N> B; fill(B, "B"); MatSym<M> Dm; double d[M][M]; fill(Dm, d, "D"); MatSym<N> R; double r[N][N]; fill(R, r, "R"); double k = D("k"); matBTDBprod(B, Dm, k, R);
  for (int i = 0; i < N; i++) for (int j = i; j < N; j++) { double e = 0; for (int a = 0; a < M; a++) for (int b = 0; b < M; b++) e += B[a][i] * d[a][b] * B[b][j]; EQ(R.comp(i, j), r[i][j] + k * e, L2("R += coef B^T D B", i, j)); } REACH("end"); }
HARNESS(btdb_2_3) { btdb<2, 3>(); } HARNESS(btdb_3_8) { btdb<3, 8>(); } HARNESS(btdb_3_6) { btdb<3, 6>(); }
#if THOROUGH
HARNESS(btdb_6_12) { btdb<6, 12>(); } HARNESS(btdb_6_24) { btdb<6, 24>(); }
#endif
HARNESS(products) { Mat<3, 4> A; Mat<4, 2> B; Mat<3, 2> R, S, C; Mat<4, 2> T, U; Vec<4> v, x, x0; Vec<3> w, y, y0; fill(A, "A"); fill(B, "B"); fill(R, "R"); fill(C, "C"); fill(T, "T"); fill(v, "v"); fill(w, "w"); fill(x, "x"); fill(y, "y"); S = R; U = T; x0 = x; y0 = y; double k = D("k"); matABprod(A, B, k, R); matATBprod(A, C, k, T); matBVprod(A, v, k, y); matBTVprod(A, w, k, x);
  for (int i = 0; i < 3; i++) for (int j = 0; j < 2; j++) { double e = S[i][j]; for (int l = 0; l < 4; l++) e += k * A[i][l] * B[l][j]; EQ(R[i][j], e, "R += coef A B"); } for (int i = 0; i < 4; i++) for (int j = 0; j < 2; j++) { double e = U[i][j]; for (int l = 0; l < 3; l++) e += k * A[l][i] * C[l][j]; EQ(T[i][j], e, "R += coef A^T B"); }
  for (int i = 0; i < 3; i++) { double e = y0[i]; for (int l = 0; l < 4; l++) e += k * A[i][l] * v[l]; EQ(y[i], e, "R += coef B V"); } for (int i = 0; i < 4; i++) { double e = x0[i]; for (int l = 0; l < 3; l++) e += k * A[l][i] * w[l]; EQ(x[i], e, "R += coef B^T V"); } REACH("end"); }
HARNESS(dmat) {
  uint16 m = pickU("m", 1, 4), n = pickU("n", 1, 4); dMat a(m, n); double f[4][4]; CK(a.dM() == m && a.dN() == n, "dMat dimensions"); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) EQ(a[i][j], 0, "new dMat is zero"); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) a[i][j] = f[i][j] = D("a"); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) EQ(a.ptr()[i * n + j], f[i][j], "dMat is row-major");
  { dMat b(a); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) EQ(b[i][j], f[i][j], "copy"); b[0][0] = D("x"); EQ(a[0][0], f[0][0], "copy is independent"); b.resize(n, m); CK(b.dM() == n && b.dN() == m, "resize"); EQ(b[n - 1][m - 1], 0, "resize zeroes"); a = a; for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) EQ(a[i][j], f[i][j], "self-assignment keeps the values"); b = a; CK(b.dM() == m && b.dN() == n, "assignment takes the dimensions"); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) EQ(b[i][j], f[i][j], "assignment"); } EQ(a[m - 1][n - 1], f[m - 1][n - 1], "source survives"); a.zero(); EQ(a[m - 1][n - 1], 0, "zero"); REACH("end"); }
HARNESS(dmat_mat) { dMat a(3, 2); double f[3][2]; for (int i = 0; i < 3; i++) for (int j = 0; j < 2; j++) a[i][j] = f[i][j] = D("a"); Mat<3, 2> b = a.toMat<3, 2>(); Vec<3> v = a.toVec<3>(1); for (int i = 0; i < 3; i++) { for (int j = 0; j < 2; j++) EQ(b[i][j], f[i][j], "toMat"); EQ(v[i], f[i][1], "toVec"); } dMat c(5, 4); Mat<3, 2> m; Vec<3> w; fill(m, "m"); fill(w, "w"); c.cpMat<3, 2>(m); c.cpVec<3>(w, 2); for (int i = 0; i < 5; i++) for (int j = 0; j < 4; j++) EQ(c[i][j], i >= 3 || j == 3 ? 0 : j == 2 ? w[i] : m[i][j], "cpMat/cpVec write the corner and the column"); dMat d(2, 2, 1.0, D("k"), 3.0, 4.0); EQ(d[0][0], 1, "variadic dMat"); EQ(d[1][0], 3, "variadic dMat"); REACH("end"); }
