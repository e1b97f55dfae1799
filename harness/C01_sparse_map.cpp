// @bounds matrices of 1..3 rows and up to 100000 columns; histories of 3 (quick) / 4 (thorough) addEntry calls at any positions in any order with any repetition, compress, two addValue calls, one query at any position; search in one row holding any 0..6 (quick) / 0..9 (thorough) columns; one matrix of 65600 rows (two entries a row) and one row of 1030 entries, looked at in seven places around the limits of 8- and 16-bit counters with symbolic values; values over exact reals
// @outside more rows/entries than the bound; rounding of double addition
// @assume callers pass 1-based positions inside the matrix (asserted by the code)
#include "symx.h"
#include "math/SparseMatrix.h"
using namespace nla3d; using namespace nla3d::math;
#if THOROUGH
static const uint32 K = 4, S_MAX = 9;
#else
static const uint32 K = 3, S_MAX = 6;
#endif
static const uint32 BIG = 100000;
// structural invariants of the compressed pattern, against the list of added positions (ei,ej)[0..k)
template <class M> static void structure(M& A, uint32 nr, uint32 nc, const uint32* ei, const uint32* ej, uint32 k) {
  uint32* fe = A.getIofeirArray(); uint32* col = A.getColumnsArray(); uint32 total = 0;
  CK((A.nRows() == nr) & (A.nColumns() == nc), "dimensions kept"); CK(fe[0] == 1, "first row starts at 1");
  for (uint32 i = 1; i <= nr; i++) {
    uint32 distinct = 0; for (uint32 a = 0; a < k; a++) { bool dup = ei[a] != i; for (uint32 b = 0; b < a; b++) dup = dup | ((ei[b] == ei[a]) & (ej[b] == ej[a])); distinct += dup ? 0 : 1; }
    uint32 st = fe[i - 1] - 1, en = fe[i] - 1; CK(en - st == distinct, "row holds each added entry once"); CK(A.getSparsityInfo()->nElementsInRow(i) == distinct, "nElementsInRow");
    for (uint32 p = st; p < en; p++) { if (p > st) CK(col[p - 1] < col[p], "columns strictly increasing in a row"); bool in = false; for (uint32 a = 0; a < k; a++) in = in | ((ei[a] == i) & (ej[a] == col[p])); CK(in, "only added entries are stored"); }
    total += distinct; }
  CK(A.nValues() == total, "nValues counts distinct entries"); CK(fe[nr] == total + 1, "last row pointer");
}
HARNESS(general) {
  uint32 nr = pickU("nr", 1, 3), nc = symU("nc", 1, BIG); SparseMatrix A(nr, nc, K); uint32 ei[4], ej[4];
  for (uint32 k = 0; k < K; k++) { ei[k] = pickU("i", 1, nr); ej[k] = symU("j", 1, BIG); assume(ej[k] <= nc); A.addEntry(ei[k], ej[k]); }
  A.compress(); CK(A.isCompressed(), "compressed"); structure(A, nr, nc, ei, ej, K);
  double va = symD("va", -100, 100), vb = symD("vb", -100, 100); uint32 b = K - 1;
  A.addValue(ei[0], ej[0], va); A.addValue(ei[b], ej[b], vb);
  uint32 qi = pickU("qi", 1, nr), qj = symU("qj", 1, BIG); assume(qj <= nc);
  double e = 0; if (qi == ei[0] && qj == ej[0]) e += va; if (qi == ei[b] && qj == ej[b]) e += vb;
  double got = A.value(qi, qj); EQ(got, e, "value is the sum added at the position, 0 elsewhere"); OBS("value", got);
  A.zero(); EQ(A.value(qi, qj), 0, "zero() clears all values"); EQ(A.value(ei[0], ej[0]), 0, "zero() clears all values"); structure(A, nr, nc, ei, ej, K);
  REACH("end");
}
HARNESS(symmetric) {
  uint32 n = pickU("n", 1, 3); bool ctor = pickB("ctor"); SparseSymMatrix B; SparseSymMatrix C(n, 8); SparseSymMatrix& A = ctor ? C : B; if (!ctor) A.reinit(n, 8);
  uint32 ei[8], ej[8], k = 0; if (ctor) for (uint32 i = 1; i <= n; i++) { ei[k] = i; ej[k++] = i; }
  uint32 oi[3], oj[3]; for (uint32 t = 0; t < 3; t++) { uint32 i = pickU("i", 1, n), j = pickU("j", 1, n); oi[t] = i; oj[t] = j; A.addEntry(i, j); ei[k] = i < j ? i : j; ej[k++] = i < j ? j : i; }
  A.compress(); structure(A, n, n, ei, ej, k);
  double va = symD("va", -100, 100), vb = symD("vb", -100, 100); A.addValue(oi[0], oj[0], va); A.addValue(oj[0], oi[0], vb);
  uint32 qi = pickU("qi", 1, n), qj = pickU("qj", 1, n); bool hit = ((qi == oi[0]) & (qj == oj[0])) | ((qi == oj[0]) & (qj == oi[0]));
  EQ(A.value(qi, qj), hit ? va + vb : 0.0, "symmetric value"); EQ(A.value(qi, qj), A.value(qj, qi), "value(i,j) == value(j,i)");
  for (uint32 t = 0; t < 3; t++) CK(&A(oi[t], oj[t]) == &A(oj[t], oi[t]), "one storage cell per symmetric pair"); REACH("end");
}
// search inside one row: any set of columns, any query
HARNESS(search) {
  uint32 m = pickU("m", 0, S_MAX); uint32 nc = BIG; SparsityInfo si(3, nc, S_MAX); uint32 c[10]; si.addEntry(1, 7); si.addEntry(3, 1);
  for (uint32 k = 0; k < m; k++) { c[k] = symU("c", 1, BIG); if (k) assume(c[k] > c[k - 1]); si.addEntry(2, c[k]); }
  si.compress(); uint32 q = symU("q", 1, BIG); uint32 ix = si.getIndex(2, q);
  uint32 want = 0xFFFFFFFFu; for (uint32 k = 0; k < m; k++) want = c[k] == q ? 1 + k : want;
  CK(ix == want, "getIndex finds exactly the stored entries at their sorted place"); CK(si.getIndex(1, 7) == 0 && si.getIndex(3, 1) == m + 1, "other rows"); OBS("ix", ix); REACH("end");
}
// insertion order does not matter
HARNESS(order) {
  const uint32 n = THOROUGH ? 5 : 4; SparseMatrix A(2, BIG, n), B(2, BIG, n); uint32 c[5]; double v[5]; for (uint32 k = 0; k < n; k++) { c[k] = symU("c", 1, BIG); for (uint32 l = 0; l < k; l++) assume(c[l] != c[k]); A.addEntry(1, c[k]); }
  for (uint32 k = n; k > 0; k--) B.addEntry(1, c[k - 1]); A.compress(); B.compress();
  for (uint32 k = 0; k < n; k++) { v[k] = symD("v", -10, 10); A.addValue(1, c[k], v[k]); B.addValue(1, c[k], v[k]); }
  CK(A.compare(B), "compare: same entries in a different order"); for (uint32 k = 0; k < n; k++) EQ(A.value(1, c[k]), v[k], "value"); REACH("end");
}
HARNESS(absent_is_fatal) {
  SparseMatrix A(2, BIG, 4); uint32 j[3]; for (int k = 0; k < 3; k++) { j[k] = symU("j", 1, BIG); A.addEntry(1, j[k]); } A.compress();
  uint32 qi = pickU("qi", 1, 2), qj = symU("qj", 1, BIG); assume((qi != 1) | ((qj != j[0]) & (qj != j[1]) & (qj != j[2]))); REACH("write to an absent position"); EQ(A.value(qi, qj), 0, "absent value is 0");
  __sym_expect_fatal(1); A.addValue(qi, qj, 1.0); CK(false, "writing an absent position must be a fatal error");
}
HARNESS(overflow_is_fatal) {
  uint32 c[3]; for (int k = 0; k < 3; k++) c[k] = symU("c", 1, BIG); SparseMatrix A(2, BIG, 2); uint32 r = pickU("r", 1, 2); A.addEntry(r, c[0]); A.addEntry(r, c[1]); A.addEntry(r, c[0]); A.addEntry(3 - r, c[2]); A.addEntry(r, c[1]); REACH("row full");
  assume((c[0] != c[1]) & (c[2] != c[0]) & (c[2] != c[1])); __sym_expect_fatal(1); A.addEntry(r, c[2]); CK(false, "exceeding max_in_row must be a fatal error");
}
// sharing of one sparsity between matrices, and re-initialisation
HARNESS(shared) {
  uint32 n = pickU("n", 1, 3); SparseSymMatrix A(n, 8); uint32 i = symU("i", 1, n), j = symU("j", 1, n); A.addEntry(i, j); bool before = pickB("before");
  SparseSymMatrix* B = nullptr; if (before) B = new SparseSymMatrix(A.getSparsityInfo()); A.compress(); if (!before) B = new SparseSymMatrix(A.getSparsityInfo()); B->compress();
  double v = symD("v", -5, 5); A.addValue(i, j, v); EQ(B->value(i, j), 0, "values are not shared"); B->addValue(j, i, 2 * v); EQ(A.value(j, i), v, "values are not shared (2)"); EQ(B->value(i, j), 2 * v, "B keeps its own value"); CK(A.nValues() == B->nValues(), "same sparsity");
  { SparseSymMatrix D(1, 1); D.compress(); D.addValue(1, 1, 4.0); D.setSparsityInfo(A.getSparsityInfo()); D.compress(); for (uint32 k = 1; k <= n; k++) EQ(D.value(k, k), 0, "setSparsityInfo starts from zero values"); D.addValue(n, n, v); EQ(D.value(n, n), v, "setSparsityInfo on a used matrix"); EQ(A.value(n, n), (i == n && j == n) ? v : 0.0, "unchanged"); }
  delete B; A.reinit(2, 2); A.addEntry(2, 1); A.compress(); EQ(A.value(1, 2), 0, "reinit drops old values"); CK((A.nValues() == 1) & (A.nRows() == 2), "reinit drops old entries"); REACH("end");
}
// counters and indices are not cut to 8 or 16 bits
static const uint32 NB = 65600; static const uint32 AT[7] = {1, 255, 256, 32800, 65535, 65536, 65600};
HARNESS(many_rows) { SparseSymMatrix A(NB, 3); for (uint32 i = 1; i < NB; i++) A.addEntry(i + 1, i); A.compress(); CK((A.nRows() == NB) & (A.nColumns() == NB) & (A.nValues() == 2 * NB - 1), "sizes beyond 65535"); uint32 k = AT[pickU("at", 0, 6)]; uint32* fe = A.getIofeirArray(); uint32* col = A.getColumnsArray(); CK(fe[k - 1] == 2 * k - 1 && fe[NB] == 2 * NB, "row pointers beyond 65535"); CK(col[fe[k - 1] - 1] == k && (k == NB || col[fe[k - 1]] == k + 1), "columns beyond 65535"); CK(A.getSparsityInfo()->nElementsInRow(k) == (k == NB ? 1u : 2u), "row length");
  double v = symD("v", -9, 9), w = symD("w", -9, 9); uint32 j = k > 1 ? k - 1 : 2; A.addValue(k, k, v); A.addValue(k, j, w); EQ(A.value(k, k), v, "value beyond 65535"); EQ(A.value(j, k), w, "value beyond 65535"); for (uint32 t = 0; t < 7; t++) if (AT[t] != k) { if (AT[t] != j) EQ(A.value(AT[t], AT[t]), 0, "other rows are untouched"); if (AT[t] > 1 && AT[t] != j + 1 && AT[t] - 1 != j) EQ(A.value(AT[t], AT[t] - 1), 0, "other rows are untouched"); } CK(A.value(1, NB) == 0, "absent"); REACH("end"); }
HARNESS(long_row) { const uint32 W = 1030; SparseMatrix A(2, 300000, W); for (uint32 i = 0; i < W; i++) A.addEntry(2, 1 + ((i * 7) % W) * 230); A.compress(); CK(A.nValues() == W && A.getSparsityInfo()->nElementsInRow(2) == W && A.getSparsityInfo()->nElementsInRow(1) == 0, "a row of 1030 entries"); static const uint32 C[6] = {0, 1, 255, 256, 600, 1029}; uint32 c = 1 + 230 * C[pickU("c", 0, 5)]; double v = symD("v", -9, 9); A.addValue(2, c, v); for (uint32 t = 0; t < 6; t++) EQ(A.value(2, 1 + 230 * C[t]), c == 1 + 230 * C[t] ? v : 0.0, "value in a row of 1030 entries"); EQ(A.value(2, c + 1), 0, "absent"); REACH("end"); }
