// @bounds reinit from lists of 0..3 (thorough 0..4) entries in any order at any distinct positions of a 3x3 matrix, any values over exact reals, over a matrix that already holds another pattern; text round trip of the result; comparison of matrices that differ in one value, one position or one dimension; vectors of 0..3 elements
// @outside duplicate positions in the entry list; larger matrices; the decimal digits of symbolic numbers (a printed symbolic value is read back as the same value; digits are checked on concrete numbers)
// @assume positions are inside the matrix
#include "symx.h"
#include "math/SparseMatrix.h"
#include <sstream>
using namespace nla3d; using namespace nla3d::math;
static const int K = THOROUGH ? 4 : 3;
HARNESS(entries) {
  int n = pickU("n", 0, K); std::vector<SparseEntry> e; double ref[3][3] = {{0}}; bool in[3][3] = {{false}}; SparseMatrix A; bool reuse = pickB("reuse");
  if (reuse) { A.reinit(2, 5, 5); A.addEntry(2, 5); A.addEntry(1, 1); A.compress(); A.addValue(2, 5, 7.0); }
  for (int k = 0; k < n; k++) { uint32 i = pickU("i", 1, 3), j = pickU("j", 1, 3); assume(!in[i - 1][j - 1]); in[i - 1][j - 1] = true; SparseEntry x; x.i = i; x.j = j; x.v = ref[i - 1][j - 1] = symD("v", -9, 9); e.push_back(x); }
  A.BaseSparseMatrix::reinit(3, 3, e); CK(A.isCompressed() && A.nRows() == 3 && A.nColumns() == 3 && A.nValues() == (uint32)n, "shape after reinit from entries");
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) EQ(A.value(i + 1, j + 1), ref[i][j], L2("value after reinit from entries", i, j));
  std::stringstream ss; A.writeCoordinateTextFormat(ss); SparseMatrix B; if (reuse) { B.reinit(4, 1, 1); B.addEntry(3, 1); B.compress(); } B.readCoordinateTextFormat(ss);
  CK(B.nRows() == 3 && B.nColumns() == 3 && B.nValues() == (uint32)n, "shape after text round trip"); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) NEAR(B.value(i + 1, j + 1), ref[i][j], 1e-12, L2("value after text round trip", i, j));
  CK(A.compare(B, 1e-12) && B.compare(A, 1e-12), "a matrix compares equal to its text copy"); REACH("end");
}
HARNESS(symmetric_round_trip) {
  SparseSymMatrix A(3, 3); double a[3][3]; bool in[3][3]; for (int i = 0; i < 3; i++) for (int j = i; j < 3; j++) { in[i][j] = i == j || pickB("entry"); a[i][j] = a[j][i] = 0; if (in[i][j]) A.addEntry(j + 1, i + 1); }
  A.compress(); for (int i = 0; i < 3; i++) for (int j = i; j < 3; j++) if (in[i][j]) A.addValue(j + 1, i + 1, a[i][j] = a[j][i] = symD("a", -9, 9));
  std::stringstream ss; A.writeCoordinateTextFormat(ss); SparseSymMatrix B; B.readCoordinateTextFormat(ss); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) NEAR(B.value(i + 1, j + 1), a[i][j], 1e-12, L2("symmetric value after round trip", i, j)); CK(A.compare(B, 1e-12), "compare"); REACH("end");
}
HARNESS(digits_and_format) {
  double vals[6] = {1.0 / 3.0, -2.0e-13 / 7.0, 123456789.123456789, 6.02214076e23, -1e-300, 0.1}; SparseMatrix A(1, 6, 6); for (int j = 1; j <= 6; j++) A.addEntry(1, j); A.compress(); for (int j = 1; j <= 6; j++) A.addValue(1, j, vals[j - 1]);
  std::stringstream ss; long p0 = ss.precision(); auto f0 = ss.flags(); A.writeCoordinateTextFormat(ss); CK((long)ss.precision() == p0, "the writer restores the precision of the stream"); CK(ss.flags() == f0, "the writer restores the format flags of the stream");
  SparseMatrix B; B.readCoordinateTextFormat(ss); for (int j = 1; j <= 6; j++) CK(fabs(B.value(1, j) - vals[j - 1]) <= 1e-14 * fabs(vals[j - 1]), L2("15 significant digits survive the round trip", j)); REACH("end");
}
HARNESS(compare) {
  double th = symD("th", 0, 1), d = symD("d", -2, 2), v = symD("v", -9, 9); int kind = pickU("kind", 0, 3); SparseMatrix A(2, 3, 3), B(kind == 3 ? 3 : 2, kind == 2 ? 4 : 3, 3); uint32 i = pickU("i", 1, 2), j = pickU("j", 1, 3), k = pickU("k", 1, 2), l = pickU("l", 1, 3); assume(i != k || j != l);
  A.addEntry(i, j); A.addEntry(k, l); B.addEntry(i, j); if (kind != 1) B.addEntry(k, l); else { uint32 k2 = pickU("k2", 1, 2), l2 = pickU("l2", 1, 3); assume((k2 != k || l2 != l) && (k2 != i || l2 != j)); B.addEntry(k2, l2); } A.compress(); B.compress(); A.addValue(i, j, v); B.addValue(i, j, v + d);
  bool same = kind == 0; double ad = d < 0 ? -d : d; assume((ad - th > 1e-6) | (th - ad > 1e-6)); CK(A.compare(B, th) == (same & (ad <= th)), "compare is true exactly for equal shapes, patterns and values within the threshold"); CK(B.compare(A, th) == (same & (ad <= th)), "compare is symmetric"); REACH("end");
}
HARNESS(vector_text) {
  uint32 n = pickU("n", 0, 3); dVec a(n); double v[3]; for (uint32 i = 0; i < n; i++) a[i] = v[i] = symD("v", -9, 9); std::stringstream ss; long p0 = ss.precision(); auto f0 = ss.flags(); a.writeTextFormat(ss); CK((long)ss.precision() == p0 && ss.flags() == f0, "the vector writer restores the stream"); dVec b; if (pickB("reuse")) b.reinit(5, 3.0); b.readTextFormat(ss); CK(b.size() == n, "vector size after round trip"); for (uint32 i = 0; i < n; i++) NEAR(b[i], v[i], 1e-9, L2("vector element after round trip", i)); REACH("end");
}
HARNESS(vector_digits) { const double c[6] = {1.0 / 3, -2.0e8 / 7, 1e-7 / 3, 123456.789012345, 0, -1.5e-12 / 11}; uint32 k = pickU("k", 0, 5); dVec a(1); a[0] = c[k]; std::stringstream ss; a.writeTextFormat(ss); dVec b; b.readTextFormat(ss); double d = b[0] - c[k], t = 1e-13 * (c[k] < 0 ? -c[k] : c[k]); CK(d <= t && d >= -t, "vectors are written with 15 significant digits"); REACH("end"); }
