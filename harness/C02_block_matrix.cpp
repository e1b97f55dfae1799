// @bounds block matrices of 2 and 3 blocks with 0..2 (quick) / 0..3 (thorough) rows per block, of 1, 4 and 5 blocks of 1..2 rows, of 40000 and 30000 rows (positions around the block boundary and the limit of 16-bit counters); two addEntry/addValue pairs at any global positions; one query at any global position; values over exact reals
// @outside larger blocks; other numbers of blocks
// @assume callers pass global positions 1..n
#include "symx.h"
#include "math/BlockSparseMatrix.h"
using namespace nla3d; using namespace nla3d::math;
static const uint32 R = THOROUGH ? 3 : 2;
template <uint16 nb> static double at(BlockSparseSymMatrix<nb>& A, const uint32* r, uint32 i, uint32 j) {   // independent global -> block translation
  if (i > j) { uint32 t = i; i = j; j = t; } uint16 bi = 0, bj = 0; while (i > r[bi]) { i -= r[bi]; bi++; } while (j > r[bj]) { j -= r[bj]; bj++; }
  return bi == bj ? A.block(bi + 1)->value(i, j) : A.block(bi + 1, bj + 1)->value(i, j); }
template <uint16 nb> static void body(BlockSparseSymMatrix<nb>& A, const uint32* r, bool copy) {
  uint32 n = 0; for (int b = 0; b < nb; b++) n += r[b]; CK(A.nRows() == n, "nRows is the total of the blocks");
  uint32 i1 = pickU("i1", 1, n), j1 = pickU("j1", 1, n), i2 = pickU("i2", 1, n), j2 = pickU("j2", 1, n); A.addEntry(i1, j1); A.addEntry(i2, j2);
  BlockSparseSymMatrix<nb>* B = &A; if (copy) B = new BlockSparseSymMatrix<nb>(&A); CK(B->nRows() == n, "nRows of a matrix made from another's sparsity");
  A.compress(); B->compress(); CK(A.isCompressed() && B->isCompressed(), "compressed"); double v1 = symD("v1", -9, 9), v2 = symD("v2", -9, 9); B->addValue(i1, j1, v1); B->addValue(j2, i2, v2);
  for (uint32 qi = 1; qi <= n; qi++) for (uint32 qj = 1; qj <= n; qj++) { double e = 0; if ((qi == i1 && qj == j1) || (qi == j1 && qj == i1)) e += v1; if ((qi == i2 && qj == j2) || (qi == j2 && qj == i2)) e += v2; EQ(at<nb>(*B, r, qi, qj), e, "global position maps to exactly one cell of one block"); if (copy) EQ(at<nb>(A, r, qi, qj), 0, "sparsity is shared, values are not"); }
  for (int a = 1; a <= nb; a++) { CK(B->block(a)->nRows() == r[a - 1] && B->block(a)->nColumns() == r[a - 1], "diagonal block size"); for (int b = 1; b <= nb; b++) if (a != b) { CK(B->block(a, b) == B->block(b, a), "block(i,j) is block(j,i)"); CK(B->block(a, b)->nRows() == r[(a < b ? a : b) - 1] && B->block(a, b)->nColumns() == r[(a < b ? b : a) - 1], "off-diagonal block size"); } }
  B->zero(); EQ(at<nb>(*B, r, i1, j1), 0, "zero()"); EQ(at<nb>(*B, r, i2, j2), 0, "zero()"); if (copy) delete B; REACH("end");
}
HARNESS(two) { uint32 r[2] = {pickU("r", 0, R), pickU("r", 0, R)}; assume((r[0] > 0) | (r[1] > 0)); BlockSparseSymMatrix<2> A({r[0], r[1]}, 8); body<2>(A, r, pickB("copy")); }
HARNESS(three) { uint32 r[3] = {pickU("r", 1, R), pickU("r", 1, 2), 1}; BlockSparseSymMatrix<3> A({r[0], r[1], r[2]}, 8); body<3>(A, r, pickB("copy")); }
HARNESS(one) { uint32 r[1] = {pickU("r", 1, R)}; BlockSparseSymMatrix<1> A({r[0]}, 8); body<1>(A, r, pickB("copy")); }
HARNESS(four) { uint32 r[4] = {1, pickU("r", 0, 1), 1, 1}; BlockSparseSymMatrix<4> A({r[0], r[1], r[2], r[3]}, 8); body<4>(A, r, pickB("copy")); }
// many blocks, symbolic positions
HARNESS(five) { uint32 r[5] = {1, 2, 1, 2, 1}; BlockSparseSymMatrix<5> A({1, 2, 1, 2, 1}, 8); uint32 i = pickU("i", 1, 7), j = pickU("j", 1, 7); A.addEntry(i, j); A.compress(); double v = symD("v", 1, 9); A.addValue(j, i, v); EQ(at<5>(A, r, i, j), v, "stored where the independent translation finds it"); uint32 tot = 0; for (int x = 1; x <= 5; x++) { tot += A.block(x)->nValues(); for (int y = x + 1; y <= 5; y++) { tot += A.block(x, y)->nValues(); for (int z = 1; z <= 5; z++) for (int w = z + 1; w <= 5; w++) if (x != z || y != w) CK(A.block(x, y) != A.block(z, w), "every pair of blocks has its own matrix"); } } CK(tot == 1, "exactly one cell"); REACH("end"); }
// large blocks, symbolic positions: the translation of one global index pair
HARNESS(translate) {
  const uint32 a = 5, b = 4, c = 6; BlockSparseSymMatrix<3> A({a, b, c}, 20); uint32 i = symU("i", 1, a + b + c), j = symU("j", 1, a + b + c); A.addEntry(i, j); A.compress(); double v = symD("v", 1, 9); A.addValue(j, i, v);
  uint32 r[3] = {a, b, c}; EQ(at<3>(A, r, i, j), v, "stored where the independent translation finds it"); uint32 tot = 0; for (int x = 1; x <= 3; x++) { tot += A.block(x)->nValues(); for (int y = x + 1; y <= 3; y++) tot += A.block(x, y)->nValues(); } CK(tot == 1, "exactly one cell"); REACH("end");
}
// positions are not cut to 16 bits
HARNESS(long_blocks) { const uint32 a = 40000, b = 30000; static const uint32 AT[7] = {1, 4464, 40000, 40001, 65535, 65536, 70000}; uint32 r[2] = {a, b}; BlockSparseSymMatrix<2> A({a, b}, 2); CK(A.nRows() == a + b, "nRows beyond 65535"); uint32 i = AT[pickU("i", 0, 6)], j = AT[pickU("j", 0, 6)], i2 = AT[pickU("i2", 0, 6)]; A.addEntry(i, j); A.addEntry(i2, i2); A.compress(); double v = symD("v", 1, 9), w = symD("w", 1, 9); A.addValue(j, i, v); A.addValue(i2, i2, w); for (int x = 0; x < 7; x++) for (int y = x; y < 7; y++) { double e = 0; if ((AT[x] == i && AT[y] == j) || (AT[x] == j && AT[y] == i)) e += v; if (AT[x] == i2 && x == y) e += w; EQ(at<2>(A, r, AT[x], AT[y]), e, "cell beyond 65535"); } REACH("end"); }
