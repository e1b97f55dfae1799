// @bounds every history of up to 3 (thorough 4) operations {factorize, substitute, solve, change values, rebuild with another pattern} on a menu of up to three matrices: order 1..3, every symmetric sparsity pattern of order 2 and 3 (diagonal entries stored or not), two matrices sharing a pattern, symbolic values and right-hand sides; positive definite and indefinite; an error reported at any call; PARDISO itself is a recording stand-in that checks the calling contract of the MKL manual and answers with arbitrary values
// @outside what MKL computes (closed source); substitution before any factorization; switching symmetric/positive between factorization and substitution; more than one thread
// @assume the stand-in's reading of the PARDISO contract: zeroed handle and phase 11 first, then 22 and 33 with the same handle, structure, type and order, phase -1 once at the end
// @cxxflags -DNLA3D_USE_MKL -isystem /usr/include/mkl
// @budget 300
#include "symx.h"
#include "testel.h"
#include "math/EquationSolver.h"
#include <mkl.h>
using namespace tst;
namespace {
struct Model {
  struct H { bool live, fact; int n, mtype; std::vector<int> ia, ja; std::vector<double> a; int id; };
  std::vector<H*> h; int nAn = 0, nFa = 0, nSo = 0, nRel = 0, nCalls = 0, failAt = -1; bool positive = true;
  double b[4], x[4]; H* last = nullptr;
  void reset() { for (auto p : h) delete p; h.clear(); nAn = nFa = nSo = nRel = nCalls = 0; failAt = -1; positive = true; last = nullptr; }
} M;
}
extern "C" int MKL_Get_Max_Threads(void) { return 4; }
extern "C" void PARDISO(_MKL_DSS_HANDLE_t ptv, const int* maxfct, const int* mnum, const int* mtype, const int* phase, const int* n, const void* av, const int* ia, const int* ja, int* perm, const int* nrhs, int* iparm, const int* msglvl, void* b, void* x, int* error) {
  void** pt = (void**)ptv; const double* a = (const double*)av; *error = 0; int call = M.nCalls++;
  CK(*maxfct == 1 && *mnum == 1 && *nrhs == 1, "one factor, one right-hand side"); CK(*msglvl == 0 || *msglvl == 1, "message level");
  CK(iparm[0] == 0 || ((iparm[4] == 0 || iparm[4] == 2) && iparm[11] == 0 && iparm[27] == 0 && iparm[30] == 0 && iparm[34] == 0 && iparm[35] == 0 && iparm[36] == 0 && iparm[55] == 0 && iparm[59] == 0), "1-based three-array double precision, no permutation, no transposition, full solve in core"); CK(iparm[0] == 0 || (iparm[1] == 0 || iparm[1] == 2 || iparm[1] == 3), "known reordering"); CK(iparm[0] == 0 || iparm[3] == 0, "no iterative method instead of the factorization"); CK(iparm[0] == 0 || iparm[5] == 0, "the solution goes to the unknowns, the right-hand side stays"); CK(iparm[0] == 0 || iparm[7] >= 0, "refinement steps"); CK(iparm[0] == 0 || (iparm[9] >= 6 && iparm[9] <= 20), "pivot perturbation is small");
  if (*phase == -1) { CK(pt[0] != nullptr, "a handle is released"); Model::H* h = (Model::H*)pt[0]; bool own = false; for (auto p : M.h) own = own || p == h; CK(own && h->live, "a live handle is released once"); if (own) { CK(*n == h->n && *mtype == h->mtype, "released with the order and type it was made with"); h->live = false; } M.nRel++; return; }
  CK(*phase == 11 || *phase == 22 || *phase == 33, "known phase"); CK(a != nullptr && ia != nullptr && ja != nullptr, "matrix arrays are given"); if (!a || !ia || !ja) return;
  std::vector<int> via(ia, ia + *n + 1), vja(ja, ja + ia[*n] - 1); int nz = ia[*n] - 1;
  CK(via[0] == 1, "rows start at 1"); for (int r = 0; r < *n; r++) { CK(via[r] <= via[r + 1], "rows in order"); for (int k = via[r]; k < via[r + 1]; k++) { CK(vja[k - 1] >= r + 1 && vja[k - 1] <= *n, "upper triangle"); if (k > via[r]) CK(vja[k - 1] > vja[k - 2], "columns in order"); } }
  if (*phase == 11) { for (int i = 0; i < 64; i++) CK(pt[i] == nullptr, "the handle is zero before the analysis"); CK(*mtype == (M.positive ? 2 : -2), "matrix type as announced"); for (auto p : M.h) CK(!p->live, "the previous analysis is released first"); if (call == M.failAt) { *error = -1; return; } Model::H* h = new Model::H; h->live = true; h->fact = false; h->n = *n; h->mtype = *mtype; h->ia = via; h->ja = vja; h->id = M.h.size(); M.h.push_back(h); pt[0] = h; M.nAn++; return; }
  Model::H* h = (Model::H*)pt[0]; bool own = false; for (auto p : M.h) own = own || p == h; CK(own && h->live, "handle of a live analysis"); if (!own) return; CK(h->n == *n && h->mtype == *mtype, "same order and type as analysed"); CK(h->ia == via && h->ja == vja, "same structure as analysed"); if (call == M.failAt) { *error = -4; return; }
  if (*phase == 22) { h->a.assign(a, a + nz); h->fact = true; M.nFa++; return; }
  CK(h->fact, "factorized before it is solved"); for (int k = 0; k < nz && k < (int)h->a.size(); k++) EQ(a[k], h->a[k], "solved with the values that were factorized"); M.nSo++; M.last = h; CK(b != x, "right-hand side and unknowns are different arrays"); for (int i = 0; i < *n && i < 4; i++) { M.b[i] = ((double*)b)[i]; ((double*)x)[i] = M.x[i] = symD("x", -9, 9); }
}
static double D(const char* n) { return symD(n, -9, 9); }
// a matrix with its own record of what it holds
struct Mx { SparseSymMatrix* m; int n; double A[3][3]; bool has[3][3]; };
static void fill(Mx& v) { v.m->zero(); for (int i = 0; i < v.n; i++) for (int j = i; j < v.n; j++) { v.A[i][j] = v.A[j][i] = 0; if (v.has[i][j]) { double z = D("a"); v.A[i][j] = v.A[j][i] = z; if (i & 1) v.m->addValue(i + 1, j + 1, z); else v.m->addValue(j + 1, i + 1, z); } } }
// bits of pat: which entries of the upper triangle are stored
static void build(Mx& v, int n, uint32 pat) { v.n = n; v.m->reinit(n); int c = 0; for (int i = 0; i < n; i++) for (int j = i; j < n; j++) { bool e = pat >> c++ & 1; v.has[i][j] = v.has[j][i] = e; if (e) v.m->addEntry(i + 1, j + 1); } v.m->compress(); fill(v); }
// the system that was solved is the one that was given
static void solved(Mx& v, const double* b, const double* b0, const double* x, int so) { CK(M.nSo == so + 1, "one solution per request"); Model::H* h = M.last; CK(h && h->n == v.n, "order of the solved system"); if (!h) return; for (int i = 0; i < v.n; i++) { double row[3] = {0, 0, 0}; for (int k = h->ia[i]; k < h->ia[i + 1]; k++) row[h->ja[k - 1] - 1] = h->a[k - 1]; for (int j = i; j < v.n; j++) EQ(row[j], v.A[i][j], "the matrix is the one that was given"); EQ(M.b[i], b0[i], "the right-hand side is the one that was given"); EQ(b[i], b0[i], "the right-hand side is left alone"); EQ(x[i], M.x[i], "the unknowns receive the solution"); for (int j = i; j < v.n; j++) EQ(v.m->value(i + 1, j + 1), v.A[i][j], "the matrix is left alone"); } }
static void ask(PARDISO_equationSolver& s, Mx& v, bool whole) { double b[4], b0[4], x[4]; for (int i = 0; i < 4; i++) b[i] = b0[i] = i < v.n ? D("b") : 7.0, x[i] = 5; int so = M.nSo; if (whole) s.solveEquations(v.m, b, x); else s.substituteEquations(v.m, b, x); solved(v, b, b0, x, so); CK(b[3] == 7 && x[3] == 5 && (v.n > 2 || (b[v.n] == 7 && x[v.n] == 5)), "nothing beyond the order is touched"); }
static void done() { CK(M.nRel == M.nAn, "every analysis is released when the solver is gone"); for (auto p : M.h) CK(!p->live, "nothing is left"); }
static const uint32 FULL[4] = {0, 1, 7, 63};
HARNESS(patterns) { M.reset(); { PARDISO_equationSolver s; M.positive = pickB("positive"); s.setPositive(M.positive); s.setSymmetric(true); int n = pickU("n", 1, 3); Mx v; v.m = new SparseSymMatrix(1); uint32 pat = pickU("pattern", n == 1 ? 1 : 0, FULL[n]); if (pat) { build(v, n, pat); ask(s, v, true); CK(M.nAn == 1 && M.nFa == 1, "one analysis, one factorization"); ask(s, v, false); CK(M.nAn == 1 && M.nFa == 1, "substitution needs no new factorization"); fill(v); ask(s, v, true); CK(M.nAn == 1 && M.nFa == 2, "new values: factorized again, not analysed again"); } delete v.m; } done(); REACH("end"); }
HARNESS(unused) { M.reset(); { PARDISO_equationSolver s; s.setPositive(pickB("positive")); } { EquationSolver* s = new PARDISO_equationSolver; delete s; } CK(M.nCalls == 0, "a solver that was never used releases nothing"); REACH("end"); }
// histories over three matrices: 0 and 1 share the pattern, 2 has another pattern and maybe another order
static void history(int len, int third = -1) { M.reset(); int used = 0; { PARDISO_equationSolver s; M.positive = third < 0 && pickB("positive"); s.setPositive(M.positive); Mx v[3]; v[0].m = new SparseSymMatrix(1); build(v[0], 2, 7); v[1] = v[0]; v[1].m = new SparseSymMatrix(v[0].m->getSparsityInfo()); fill(v[1]); v[2].m = new SparseSymMatrix(1); int k2 = third < 0 ? pickU("third", 0, 3) : third; build(v[2], k2 == 3 ? 1 : k2 == 2 ? 3 : 2, k2 == 0 ? 5 : k2 == 1 ? 7 : k2 == 2 ? 45 : 1); int valid = -1;
  for (int t = 0; t < len; t++) { int op = pickU("op", 0, 4), i = op == 4 ? 2 : pickU("matrix", 0, 2); if (op == 0) { s.factorizeEquations(v[i].m); valid = i; used++; } if (op == 1) { if (valid != i) return; ask(s, v[i], false); } if (op == 2) { ask(s, v[i], true); valid = i; used++; } if (op == 3) { fill(v[i]); if (valid == i) valid = -1; } if (op == 4) { k2 = (k2 + 1) % 4; build(v[2], k2 == 3 ? 1 : k2 == 2 ? 3 : 2, k2 == 0 ? 5 : k2 == 1 ? 7 : k2 == 2 ? 45 : 1); if (valid == i) valid = -1; } CK(M.nFa == used, "one factorization per request"); }
  for (auto& x : v) delete x.m; } done(); REACH("end"); }
HARNESS(history) { history(3); }
#if THOROUGH
HARNESS(history_0) { history(4, 0); }
HARNESS(history_1) { history(4, 1); }
HARNESS(history_2) { history(4, 2); }
HARNESS(history_3) { history(4, 3); }
#endif
// the pattern is gone (and its memory perhaps reused) before the next matrix comes
HARNESS(rebuilt) { M.reset(); { PARDISO_equationSolver s; for (int t = 0; t < 3; t++) { Mx v; v.m = new SparseSymMatrix(1); int n = pickU("n", 1, 3); build(v, n, n == 1 ? 1 : pickB("full") ? FULL[n] : n == 2 ? 5 : 45); ask(s, v, true); delete v.m; } } done(); REACH("end"); }
HARNESS(errors) { M.reset(); PARDISO_equationSolver* s = new PARDISO_equationSolver; Mx v; v.m = new SparseSymMatrix(1); build(v, 2, 7); M.failAt = pickU("fail", 0, 4); __sym_expect_fatal(1); ask(*s, v, true); if (M.failAt == 3) { s->factorizeEquations(v.m); } if (M.failAt == 4) { s->factorizeEquations(v.m); ask(*s, v, false); } __sym_expect_fatal(0); CK(false, "an error of PARDISO is fatal"); }
HARNESS(release_error) { M.reset(); { PARDISO_equationSolver s; Mx v; v.m = new SparseSymMatrix(1); build(v, 2, 7); ask(s, v, true); M.failAt = 99; } done(); REACH("end"); }
HARNESS(non_symmetric) { M.reset(); PARDISO_equationSolver* s = new PARDISO_equationSolver; s->setPositive(pickB("positive")); s->setSymmetric(false); Mx v; v.m = new SparseSymMatrix(1); build(v, 2, 7); double b[2] = {1, 2}, x[2]; __sym_expect_fatal(1); s->solveEquations(v.m, b, x); __sym_expect_fatal(0); CK(false, "a non-symmetric system is refused"); }
// the FE solvers with this equation solver: the same object serves several runs
static void rod(FEStorage& st, MatSym<2>* K, Vec<2>* F, int n) { st.createNodes(n); for (int i = 0; i + 1 < n; i++) { TE* e = new TE; st.addElement(e); e->on(i + 1, i + 2); MatSym<2>* pk = K + i; Vec<2>* pf = F + i; e->fpre = [](TE& x) { for (int a = 0; a < 2; a++) x.getStorage().addNodeDof(x.getNodeNumber(a), {Dof::UX}); }; e->fK = [pk, pf](TE& x) { x.assembleK(*pk, *pf, {Dof::UX}); }; } }
HARNESS(fe_runs) { M.reset(); { PARDISO_equationSolver eq; M.positive = false; for (int run = 0; run < 2; run++) { FEStorage st; LinearFESolver so; MatSym<2> K[2]; Vec<2> F[2]; int n = pickU("nodes", 2, 3); for (int e = 0; e < 2; e++) { for (int i = 0; i < 3; i++) K[e].data[i] = D("k"); for (int i = 0; i < 2; i++) F[e][i] = D("f"); } rod(st, K, F, n); so.attachFEStorage(&st); so.attachEquationSolver(&eq); so.addFix(1, Dof::UX, 0); double P = D("P"); so.addLoad(n, Dof::UX, P); int sq = M.nSo; so.solve(); CK(M.nSo == sq + 1 && M.last->n == n - 1, "one system of the free DoFs");
    double A[2][2] = {{0, 0}, {0, 0}}, b[2] = {0, 0}; for (int e = 0; e + 1 < n; e++) { double k[2][2] = {{K[e].data[0], K[e].data[1]}, {K[e].data[1], K[e].data[2]}}; for (int i = 0; i < 2; i++) if (e + i > 0) { b[e + i - 1] += F[e][i]; for (int j = 0; j < 2; j++) if (e + j > 0) A[e + i - 1][e + j - 1] += k[i][j]; } } b[n - 2] += P; for (int i = 0; i < n - 1; i++) { double row[2] = {0, 0}; for (int k = M.last->ia[i]; k < M.last->ia[i + 1]; k++) row[M.last->ja[k - 1] - 1] = M.last->a[k - 1]; for (int j = i; j < n - 1; j++) EQ(row[j], A[i][j], "stiffness given to PARDISO"); EQ(M.b[i], b[i], "load given to PARDISO"); EQ(st.getNodeDofSolution(i + 2, Dof::UX), M.x[i], "displacements are PARDISO's answer"); } } } done(); REACH("end"); }
