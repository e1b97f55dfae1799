// @bounds 3 nodes with 1 DoF (every mesh of two bars over them, every subset of fixed DoFs, loads on every node) and 2 nodes with 2 DoFs, 0..2 MPCs; every stiffness, load, element load, prescribed value, MPC coefficient and right-hand side over exact reals; the equation solver's answer is an arbitrary vector (residual identity) or the built-in solver's (end-to-end, up to 2 unknowns + 1 multiplier)
// @outside rounding of double arithmetic; larger models
// @assume prescribed values are zero or at least 1e-6 in magnitude (the symmetric product skips vector entries below 1e-20)
// @assume end-to-end runs: the built-in solver does not refuse the system
#include "symx.h"
#include "testel.h"
using namespace tst;
static double D(const char* n) { return symD(n, -9, 9); }
static const uint32 PR[6][2] = {{1, 2}, {2, 1}, {1, 3}, {3, 1}, {2, 3}, {3, 2}};
struct Env { FEStorage s; Rec rec; LinearFESolver sol; TE* e[2]; MatSym<2> K[2]; Vec<2> F[2]; double k[2][2][2], P[4] = {}, fixv[4] = {}; bool fx[4] = {}, zero = true; int nm = 0; double co[2][3], b[2]; Mpc* mp[2]; };
// the 3-node model; returns false when it is fully fixed
static bool model(Env& v, uint32 p, uint32 q, int nm) {
  v.s.createNodes(3); for (int i = 0; i < 2; i++) { v.e[i] = new TE; v.s.addElement(v.e[i]); uint32 z = i ? q : p; v.e[i]->on(PR[z][0], PR[z][1]); int c = 0; for (int a = 0; a < 2; a++) { v.F[i][a] = D("f"); for (int b = a; b < 2; b++) v.k[i][a][b] = v.k[i][b][a] = v.K[i].data[c++] = D("k"); } MatSym<2>* pk = &v.K[i]; Vec<2>* pf = &v.F[i]; v.e[i]->fpre = [](TE& x) { for (uint32 n = 1; n <= 3; n++) x.getStorage().addNodeDof(n, {Dof::UX}); }; v.e[i]->fK = [pk, pf](TE& x) { x.assembleK(*pk, *pf, {Dof::UX}); }; }
  v.nm = nm; for (int i = 0; i < nm; i++) { v.mp[i] = new Mpc; v.mp[i]->b = v.b[i] = D("b"); v.mp[i]->eqNum = 0; for (int t = 0; t < 3; t++) { v.co[i][t] = 0; if (t != i) { v.co[i][t] = D("co"); v.mp[i]->eq.push_back(MpcTerm(t + 1, Dof::UX, v.co[i][t])); } } v.s.addMpc(v.mp[i]); }
  v.sol.attachFEStorage(&v.s); int nf = 0; for (uint32 n = 1; n <= 3; n++) if (uint32 fm = pickU("fix", 0, v.zero ? 2 : 1)) { v.fx[n] = true; nf++; if (fm == 2) v.sol.addFix(n, Dof::UX); else { v.fixv[n] = D("u0"); assume((v.fixv[n] > 1e-6) | (v.fixv[n] < -1e-6)); v.sol.addFix(n, Dof::UX, v.fixv[n]); } } for (uint32 n = 3; n >= 1; n--) { double a = D("P"); v.P[n] = a; v.sol.addLoad(n, Dof::UX, a); if (n == 2) { double c = D("P2"); v.P[n] += c; v.sol.addLoad(n, Dof::UX, c); } } return nf < 3; }
// global balance row of a node: sum K u + sum MPC coef * lambda - F
static double row(Env& v, uint32 n) { double r = 0; for (int i = 0; i < 2; i++) for (int a = 0; a < 2; a++) if (v.e[i]->getNodeNumber(a) == n) { r -= v.F[i][a]; for (int b = 0; b < 2; b++) r += v.k[i][a][b] * v.s.getNodeDofSolution(v.e[i]->getNodeNumber(b), Dof::UX); } for (int i = 0; i < v.nm; i++) r += v.co[i][n - 1] * (*v.s.getU())[v.mp[i]->eqNum - 1]; return r; }
static double mpcrow(Env& v, int i) { double r = -v.b[i]; for (int t = 0; t < 3; t++) r += v.co[i][t] * v.s.getNodeDofSolution(t + 1, Dof::UX); return r; }
static void supports(Env& v) { for (uint32 n = 1; n <= 3; n++) if (v.fx[n]) { EQ(v.s.getNodeDofSolution(n, Dof::UX), v.fixv[n], L2("prescribed values hold exactly", n)); EQ(v.s.getReaction(n, Dof::UX), row(v, n), L2("reactions balance K u - F", n)); } else EQ(v.s.getReaction(n, Dof::UX), v.P[n], L2("R of a free DoF is its load", n)); }
static void residual(uint32 p, uint32 q, int nm) { Env v; if (!model(v, p, q, nm)) return; v.sol.attachEquationSolver(&v.rec); std::vector<int> log; PP* pp = new PP(&v.s, &log); CK(v.sol.addPostProcessor(pp) == 1 && v.sol.getNumberOfPostProcessors() == 1, "post-processor number"); v.sol.solve();
  CK(v.rec.q.size() == 1 && (uint32)v.rec.q[0].n == v.s.nUnknownDofs() + nm, "one system of all unknowns and multipliers is solved"); uint32 nc = v.s.nConstrainedDofs(); for (uint32 i = 0; i < v.s.nUnknownDofs() + nm; i++) EQ((*v.s.getU())[nc + i], v.rec.q[0].x[i], "the solver's answer is the solution");
  for (uint32 n = 1; n <= 3; n++) if (!v.fx[n]) EQ(row(v, n) - v.P[n], v.rec.res(0, v.s.getNodeDofEqNumber(n, Dof::UX) - 1 - nc), L2("the solved equation is the balance K u = F + R", n)); for (int i = 0; i < nm; i++) EQ(mpcrow(v, i), v.rec.res(0, v.mp[i]->eqNum - 1 - nc), L2("the solved equation is the MPC", i)); supports(v);
  CK(v.e[0]->nup == 1 && v.e[1]->nup == 1, "elements are updated after the solution"); CK(log.size() == 3 && log[0] == -1 && log[1] == 1 && log[2] == 1001, "post-processing order"); REACH("end"); }
HARNESS(all_meshes) { residual(pickU("p", 0, 5), pickU("q", 0, 5), 0); }
HARNESS(mpc) { residual(pickU("p", 0, 5), 4, pickU("nm", 1, 2)); }
#if THOROUGH
HARNESS(mpc_all) { residual(pickU("p", 0, 5), pickU("q", 0, 5), pickU("nm", 1, 2)); }
#endif
// post-processors see the finished solution
HARNESS(process_sees_solution) { Env v; if (!model(v, 0, 4, 0)) return; v.sol.attachEquationSolver(&v.rec); std::vector<int> log; PP* pp = new PP(&v.s, &log); v.sol.addPostProcessor(pp); Env* pv = &v; double seen[4] = {}, re[4] = {}; double *ps = seen, *pr = re; pp->f = [pv, ps, pr]() { for (uint32 n = 1; n <= 3; n++) { ps[n] = pv->s.getNodeDofSolution(n, Dof::UX); pr[n] = pv->s.getReaction(n, Dof::UX); CK(pv->e[0]->nup == 1, "process is called after update"); } }; v.sol.solve(); for (uint32 n = 1; n <= 3; n++) { EQ(seen[n], v.s.getNodeDofSolution(n, Dof::UX), "process sees the final solution"); EQ(re[n], v.s.getReaction(n, Dof::UX), "process sees the final reactions"); } REACH("end"); }
// end to end with the built-in solver
static void e2e(uint32 p, uint32 q, int nm, uint32 maxfree) { Env v; if (!model(v, p, q, nm)) return; int fr = 0; for (int n = 1; n <= 3; n++) fr += !v.fx[n]; if (fr > (int)maxfree) return; __sym_expect_fatal(1); v.sol.solve(); __sym_expect_fatal(0); for (uint32 n = 1; n <= 3; n++) if (!v.fx[n]) EQ(row(v, n), v.P[n], L2("K u = F + R", n)); for (int i = 0; i < nm; i++) EQ(mpcrow(v, i), 0, "the MPC holds"); supports(v); REACH("end"); }
HARNESS(e2e) { e2e(1, 4, 0, 2); } HARNESS(e2e_mpc) { e2e(0, 4, 1, THOROUGH ? 2 : 1); }
#if THOROUGH
HARNESS(e2e_free) { e2e(2, 4, 0, 3); }
#endif
// two DoFs per node: fixes and loads address the DoF they name
HARNESS(two_dofs) { FEStorage s; s.createNodes(2); TE* e = new TE; s.addElement(e); e->on(2, 1); MatSym<4> K; double k[4][4]; int c = 0; for (int a = 0; a < 4; a++) for (int b = a; b < 4; b++) k[a][b] = k[b][a] = K.data[c++] = D("k"); e->fpre = [](TE& x) { for (uint32 n = 1; n <= 2; n++) x.getStorage().addNodeDof(n, {Dof::UY, Dof::UX}); }; MatSym<4>* pk = &K; e->fK = [pk](TE& x) { x.assembleK(*pk, {Dof::UX, Dof::UY}); }; Rec rec; LinearFESolver sol; sol.attachFEStorage(&s); sol.attachEquationSolver(&rec); bool fx[4]; double u0[4], P[4]; int nf = 0;
  for (int a = 0; a < 4; a++) { fx[a] = pickB("fix"); nf += fx[a]; u0[a] = D("u0"); assume((u0[a] > 1e-6) | (u0[a] < -1e-6)); P[a] = D("P"); uint32 n = a / 2 ? 1 : 2; Dof::dofType t = a % 2 ? Dof::UY : Dof::UX; if (fx[a]) sol.addFix(n, t, u0[a]); else sol.addLoad(n, t, P[a]); } if (nf == 4) return; sol.solve(); for (int a = 0; a < 4; a++) { uint32 n = a / 2 ? 1 : 2; Dof::dofType t = a % 2 ? Dof::UY : Dof::UX; double r = 0; for (int b = 0; b < 4; b++) r += k[a][b] * s.getNodeDofSolution(b / 2 ? 1 : 2, b % 2 ? Dof::UY : Dof::UX); if (fx[a]) { EQ(s.getNodeDofSolution(n, t), u0[a], "prescribed DoF"); EQ(s.getReaction(n, t), r, "reaction"); } else EQ(r - P[a], rec.res(0, s.getNodeDofEqNumber(n, t) - 1 - nf), "balance"); } REACH("end"); }
// the matrices can be dumped and compared with the dump; a different model is told apart
HARNESS(dump_compare) { Env v; if (!model(v, 0, 4, 1)) return; v.sol.attachEquationSolver(&v.rec); v.sol.solve(); v.sol.dumpMatricesAndVectors("dump.txt"); v.sol.compareMatricesAndVectors("dump.txt", 1e-9); uint32 what = pickU("what", 0, 2); double d = D("d"); assume((d > 0.001) | (d < -0.001)); if (what == 0) v.s.addValueK(1, Dof::UX, 2, Dof::UX, d); else if (what == 1) v.s.addValueF(2, Dof::UX, d); else v.s.addValueR(3, Dof::UX, d); bool failed = true; __sym_expect_fatal(1); v.sol.compareMatricesAndVectors("dump.txt", 1e-9); __sym_expect_fatal(0); CK(!failed, "a changed system is refused by the comparison"); }
