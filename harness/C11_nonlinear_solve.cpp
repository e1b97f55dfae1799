// @bounds (multi-step runs: corrections of one sign, at most 2 free DoFs) 3 nodes with 1 DoF, two bars, every subset of fixed DoFs, loads on every node, 1..3 load steps, 1..2 (thorough 3) iterations per step, one homogeneous MPC; every stiffness, load, prescribed value over exact reals; the equation solver's answers are arbitrary vectors
// @outside rounding of double arithmetic; larger models; MPCs with a constant non-zero right-hand side (in the incremental procedure b is the residual of the constraint)
// @assume prescribed values are at least 1e-6 in magnitude; convergence criterion within [1e-4,1]
#include "symx.h"
#include "testel.h"
using namespace tst;
static double D(const char* n) { return symD(n, -9, 9); }
struct Env { FEStorage s; Rec rec; NonlinearFESolver sol; TE* e[2]; double k[2][2][2], P[4] = {}, u0[4] = {}, co[4] = {}; bool fx[4] = {}; Mpc* mp = nullptr; int it = 0; double du[16][8]; };
static double U(Env& v, uint32 n) { return v.s.getNodeDofSolution(n, Dof::UX); }
static double bars(Env& v, uint32 n, double* u) { double r = 0; for (int i = 0; i < 2; i++) for (int a = 0; a < 2; a++) if (v.e[i]->getNodeNumber(a) == n) for (int b = 0; b < 2; b++) r += v.k[i][a][b] * u[v.e[i]->getNodeNumber(b)]; return r; }
// linear bars in incremental form: F = -K u
static int model(Env& v, bool mpc) { v.s.createNodes(3); const uint32 C[2][2] = {{1, 2}, {3, 2}}; for (int i = 0; i < 2; i++) { TE* e = v.e[i] = new TE; v.s.addElement(e); e->on(C[i][0], C[i][1]); v.k[i][0][0] = D("k"); v.k[i][0][1] = v.k[i][1][0] = D("k"); v.k[i][1][1] = D("k"); e->fpre = [](TE& x) { for (uint32 n = 1; n <= 3; n++) x.getStorage().addNodeDof(n, {Dof::UX}); }; auto k = &v.k[i]; Env* pv = &v; e->fK = [k, pv](TE& x) { MatSym<2> K; Vec<2> F; K.data[0] = (*k)[0][0]; K.data[1] = (*k)[0][1]; K.data[2] = (*k)[1][1]; for (int a = 0; a < 2; a++) { F[a] = 0; for (int b = 0; b < 2; b++) F[a] -= (*k)[a][b] * U(*pv, x.getNodeNumber(b)); } x.assembleK(K, F, {Dof::UX}); }; }
  if (mpc) { v.mp = new Mpc; v.mp->b = 0; v.mp->eqNum = 0; for (uint32 n = 2; n <= 3; n++) { v.co[n] = D("co"); v.mp->eq.push_back(MpcTerm(n, Dof::UX, v.co[n])); } v.s.addMpc(v.mp); }
  v.sol.attachFEStorage(&v.s); v.sol.attachEquationSolver(&v.rec); int nf = 0; for (uint32 n = 1; n <= 3; n++) { if (pickB("fix")) { v.fx[n] = true; nf++; v.u0[n] = D("u0"); assume((v.u0[n] > 1e-6) | (v.u0[n] < -1e-6)); v.sol.addFix(n, Dof::UX, v.u0[n]); } v.P[n] = D("P"); v.sol.addLoad(n, Dof::UX, v.P[n]); } return 3 - nf; }
static void iterations(bool mpc, uint16 steps, uint16 iters, bool pos = false) { Env v; int nu = model(v, mpc); if (!nu || (pos && nu > 2)) return; if (pos) v.rec.pick = [](Rec::Q& z) { for (int i = 0; i < z.n; i++) z.x[i] = symD("x", 0, 9); }; double crit = pickB("crit") ? 0.5 : 1e-3; v.sol.numberOfLoadsteps = steps; v.sol.numberOfIterations = iters; v.sol.convergenceCriteria = crit; std::vector<int> log; PP* pp = new PP(&v.s, &log); v.sol.addPostProcessor(pp); Env* pv = &v; int nproc = 0; int* pn = &nproc; uint16* ps = &steps;
  static double u[4]; static int done; for (int n = 0; n < 4; n++) u[n] = 0; done = 0; // shadow solution
  // the answers: free; the shadow is updated when the elements are updated
  v.e[0]->fup = [pv, mpc, crit, nu, ps](TE&) { double t = pv->sol.timeControl.getCurrentNormalizedTime(); int step = pv->sol.timeControl.getCurrentStep(); NEAR(t * *ps, step, 1e-9, "load steps are equal parts of the load"); auto& z = pv->rec.q.back(); uint32 nc = pv->s.nConstrainedDofs(); double lam = mpc ? z.x[pv->mp->eqNum - 1 - nc] : 0; CK((int)pv->rec.q.size() == ++done, "one system per iteration"); CK(z.n == nu + mpc, "system size");
    for (uint32 n = 1; n <= 3; n++) u[n] = pv->fx[n] ? pv->u0[n] * t : u[n] + z.x[pv->s.getNodeDofEqNumber(n, Dof::UX) - 1 - nc];
    for (uint32 n = 1; n <= 3; n++) { EQ(U(*pv, n), u[n], L2("free DoFs accumulate the corrections, fixed ones follow their value", n)); double bal = bars(*pv, n, u) + pv->co[n] * lam; if (pv->fx[n]) EQ(pv->s.getReaction(n, Dof::UX), bal, L2("reactions balance the internal forces", n)); else EQ(bal - pv->P[n] * t, pv->rec.res(done - 1, pv->s.getNodeDofEqNumber(n, Dof::UX) - 1 - nc), L2("the corrected solution balances the load of this step", n)); }
    if (mpc) { EQ((*pv->s.getU())[pv->mp->eqNum - 1], lam, "the multiplier is the one of the last iteration"); EQ(pv->co[2] * u[2] + pv->co[3] * u[3], pv->rec.res(done - 1, pv->mp->eqNum - 1 - nc), "the corrected solution satisfies the MPC"); } };
  pp->f = [pv, crit, pn, nu]() { (*pn)++; auto& z = pv->rec.q.back(); double m = 0; for (int i = 0; i < nu; i++) m += z.x[i] < 0 ? -z.x[i] : z.x[i]; CK(m <= crit * nu, "a step is accepted only when the last correction is below the criterion"); };
  __sym_expect_fatal(1); v.sol.solve(); __sym_expect_fatal(0); CK(nproc == steps, "every load step is processed once"); CK((int)log.size() == steps + 2 && log[0] == -1 && log.back() >= 1000, "post-processing order"); for (int i = 1; i <= steps; i++) CK(log[i] == i, "process receives the step number"); for (uint32 n = 1; n <= 3; n++) if (v.fx[n]) EQ(U(v, n), v.u0[n], "the full prescribed value at the end"); EQ(v.sol.timeControl.getCurrentNormalizedTime(), 1, "the analysis reaches the end"); CK(v.e[0]->nup == (int)v.rec.q.size() && v.e[1]->nup == v.e[0]->nup, "elements are updated after every iteration"); REACH("end"); }
HARNESS(one_step) { iterations(false, 1, 2); } HARNESS(two_steps) { iterations(false, 2, 1); } HARNESS(three_steps) { iterations(false, 3, 1, true); } HARNESS(two_by_two) { iterations(false, 2, 2, true); }
HARNESS(mpc) { iterations(true, 1, 1); }
#if THOROUGH
HARNESS(two_by_three) { iterations(false, 2, 3, true); }
#endif
// a correction that never gets small ends in an error, one that is zero is accepted at once, a huge one is a divergence error
HARNESS(verdict) { Env v; int nu = model(v, false); if (!nu) return; int kind = pickU("kind", 0, 2); v.sol.numberOfLoadsteps = 1; uint16 it = pickU("it", 1, 3); v.sol.numberOfIterations = it; double c = v.sol.convergenceCriteria; CK(c > 0 && c <= 1, "default criterion"); v.rec.pick = [kind, c](Rec::Q& z) { for (int i = 0; i < z.n; i++) { double x = symD("x", -9, 9); if (kind == 0) x = 0; if (kind == 1) assume((x > 2 * c) | (x < -2 * c)); if (kind == 2) { assume(x > 1); x *= 1e7; } z.x[i] = x; } }; bool failed = true; if (kind) { __sym_expect_fatal(1); v.sol.solve(); __sym_expect_fatal(0); CK(!failed, "a solution that does not converge is refused"); } else { v.sol.solve(); CK(v.rec.q.size() == 1, "a zero correction ends the iteration"); REACH("end"); } }
// defaults and one-dimensional end-to-end run with the built-in solver: the linear model is solved in the first iteration of each step
HARNESS(e2e) { Env v; v.fx[1] = true; FEStorage& s = v.s; s.createNodes(2); TE* e = new TE; s.addElement(e); e->on(1, 2); double k = symD("k", 1, 9), P = D("P"), u0 = D("u0"); assume((u0 > 1e-6) | (u0 < -1e-6)); Env* pv = &v; e->fpre = [](TE& x) { for (uint32 n = 1; n <= 2; n++) x.getStorage().addNodeDof(n, {Dof::UX}); }; e->fK = [k, pv](TE& x) { MatSym<2> K; Vec<2> F; K.data[0] = K.data[2] = k; K.data[1] = -k; double d = U(*pv, 2) - U(*pv, 1); F[0] = k * d; F[1] = -k * d; x.assembleK(K, F, {Dof::UX}); }; v.sol.attachFEStorage(&s); v.sol.addFix(1, Dof::UX, u0); v.sol.addLoad(2, Dof::UX, P); v.sol.numberOfLoadsteps = pickU("steps", 1, 3); v.sol.solve(); EQ(k * (U(v, 2) - U(v, 1)), P, "k (u2 - u1) = P"); EQ(U(v, 1), u0, "support"); EQ(s.getReaction(1, Dof::UX), -P, "reaction"); REACH("end"); }
