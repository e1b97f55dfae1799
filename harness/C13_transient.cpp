// @bounds 2 or 3 nodes with 1 DoF, two elements with arbitrary stiffness, damping and mass, every subset of fixed DoFs, loads on every node, 1..2 (thorough 3) time steps, one MPC; arbitrary alpha, delta, time interval and initial value over exact reals; step counts 1..60 for concrete intervals in double arithmetic
// @outside rounding of double arithmetic in the state; more steps (each step only uses the state of the previous one)
// @assume alpha in [0.1,1], delta in [0.01,2], interval at least 0.5; prescribed and initial values are zero or at least 1e-6 in magnitude, and so are the entries of the history vectors multiplied by M and C (the symmetric product skips entries below 1e-20)
#include "symx.h"
#include "testel.h"
using namespace tst;
static double D(const char* n) { return symD(n, -9, 9); }
struct Env { FEStorage s; Rec rec; LinearTransientFESolver sol; TE* e[2]; double k[2][2][2], c[2][2][2], m[2][2][2], f[2][2], P[4] = {}, u0[4] = {}, co[4] = {}, b = 0; bool fx[4] = {}; Mpc* mp = nullptr; uint32 N; };
static void mat(double (&k)[2][2], const char* n) { k[0][0] = D(n); k[0][1] = k[1][0] = D(n); k[1][1] = D(n); }
static MatSym<2> ms(double (&k)[2][2]) { MatSym<2> r; r.data[0] = k[0][0]; r.data[1] = k[0][1]; r.data[2] = k[1][1]; return r; }
static int model(Env& v, uint32 N, bool mpc) { v.N = N; v.s.createNodes(N); const uint32 C[2][2] = {{1, 2}, {3, 2}}; for (uint32 i = 0; i + 1 < N; i++) { TE* e = v.e[i] = new TE; v.s.addElement(e); e->on(C[i][0], C[i][1]); mat(v.k[i], "k"); mat(v.c[i], "c"); mat(v.m[i], "m"); v.f[i][0] = D("f"); v.f[i][1] = D("f"); e->fpre = [N](TE& x) { for (uint32 n = 1; n <= N; n++) x.getStorage().addNodeDof(n, {Dof::TEMP}); }; auto k = &v.k[i], c = &v.c[i], m = &v.m[i]; auto f = &v.f[i]; e->fK = [k, f](TE& x) { MatSym<2> K = ms(*k); Vec<2> F((*f)[0], (*f)[1]); x.assembleK(K, F, {Dof::TEMP}); }; e->fC = [c](TE& x) { MatSym<2> K = ms(*c); x.assembleC(K, {Dof::TEMP}); }; e->fM = [m](TE& x) { MatSym<2> K = ms(*m); x.assembleM(K, {Dof::TEMP}); }; }
  if (mpc) { v.mp = new Mpc; v.mp->b = v.b = D("b"); v.mp->eqNum = 0; for (uint32 n = 1; n <= N; n++) { v.co[n] = D("co"); v.mp->eq.push_back(MpcTerm(n, Dof::TEMP, v.co[n])); } v.s.addMpc(v.mp); }
  v.sol.attachFEStorage(&v.s); v.sol.attachEquationSolver(&v.rec); int nf = 0; for (uint32 n = 1; n <= N; n++) { if (uint32 q = pickU("fix", 0, 2)) { v.fx[n] = true; nf++; if (q == 2) v.sol.addFix(n, Dof::TEMP); else { v.u0[n] = D("u0"); assume((v.u0[n] > 1e-6) | (v.u0[n] < -1e-6)); v.sol.addFix(n, Dof::TEMP, v.u0[n]); } } v.P[n] = D("P"); v.sol.addLoad(n, Dof::TEMP, v.P[n]); } return N - nf; }
static void steps(uint32 N, bool mpc, uint16 ns, int params) { Env v; int nu = model(v, N, mpc); if (!nu) return; double al = 0.25, de = 0.5, t0 = 0, t1 = 1; if (params == 1) { al = 0.5; de = 0.75; t0 = 2; t1 = 2 + ns * 0.5; } if (params == 2) { al = symD("alpha", 0.1, 1); de = symD("delta", 0.01, 2); t0 = symD("t0", 0, 2); t1 = t0 + symD("T", 0.5, 4); } if (params == 3) { de = 1; al = 0.5; t0 = 0.5; t1 = 1; } v.sol.alpha = al; v.sol.delta = de; v.sol.time0 = t0; v.sol.time1 = t1; v.sol.numberOfTimesteps = ns; double init = 0; if (pickB("init0")) { init = D("init"); assume((init > 1e-6) | (init < -1e-6)); v.sol.initValue = init; } double dt = (t1 - t0) / ns;
  static double U[5], V[5], A[5]; static int n; n = 0; for (int i = 0; i < 5; i++) { U[i] = i >= 1 && i <= (int)N && v.fx[i] ? v.u0[i] : init; V[i] = A[i] = 0; } Env* pv = &v; std::vector<int> log; PP* pp = new PP(&v.s, &log); v.sol.addPostProcessor(pp);
  pp->f = [pv, al, de, dt, N, mpc, nu]() { FEStorage& s = pv->s; uint32 nc = s.nConstrainedDofs(); CK((int)pv->rec.q.size() == ++n, "one system per time step"); auto& z = pv->rec.q.back(); CK(z.n == nu + mpc, "system size"); double u[5], w[5], a[5]; for (uint32 i = 1; i <= N; i++) { uint32 q = s.getNodeDofEqNumber(i, Dof::TEMP); u[i] = s.getNodeDofSolution(i, Dof::TEMP); w[i] = (*s.getDU())[q - 1]; a[i] = (*s.getDDU())[q - 1]; if (pv->fx[i]) { EQ(u[i], pv->u0[i], L2("prescribed value", i)); EQ(w[i], 0, L2("prescribed value has no rate", i)); } else EQ(u[i], z.x[q - 1 - nc], "the solver's answer is the new state"); }
    for (uint32 i = 1; i <= N; i++) { EQ(u[i], U[i] + dt * V[i] + dt * dt * ((0.5 - al) * A[i] + al * a[i]), L2("Newmark: u", i)); EQ(w[i], V[i] + dt * ((1 - de) * A[i] + de * a[i]), L2("Newmark: du/dt", i)); }
    for (uint32 i = 1; i <= N; i++) if (!pv->fx[i]) { double r = -pv->P[i]; for (uint32 e = 0; e + 1 < N; e++) for (int p = 0; p < 2; p++) if (pv->e[e]->getNodeNumber(p) == i) { r -= pv->f[e][p]; for (int q = 0; q < 2; q++) { uint32 j = pv->e[e]->getNodeNumber(q); r += pv->m[e][p][q] * a[j] + pv->c[e][p][q] * w[j] + pv->k[e][p][q] * u[j]; } } if (mpc) r += pv->co[i] * (*s.getU())[pv->mp->eqNum - 1]; EQ(r, pv->rec.res(n - 1, s.getNodeDofEqNumber(i, Dof::TEMP) - 1 - nc), L2("M a + C v + K u = F + R at the end of the step", i)); }
    if (mpc) { double r = -pv->b; for (uint32 i = 1; i <= N; i++) r += pv->co[i] * u[i]; EQ(r, pv->rec.res(n - 1, pv->mp->eqNum - 1 - nc), "the MPC holds at the end of the step"); } CK(pv->e[0]->nup == n, "elements are updated every step"); for (uint32 i = 1; i <= N; i++) { U[i] = u[i]; V[i] = w[i]; A[i] = a[i]; } auto& S = pv->sol; if (n < S.numberOfTimesteps) for (uint32 i = nc; i < nc + nu + mpc; i++) { double x = (*s.getU())[i], y = (*s.getDU())[i], q = (*s.getDDU())[i], e1 = S.a0 * x + S.a2 * y + S.a3 * q, e2 = S.a1 * x + S.a4 * y + S.a5 * q; assume((e1 > 1e-6) | (e1 < -1e-6)); assume((e2 > 1e-6) | (e2 < -1e-6)); } };
  v.sol.solve(); CK(n == ns, "as many time steps as requested"); CK((int)log.size() == ns + 2 && log[0] == -1 && log.back() >= 1000, "post-processing order"); for (int i = 1; i <= ns; i++) CK(log[i] == i, "process receives the step number"); CK(v.s.isTransient(), "the storage is transient"); REACH("end"); }
HARNESS(two_nodes) { steps(2, false, 1, 2); } HARNESS(two_nodes_2) { steps(2, false, 2, pickU("par", 0, 1)); } HARNESS(two_nodes_mpc) { steps(2, true, 1, 1); } HARNESS(three_nodes) { steps(3, false, 1, pickU("par", 0, 1)); } HARNESS(three_nodes_2) { steps(3, false, 2, 3); }
#if THOROUGH
HARNESS(two_nodes_2s) { steps(2, false, 2, 2); } HARNESS(two_nodes_3) { steps(2, false, 3, 1); } HARNESS(three_nodes_mpc) { steps(3, true, 2, 3); } HARNESS(three_nodes_s) { steps(3, false, 1, 2); }
#endif
// the number of steps does not depend on rounding of the accumulated time
HARNESS(step_count) { Env v; v.s.createNodes(2); TE* e = new TE; v.s.addElement(e); e->on(1, 2); e->fpre = [](TE& x) { for (uint32 n = 1; n <= 2; n++) x.getStorage().addNodeDof(n, {Dof::TEMP}); }; v.sol.attachFEStorage(&v.s); v.sol.attachEquationSolver(&v.rec); v.rec.pick = [](Rec::Q& z) { for (int i = 0; i < z.n; i++) z.x[i] = 0; }; const double T[4] = {1, 0.3, 10, 100}; uint16 ns = pickU("ns", 1, 60); v.sol.time0 = pickB("t0") ? 0.1 : 0; v.sol.time1 = v.sol.time0 + T[pickU("T", 0, 3)]; v.sol.numberOfTimesteps = ns; std::vector<int> log; v.sol.addPostProcessor(new PP(&v.s, &log)); v.sol.solve(); CK((int)log.size() == ns + 2, "the requested number of time steps is made"); REACH("end"); }
// the largest number of steps that can be asked for
struct Zero : math::EquationSolver { void solveEquations(math::SparseSymMatrix*, double*, double*) override {} void factorizeEquations(math::SparseSymMatrix*) override {} void substituteEquations(math::SparseSymMatrix* m, double*, double* x) override { n++; for (uint32 i = 0; i < m->nRows(); i++) x[i] = 0; } int n = 0; };
struct Count : PostProcessor { Count(FEStorage* s, int* n) : PostProcessor(s), n(n) {} void pre() override {} void process(uint16 k) override { (*n)++; CK(*n <= 65535, "no more steps than requested"); if (*n > 65535) assume(false); CK(k == *n, "process receives the step number"); } void post(uint16) override {} int* n; };
HARNESS(most_steps) { FEStorage s; LinearTransientFESolver sol; Zero z; s.createNodes(2); TE* e = new TE; s.addElement(e); e->on(1, 2); e->fpre = [](TE& x) { for (uint32 n = 1; n <= 2; n++) x.getStorage().addNodeDof(n, {Dof::TEMP}); }; sol.attachFEStorage(&s); sol.attachEquationSolver(&z); sol.addFix(pickU("fix", 1, 2), Dof::TEMP); sol.numberOfTimesteps = 65535; int n = 0; sol.addPostProcessor(new Count(&s, &n)); sol.solve(); CK(n == 65535 && z.n == 65535, "the requested number of time steps is made"); REACH("end"); }
