// @bounds 3 nodes, every pair of two-node elements over them (all connectivities and orders) plus a one-node element, 1 or 2 DoFs per node in either order, element DoF, 0..2 MPCs of up to 3 terms, every subset of constrained DoFs of the node-DoF models; one model of 65600 nodes (elements on picked far nodes) and one of 65600 DoFs; every element-matrix, load and MPC value over exact reals
// @outside meshes larger than 3 nodes / 3 elements; elements that list a node twice
#include "symx.h"
#include "testel.h"
using namespace tst;
static double D(const char* n) { return symD(n, -1e6, 1e6); }
static const uint32 PR[6][2] = {{1, 2}, {2, 1}, {1, 3}, {3, 1}, {2, 3}, {3, 2}};
// value of a global position of a block matrix, 0 outside the pattern
static double at(BlockSparseSymMatrix<2>* m, uint32 nc, uint32 i, uint32 j) { if (i > j) std::swap(i, j); if (j <= nc) return m->block(1)->value(i, j); if (i > nc) return m->block(2)->value(i - nc, j - nc); return m->block(1, 2)->value(i, j - nc); }
struct Model { FEStorage s; std::vector<Dof::dofType> T; double K[9][9] = {}, C[9][9] = {}, M[9][9] = {}, F[9] = {}; uint32 nc = 0, N = 0; };
static void addsym(double (&A)[9][9], uint32 i, uint32 j, double v) { A[i - 1][j - 1] += v; if (i != j) A[j - 1][i - 1] += v; }
static void cmp(Model& m, BlockSparseSymMatrix<2>* b, double (&A)[9][9], const char* l) { for (uint32 i = 1; i <= m.N; i++) for (uint32 j = 1; j <= m.N; j++) EQ(at(b, m.nc, i, j), A[i - 1][j - 1], L2(l, i, j)); }
template <uint16 W> static void fillS(MatSym<W>& k, double (&f)[W][W], const char* n) { uint16 q = 0; for (int i = 0; i < W; i++) for (int j = i; j < W; j++) f[i][j] = f[j][i] = k.data[q++] = D(n); }
// one-DoF-per-node model, all connectivities, all constraint subsets
template <class E> static void run(E build) { build(); }
static void one(uint32 p, uint32 q, bool transient, int nm) {
  Model m; FEStorage& s = m.s; s.setTransient(transient); s.createNodes(3); TE *e[2] = {new TE, new TE}; TV* v = new TV; s.addElement(e[0]); s.addElement(v); s.addElement(e[1]); e[0]->on(PR[p][0], PR[p][1]); e[1]->on(PR[q][0], PR[q][1]); v->on(3);
  MatSym<2> K[2], C[2], M[2]; double k[2][2][2], c[2][2][2], mm[2][2][2]; Vec<2> F[2]; MatSym<1> kv; double kvf[1][1]; for (int i = 0; i < 2; i++) { fillS(K[i], k[i], "k"); F[i][0] = D("f"); F[i][1] = D("f"); if (transient) { fillS(C[i], c[i], "c"); fillS(M[i], mm[i], "m"); } } fillS(kv, kvf, "kv");
  for (int i = 0; i < 2; i++) { e[i]->fpre = [](TE& x) { for (int a = 0; a < 2; a++) x.getStorage().addNodeDof(x.getNodeNumber(a), {Dof::UX}); }; MatSym<2>*pk = &K[i], *pc = &C[i], *pm = &M[i]; Vec<2>* pf = &F[i]; e[i]->fK = [pk, pf](TE& x) { x.assembleK(*pk, *pf, {Dof::UX}); }; e[i]->fC = [pc](TE& x) { x.assembleC(*pc, {Dof::UX}); }; e[i]->fM = [pm](TE& x) { x.assembleM(*pm, {Dof::UX}); }; }
  v->fpre = [](TV& x) { for (uint32 n = 1; n <= 3; n++) x.getStorage().addNodeDof(n, {Dof::UX}); }; MatSym<1>* pkv = &kv; v->fK = [pkv](TV& x) { x.assembleK(*pkv, {Dof::UX}); };
  double b[2], co[2][3]; Mpc* mp[2]; for (int i = 0; i < nm; i++) { mp[i] = new Mpc; mp[i]->b = b[i] = D("b"); mp[i]->eqNum = 0; for (int t = 0; t < 3; t++) { co[i][t] = D("co"); if (t < 2 || i == 0) mp[i]->eq.push_back(MpcTerm(i == 0 ? t + 1 : 2 + t % 2, Dof::UX, co[i][t])); } s.addMpc(mp[i]); }
  s.initDofs(); uint32 nc = 0; for (uint32 n = 1; n <= 3; n++) if (nc < 2 && pickB("fix")) { s.setConstrainedNodeDof(n, Dof::UX); nc++; } s.assignEquationNumbers(); s.initSolutionData(); m.nc = nc; m.N = 3 + nm;
  for (uint32 i = 0; i < m.N; i++) (*s.getF())[i] = D("old"); (*s.getR())[0] = D("r"); double r0 = (*s.getR())[0];
  uint32 eq[4]; for (uint32 n = 1; n <= 3; n++) eq[n] = s.getNodeDofEqNumber(n, Dof::UX);
  for (int i = 0; i < 2; i++) { uint32* pr = const_cast<uint32*>(PR[i ? q : p]); for (int a = 0; a < 2; a++) { m.F[eq[pr[a]] - 1] += F[i][a]; for (int c2 = a; c2 < 2; c2++) { addsym(m.K, eq[pr[a]], eq[pr[c2]], k[i][a][c2]); if (transient) { addsym(m.C, eq[pr[a]], eq[pr[c2]], c[i][a][c2]); addsym(m.M, eq[pr[a]], eq[pr[c2]], mm[i][a][c2]); } } } } addsym(m.K, eq[3], eq[3], kvf[0][0]);
  for (int i = 0; i < nm; i++) { m.F[mp[i]->eqNum - 1] = b[i]; for (int t = 0; t < 3; t++) if (t < 2 || i == 0) addsym(m.K, mp[i]->eqNum, eq[i == 0 ? t + 1 : 2 + t % 2], co[i][t]); }
  for (int rep = 1; rep <= 2; rep++) { s.assembleGlobalEqMatrices(); cmp(m, s.getK(), m.K, "K is the sum of the element matrices and MPC rows"); for (uint32 i = 0; i < m.N; i++) EQ((*s.getF())[i], m.F[i], L2("F is the sum of the element vectors and MPC right-hand sides", i)); if (transient) { cmp(m, s.getC(), m.C, "C is the sum of the element damping matrices"); cmp(m, s.getM(), m.M, "M is the sum of the element mass matrices"); } for (int i = 0; i < 2; i++) { CK(e[i]->nK == rep && e[i]->npre == 1, "each element is built once per assembly"); CK(e[i]->nC == (transient ? rep : 0) && e[i]->nM == (transient ? rep : 0), "damping and mass are built exactly for transient models"); } EQ((*s.getR())[0], r0, "assembly leaves R alone"); }
  s.zeroK(); for (uint32 i = 1; i <= m.N; i++) EQ(at(s.getK(), nc, i, i), 0, "zeroK"); s.zeroF(); for (uint32 i = 0; i < m.N; i++) EQ((*s.getF())[i], 0, "zeroF"); if (transient) { cmp(m, s.getM(), m.M, "zeroK leaves M"); s.zeroC(); s.zeroM(); for (uint32 i = 1; i <= m.N; i++) { EQ(at(s.getC(), nc, i, i), 0, "zeroC"); EQ(at(s.getM(), nc, i, i), 0, "zeroM"); } }
  s.updateResults(); CK(e[0]->nup == 1 && e[1]->nup == 1 && v->nup == 1, "updateResults updates each element once"); REACH("end"); }
HARNESS(static_all_meshes) { one(pickU("p", 0, 5), pickU("q", 0, 5), false, 0); }
HARNESS(static_mpc) { one(pickU("p", 0, 1), pickU("q", 2, 5), false, pickU("nm", 1, 2)); }
HARNESS(transient) { one(pickU("p", 0, 1), pickU("q", 4, 5), true, 0); }
HARNESS(transient_mpc) { one(0, 5, true, 2); }
#if THOROUGH
HARNESS(transient_all) { one(pickU("p", 0, 5), pickU("q", 0, 5), true, pickU("nm", 0, 1)); }
#endif
// two DoFs per node, in both orders, with and without right-hand side, and the Eigen overload
static void two(int form) {
  Model m; FEStorage& s = m.s; s.createNodes(3); TE *e[2] = {new TE, new TE}; s.addElement(e[0]); s.addElement(e[1]); uint32 q = form == 0 ? pickU("q", 0, 5) : 5; e[0]->on(2, 1); e[1]->on(PR[q][0], PR[q][1]); bool sw = pickB("order"); Dof::dofType A = sw ? Dof::UY : Dof::UX, B = sw ? Dof::UX : Dof::UY; MatSym<4> K[2]; Vec<4> F[2]; double k[2][4][4];
  for (int i = 0; i < 2; i++) { fillS(K[i], k[i], "k"); for (int a = 0; a < 4; a++) F[i][a] = D("f"); }
  for (int i = 0; i < 2; i++) { e[i]->fpre = [](TE& x) { for (uint32 a = 1; a <= 3; a++) x.getStorage().addNodeDof(a, {Dof::UX, Dof::UY}); }; MatSym<4>* pk = &K[i]; Vec<4>* pf = &F[i]; auto kk = &k[i]; if (form == 0) e[i]->fK = [pk, pf, A, B](TE& x) { x.assembleK(*pk, *pf, {A, B}); }; else if (form == 1) e[i]->fK = [pk, A, B](TE& x) { x.assembleK(*pk, {A, B}); }; else e[i]->fK = [kk, A, B](TE& x) { Eigen::MatrixXd E(4, 4); for (int a = 0; a < 4; a++) for (int b = 0; b < 4; b++) E(a, b) = b >= a ? (*kk)[a][b] : 12345.0; x.assembleK(E, {A, B}); }; }
  s.initDofs(); uint32 nc = 0; for (uint32 n = 1; n <= 2; n++) for (int t = 0; t < 2; t++) if (pickB("fix")) { s.setConstrainedNodeDof(n, t ? Dof::UY : Dof::UX); nc++; } s.assignEquationNumbers(); s.initSolutionData(); m.nc = nc; m.N = 6; s.assembleGlobalEqMatrices();
  for (int i = 0; i < 2; i++) { uint32 nd[2] = {e[i]->getNodeNumber(0), e[i]->getNodeNumber(1)}; uint32 eq[4]; for (int a = 0; a < 4; a++) eq[a] = s.getNodeDofEqNumber(nd[a / 2], a % 2 ? B : A); for (int a = 0; a < 4; a++) { if (form == 0) m.F[eq[a] - 1] += F[i][a]; for (int b = a; b < 4; b++) addsym(m.K, eq[a], eq[b], k[i][a][b]); } }
  cmp(m, s.getK(), m.K, form == 2 ? "Eigen assembleK uses the upper triangle" : "K"); for (uint32 i = 0; i < 6; i++) EQ((*s.getF())[i], m.F[i], L2("F", i)); REACH("end"); }
HARNESS(two_dofs) { two(0); } HARNESS(two_dofs_noF) { two(1); } HARNESS(two_dofs_eigen) { two(2); }
// element DoFs: coupled with all nodes of the element and with themselves; addressed by equation
HARNESS(element_dofs) {
  Model m; FEStorage& s = m.s; s.createNodes(3); TE *e[2] = {new TE, new TE}; s.addElement(e[0]); s.addElement(e[1]); e[0]->on(1, 2); e[1]->on(3, 2); bool el2 = pickB("el2"); double k[2][2][2], g[2][2], pp[2], f[2]; for (int i = 0; i < 2; i++) { for (int a = 0; a < 2; a++) { g[i][a] = D("g"); for (int b = a; b < 2; b++) k[i][a][b] = D("k"); } pp[i] = D("pp"); f[i] = D("f"); }
  for (int i = 0; i < 2; i++) { bool hp = i == 0 || el2; e[i]->fpre = [hp](TE& x) { for (int a = 0; a < 2; a++) x.getStorage().addNodeDof(x.getNodeNumber(a), {Dof::UX}); if (hp) x.getStorage().addElementDof(x.getElNum(), {Dof::HYDRO_PRESSURE}); }; auto kk = &k[i]; auto gg = &g[i]; double *ppp = &pp[i], *ff = &f[i]; e[i]->fK = [=](TE& x) { FEStorage& t = x.getStorage(); for (int a = 0; a < 2; a++) for (int b = a; b < 2; b++) t.addValueK(x.getNodeNumber(a), Dof::UX, x.getNodeNumber(b), Dof::UX, (*kk)[a][b]); if (hp) { uint32 eq = t.getElementDofEqNumber(x.getElNum(), Dof::HYDRO_PRESSURE); for (int a = 0; a < 2; a++) t.addValueK(eq, t.getNodeDofEqNumber(x.getNodeNumber(a), Dof::UX), (*gg)[a]); t.addValueK(eq, eq, *ppp); t.addValueF(eq, *ff); } t.addValueF(x.getNodeNumber(0), Dof::UX, 2 * *ff); }; }
  s.initDofs(); uint32 nc = 0; for (uint32 n = 1; n <= 3; n++) if (pickB("fix")) { s.setConstrainedNodeDof(n, Dof::UX); nc++; } if (pickB("fixp")) { s.setConstrainedElementDof(1, Dof::HYDRO_PRESSURE); nc++; } if (nc == s.nDofs()) return; s.assignEquationNumbers(); s.initSolutionData(); m.nc = nc; m.N = s.nDofs(); s.assembleGlobalEqMatrices();
  for (int i = 0; i < 2; i++) { uint32 nd[2] = {e[i]->getNodeNumber(0), e[i]->getNodeNumber(1)}, q[2]; for (int a = 0; a < 2; a++) q[a] = s.getNodeDofEqNumber(nd[a], Dof::UX); for (int a = 0; a < 2; a++) for (int b = a; b < 2; b++) addsym(m.K, q[a], q[b], k[i][a][b]); if (i == 0 || el2) { uint32 p = s.getElementDofEqNumber(i + 1, Dof::HYDRO_PRESSURE); for (int a = 0; a < 2; a++) addsym(m.K, p, q[a], g[i][a]); addsym(m.K, p, p, pp[i]); m.F[p - 1] += f[i]; } m.F[q[0] - 1] += 2 * f[i]; }
  cmp(m, s.getK(), m.K, "K with element DoFs"); for (uint32 i = 0; i < m.N; i++) EQ((*s.getF())[i], m.F[i], L2("F with element DoFs", i)); REACH("end"); }
// MPC on DoFs of nodes with no common element; collections are refreshed on every assembly
struct Col : MpcCollection { double* v; int npre = 0, nup = 0; void pre() { npre++; Mpc* m = new Mpc; m->b = 0; m->eqNum = 0; m->eq.push_back(MpcTerm(1, Dof::UX, 1.0)); m->eq.push_back(MpcTerm(3, Dof::UX, 0.0)); collection.push_back(m); } void update() { nup++; collection[0]->b = v[0]; collection[0]->eq.back().coef = v[1]; } };
HARNESS(mpc_collection) {
  Model m; FEStorage& s = m.s; s.createNodes(3); TE* e = new TE; s.addElement(e); e->on(1, 2); e->fpre = [](TE& x) { for (uint32 a = 1; a <= 3; a++) x.getStorage().addNodeDof(a, {Dof::UX}); }; Col* c = new Col; c->storage = &s; double v[2] = {D("b"), D("c")}; c->v = v; s.addMpcCollection(c); s.initDofs(); CK(s.nMpc() == 1 && c->npre == 1, "collections register their MPCs"); uint32 nc = 0; for (uint32 n = 1; n <= 3; n++) if (nc < 2 && pickB("fix")) { s.setConstrainedNodeDof(n, Dof::UX); nc++; } s.assignEquationNumbers(); s.initSolutionData();
  for (int r = 0; r < 2; r++) { if (r) { v[0] = D("b"); v[1] = D("c"); } s.assembleGlobalEqMatrices(); CK(c->nup == r + 1, "collections are updated at every assembly"); uint32 q = c->collection[0]->eqNum, e1 = s.getNodeDofEqNumber(1, Dof::UX), e3 = s.getNodeDofEqNumber(3, Dof::UX); EQ(at(s.getK(), nc, q, e1), 1, "MPC coefficient 1"); EQ(at(s.getK(), nc, q, e3), v[1], "updated MPC coefficient"); EQ((*s.getF())[q - 1], v[0], "updated MPC rhs"); EQ(at(s.getK(), nc, q, q), 0, "multiplier diagonal is zero"); EQ(at(s.getK(), nc, e1, e3), 0, "no other coupling"); } REACH("end"); }
// node and equation numbers are not cut to 16 bits
HARNESS(many_nodes) { const uint32 NB = 65600; static const uint32 AT[6] = {1, 255, 256, 65535, 65536, 65600}; FEStorage s; s.createNodes(NB); uint32 a = pickU("a", 0, 5), b = pickU("b", 0, 5); if (a == b) return; TE *e[2] = {new TE, new TE}; MatSym<2> K[2]; double k[2][2][2]; Vec<2> F[2]; for (int i = 0; i < 2; i++) { s.addElement(e[i]); fillS(K[i], k[i], "k"); F[i][0] = D("f"); F[i][1] = D("f"); e[i]->fpre = [](TE& x) { for (int t = 0; t < 2; t++) x.getStorage().addNodeDof(x.getNodeNumber(t), {Dof::UX}); }; MatSym<2>* pk = &K[i]; Vec<2>* pf = &F[i]; e[i]->fK = [pk, pf](TE& x) { x.assembleK(*pk, *pf, {Dof::UX}); }; } e[0]->on(AT[a], AT[b]); e[1]->on(64, AT[b]); double co = D("co"), rhs = D("b"); Mpc* m = new Mpc; m->eqNum = 0; m->b = rhs; m->eq.push_back(MpcTerm(AT[a], Dof::UX, co)); s.addMpc(m); s.initDofs(); if (pickB("fix")) s.setConstrainedNodeDof(AT[b], Dof::UX); s.assignEquationNumbers(); s.initSolutionData(); s.assembleGlobalEqMatrices();
  uint32 nc = s.nConstrainedDofs(), q[3] = {s.getNodeDofEqNumber(AT[a], Dof::UX), s.getNodeDofEqNumber(AT[b], Dof::UX), s.getNodeDofEqNumber(64, Dof::UX)}; CK(s.nDofs() == 3, "only the nodes of the elements have DoFs"); EQ(at(s.getK(), nc, q[0], q[0]), k[0][0][0], "K"); EQ(at(s.getK(), nc, q[0], q[1]), k[0][0][1], "K"); EQ(at(s.getK(), nc, q[1], q[1]), k[0][1][1] + k[1][1][1], "K"); EQ(at(s.getK(), nc, q[2], q[1]), k[1][0][1], "K"); EQ(at(s.getK(), nc, q[0], q[2]), 0, "K"); EQ(at(s.getK(), nc, q[0], 4), co, "MPC row"); EQ(at(s.getK(), nc, q[1], 4), 0, "MPC row"); EQ((*s.getF())[q[0] - 1], F[0][0], "F"); EQ((*s.getF())[q[1] - 1], F[0][1] + F[1][1], "F"); EQ((*s.getF())[3], rhs, "F of the MPC"); REACH("end"); }
HARNESS(many_dofs) { const uint32 N = 8200; FEStorage s; s.createNodes(N); TE *e = new TE, *r = new TE; MatSym<4> K; double k[4][4]; Vec<4> F; s.addElement(r); s.addElement(e); r->on(1, N); r->fpre = [](TE& x) { for (uint32 n = 1; n <= N; n++) x.getStorage().addNodeDof(n, {Dof::UX, Dof::UY, Dof::UZ, Dof::ROTX, Dof::ROTY, Dof::ROTZ, Dof::HYDRO_PRESSURE, Dof::TEMP}); }; fillS(K, k, "k"); for (int i = 0; i < 4; i++) F[i] = D("f"); MatSym<4>* pk = &K; Vec<4>* pf = &F; e->fK = [pk, pf](TE& x) { x.assembleK(*pk, *pf, {Dof::UX, Dof::TEMP}); }; e->on(2, N); s.initDofs(); uint32 nc = 0; if (pickB("most")) for (uint32 n = N; n >= 2; n--) { for (int t = 0; t < 8; t++) if (n < N || t < 2) { s.setConstrainedNodeDof(n, AllT[t]); nc++; } } s.assignEquationNumbers(); s.initSolutionData(); s.assembleGlobalEqMatrices(); uint32 q[4] = {s.getNodeDofEqNumber(2, Dof::UX), s.getNodeDofEqNumber(2, Dof::TEMP), s.getNodeDofEqNumber(N, Dof::UX), s.getNodeDofEqNumber(N, Dof::TEMP)}; for (int i = 0; i < 4; i++) { EQ((*s.getF())[q[i] - 1], F[i], "F beyond 65535"); for (int j = 0; j < 4; j++) EQ(at(s.getK(), nc, q[i], q[j]), k[i][j], "K beyond 65535"); } EQ(at(s.getK(), nc, q[3] - 1, q[3] - 1), 0, "nothing else is stored"); CK(s.getK()->block(1)->nValues() + s.getK()->block(2)->nValues() + s.getK()->block(1, 2)->nValues() >= 10, "stored entries"); REACH("end"); }
