// @bounds DofCollection: up to 3 entities, every history of 2 (thorough 3) addDof calls with one or two of 3 DoF types (duplicates included); storage: 3 nodes, 2 two-node elements with every mix of node/element DoFs from the harness menu, every subset of constrained DoFs (in both orders, repeated), 0..2 MPCs; one model of 65600 nodes (DoFs on seven of them) and one of 65600 DoFs, with picked sets of constrained DoFs
// @outside larger meshes (the numbering loops are uniform over entities)
#include "symx.h"
#include "testel.h"
using namespace tst;
HARNESS(labels) { uint16 i = pickU("t", 0, 7); Dof::dofType t = AllT[i]; CK(Dof::label2dofType(Dof::dofType2label(t)) == t, "label round trip"); const char* exp[] = {"UX", "UY", "UZ", "ROTX", "ROTY", "ROTZ", "HYDRO_PRESSURE", "TEMP"}; CK(Dof::label2dofType(exp[i]) == t, "documented label"); CK(Dof::label2dofType("NONE") == Dof::UNDEFINED, "unknown label"); CK(Dof::numberOfDofTypes == 8, "number of types"); REACH("end"); }
static void hist(int calls, bool pairs) {
  const uint32 N = 3; DofCollection c; c.initDofTable(N); bool used[4][8] = {}; const Dof::dofType T[3] = {Dof::UX, Dof::UZ, Dof::TEMP}; int fe = -1; Dof::dofType ft = Dof::UX;
  for (int k = 0; k < calls; k++) { uint32 e = pickU("e", 1, N); Dof::dofType a = T[pickU("a", 0, 2)], b = pairs ? T[pickU("b", 0, 2)] : a; if (pairs) c.addDof(e, {a, b}); else c.addDof(e, {a}); used[e][a] = used[e][b] = true; if (!k) { fe = e; ft = a; c.getDof(e, a)->isConstrained = true; c.getDof(e, a)->eqNumber = 77; } }
  uint32 tot = 0; bool uni[8] = {}; CK(c.getNumberOfEntities() == N, "number of entities");
  for (uint32 e = 1; e <= N; e++) { uint32 n = 0; for (int t = 0; t < 8; t++) { CK(c.isDofUsed(e, AllT[t]) == used[e][t], "a DoF is used exactly if it was added"); Dof* d = c.getDof(e, AllT[t]); CK((d != nullptr) == used[e][t], "getDof finds exactly the added DoFs"); if (d) { CK(d->type == AllT[t], "DoF type"); bool m = (int)e == fe && AllT[t] == ft; CK(d->isConstrained == m && d->eqNumber == (m ? 77u : 0u), "later additions do not disturb a DoF's state"); n++; uni[t] = true; } }
    auto r = c.getEntityDofs(e); CK((uint32)(r.second - r.first) == n, "entity range has each DoF once"); for (auto it = r.first; it != r.second; it++) { CK(used[e][it->type], "entity range holds only its own DoFs"); for (auto jt = r.first; jt != it; jt++) CK(jt->type != it->type, "no duplicates"); } tot += n; }
  CK(c.getNumberOfUsedDofs() == tot, "number of DoFs counts each (entity, type) once"); auto u = c.getUniqueDofTypes(); for (int t = 0; t < 8; t++) CK((u.count(AllT[t]) != 0) == uni[t], "unique DoF types");
  c.initDofTable(2); CK(c.getNumberOfUsedDofs() == 0 && c.getNumberOfEntities() == 2 && c.getUniqueDofTypes().empty(), "re-initialisation empties the table"); CK(!c.isDofUsed(1, Dof::UX) && !c.isDofUsed(2, Dof::TEMP), "re-initialised table is empty"); c.clearDofTable(); CK(c.getNumberOfEntities() == 0 && c.getNumberOfUsedDofs() == 0, "clear"); REACH("end"); }
HARNESS(history_pairs) { hist(2, true); }
HARNESS(history_single) { hist(3, false); }
#if THOROUGH
HARNESS(history_long) { hist(4, false); }
#endif
// menu of DoFs an element registers in pre()
static void menu(TE& e, int m) { uint32 a = e.getNodeNumber(0), b = e.getNodeNumber(1); FEStorage& s = e.getStorage(); if (m == 0) { s.addNodeDof(a, {Dof::UX}); s.addNodeDof(b, {Dof::UX}); } else if (m == 1) { s.addNodeDof(a, {Dof::TEMP, Dof::UY}); s.addNodeDof(b, {Dof::UX, Dof::TEMP}); } else { s.addNodeDof(b, {Dof::UX}); s.addNodeDof(a, {Dof::UX}); s.addElementDof(e.getElNum(), {Dof::HYDRO_PRESSURE}); } }
static void numbering(int m1, int m2, int nm) {
  FEStorage s; s.createNodes(3); TE *e1 = new TE, *e2 = new TE; s.addElement(e1); s.addElement(e2); CK(e1->getElNum() == 1 && e2->getElNum() == 2, "elements are numbered from 1"); e1->on(1, 2); e2->on(3, 2); e1->fpre = [m1](TE& e) { menu(e, m1); }; e2->fpre = [m2](TE& e) { menu(e, m2); };
  std::vector<Mpc*> mm; for (int i = 0; i < nm; i++) { Mpc* m = new Mpc; m->eq.push_back(MpcTerm(2, Dof::UX, 1.0)); m->b = 0; m->eqNum = 0; s.addMpc(m); mm.push_back(m); }
  for (int round = 0; round < 2; round++) {
    s.initDofs(); uint32 nd = 0; struct R { bool el; uint32 n; int t; bool c; }; std::vector<R> r;
    for (uint32 n = 1; n <= 3; n++) for (int t = 0; t < 8; t++) if (s.isNodeDofUsed(n, AllT[t])) r.push_back({false, n, t, false}); for (uint32 n = 1; n <= 2; n++) for (int t = 0; t < 8; t++) if (s.isElementDofUsed(n, AllT[t])) r.push_back({true, n, t, false});
    nd = r.size(); CK(s.nDofs() == nd, "nDofs is the number of used node and element DoFs"); uint32 nc = 0; bool rev = round == 0 && pickB("rev");
    for (uint32 q = 0; q < nd; q++) { uint32 i = rev ? nd - 1 - q : q; bool c = round ? (i % 3 == 1) : pickB("fix"); r[i].c = c; if (c) { nc++; for (int rep = 0; rep < 2; rep++) r[i].el ? s.setConstrainedElementDof(r[i].n, AllT[r[i].t]) : s.setConstrainedNodeDof(r[i].n, AllT[r[i].t]); } }
    if (nc == nd) return;   // fully constrained models are refused (CHECK)
    CK(s.nConstrainedDofs() == nc, "constraining a DoF twice counts once"); s.assignEquationNumbers(); CK(s.nUnknownDofs() == nd - nc, "unknown = all - constrained"); CK(s.nMpc() == (uint32)nm, "number of MPCs"); std::vector<int> seen(nd + nm + 2, 0);
    for (auto& x : r) { uint32 q = x.el ? s.getElementDofEqNumber(x.n, AllT[x.t]) : s.getNodeDofEqNumber(x.n, AllT[x.t]); Dof* d = x.el ? s.getElementDof(x.n, AllT[x.t]) : s.getNodeDof(x.n, AllT[x.t]); CK(q >= 1 && q <= nd, "equation number within 1..nDofs"); CK(x.c ? q <= nc : q > nc, "constrained DoFs come first, unknown ones after"); CK(d->isConstrained == x.c && d->eqNumber == q, "DoF state"); if (q <= nd) { CK(!seen[q], "no equation number is used twice"); seen[q]++; } }
    for (auto& m : mm) { CK(m->eqNum > nd && m->eqNum <= nd + nm, "MPC equations are numbered after all DoFs"); if (m->eqNum <= nd + nm) { CK(!seen[m->eqNum], "MPC equation number used once"); seen[m->eqNum]++; } } for (uint32 q = 1; q <= nd + nm; q++) CK(seen[q] == 1, "the numbering has no gaps");
    CK(s.getUniqueNodeDofTypes().count(Dof::TEMP) == (size_t)(m1 == 1 || m2 == 1), "unique nodal types"); CK(s.getUniqueElementDofTypes().count(Dof::HYDRO_PRESSURE) == (size_t)(m1 == 2 || m2 == 2), "unique element types");
    s.initSolutionData(); for (uint32 q = 0; q < nd; q++) (*s.getU())[q] = symD("u", -9, 9); for (auto& x : r) if (x.el) EQ(s.getElementDofSolution(x.n, AllT[x.t]), (*s.getU())[s.getElementDofEqNumber(x.n, AllT[x.t]) - 1], "element solution is read at its equation"); else { EQ(s.getNodeDofSolution(x.n, AllT[x.t]), (*s.getU())[s.getNodeDofEqNumber(x.n, AllT[x.t]) - 1], "node solution is read at its equation"); (*s.getR())[0] = 3; EQ(s.getReaction(x.n, AllT[x.t]), (*s.getR())[s.getNodeDofEqNumber(x.n, AllT[x.t]) - 1], "reaction is read at its equation"); }
    EQ(s.getReaction(1, Dof::ROTX), 0, "an unused DoF has no reaction"); CK(s.getR()->size() == nd + nm && s.getF()->size() == nd + nm && s.getU()->size() == nd + nm, "vector sizes");
    s.deleteSolutionData(); CK(s.nDofs() == 0 && s.nConstrainedDofs() == 0, "deleteSolutionData resets the counters"); if (THOROUGH == 0 && round == 0 && (rev || nm)) break; } REACH("end"); }
HARNESS(num_00) { numbering(0, 0, pickU("nm", 0, 2)); } HARNESS(num_01) { numbering(0, 1, pickU("nm", 0, 1)); } HARNESS(num_11) { numbering(1, 1, 0); } HARNESS(num_02) { numbering(0, 2, 1); } HARNESS(num_22) { numbering(2, 2, pickU("nm", 0, 1)); }
#if THOROUGH
HARNESS(num_12) { numbering(1, 2, 2); } HARNESS(num_21) { numbering(2, 1, 1); }
#endif
// numbers are not cut to 16 bits: 65600 nodes with DoFs on seven of them, 8200 nodes with 65600 DoFs
static const uint32 AT[7] = {1, 255, 256, 32800, 65535, 65536, 65600};
HARNESS(many_nodes) { const uint32 NB = 65600; FEStorage s; auto id = s.createNodes(NB); CK(id.size() == NB && id[65535] == 65536 && s.nNodes() == NB, "node numbers beyond 65535"); TE* e = new TE; s.addElement(e); e->on(1, NB); e->fpre = [](TE& x) { for (int t = 6; t >= 0; t--) { if (t % 2) x.getStorage().addNodeDof(AT[t], {Dof::TEMP}); x.getStorage().addNodeDof(AT[t], {Dof::UX}); } }; s.initDofs(); CK(s.nDofs() == 10, "number of DoFs"); uint32 k = pickU("at", 0, 6), l = pickU("at2", 0, 6), nc = k == l ? 1 : 2; s.setConstrainedNodeDof(AT[k], Dof::UX); s.setConstrainedNodeDof(AT[l], Dof::UX); CK(s.nConstrainedDofs() == nc, "number of constrained DoFs"); s.assignEquationNumbers(); bool seen[11] = {}; double u[7]; s.initSolutionData(); for (int t = 0; t < 7; t++) { uint32 n = AT[t], q = s.getNodeDofEqNumber(n, Dof::UX); CK(s.isNodeDofUsed(n, Dof::UX) && s.isNodeDofUsed(n, Dof::TEMP) == (t % 2 == 1), "used DoFs of a node beyond 65535"); CK(q >= 1 && q <= 10 && !seen[q] && (q <= nc) == (t == (int)k || t == (int)l), "equation of a node beyond 65535"); seen[q] = true; (*s.getU())[q - 1] = u[t] = symD("u", -9, 9); } for (int t = 0; t < 7; t++) EQ(s.getNodeDofSolution(AT[t], Dof::UX), u[t], "solution of a node beyond 65535"); CK(!s.isNodeDofUsed(2, Dof::UX) && !s.isNodeDofUsed(64, Dof::UX) && !s.isNodeDofUsed(63, Dof::TEMP), "other nodes have no DoFs"); REACH("end"); }
HARNESS(many_dofs) { const uint32 N = 8200; FEStorage s; s.createNodes(N); TE* e = new TE; s.addElement(e); e->on(1, N); e->fpre = [](TE& x) { for (uint32 n = 1; n <= N; n++) x.getStorage().addNodeDof(n, {Dof::UX, Dof::UY, Dof::UZ, Dof::ROTX, Dof::ROTY, Dof::ROTZ, Dof::HYDRO_PRESSURE, Dof::TEMP}); }; Mpc* m = new Mpc; m->b = 0; m->eqNum = 0; m->eq.push_back(MpcTerm(N, Dof::UX, 1.0)); s.addMpc(m); s.initDofs(); const uint32 ND = 8 * N; CK(s.nDofs() == ND, "number of DoFs beyond 65535"); uint32 nc = 0; if (pickB("most")) for (uint32 n = N - 1; n >= 2; n--) for (int t = 0; t < 8; t++) { s.setConstrainedNodeDof(n, AllT[t]); nc++; } else { s.setConstrainedNodeDof(N, Dof::TEMP); nc = 1; }
  CK(s.nConstrainedDofs() == nc, "number of constrained DoFs"); s.assignEquationNumbers(); CK(s.nUnknownDofs() == ND - nc, "number of unknowns"); CK(m->eqNum == ND + 1, "MPC after all DoFs"); std::vector<char> seen(ND + 2, 0); bool ok = true, sep = true; for (uint32 n = 1; n <= N; n++) for (int t = 0; t < 8; t++) { uint32 q = s.getNodeDofEqNumber(n, AllT[t]); bool c = nc > 1 ? n > 1 && n < N : n == N && t == 7; if (q < 1 || q > ND || seen[q]) ok = false; else seen[q] = 1; sep &= c ? q <= nc : q > nc; } CK(ok, "equation numbers beyond 65535 are used once each"); CK(sep, "constrained DoFs come first beyond 65535");
  s.initSolutionData(); CK(s.getU()->size() == ND + 1 && s.getF()->size() == ND + 1 && s.getR()->size() == ND + 1, "vector sizes"); static const uint32 P[4] = {1, 4096, 8192, 8200}; double u[4], w[4]; for (int t = 0; t < 4; t++) { (*s.getU())[s.getNodeDofEqNumber(P[t], Dof::UX) - 1] = u[t] = symD("u", -9, 9); (*s.getR())[s.getNodeDofEqNumber(P[t], Dof::TEMP) - 1] = w[t] = symD("w", -9, 9); } for (int t = 0; t < 4; t++) { EQ(s.getNodeDofSolution(P[t], Dof::UX), u[t], "solution of an equation beyond 65535"); EQ(s.getReaction(P[t], Dof::TEMP), w[t], "reaction of an equation beyond 65535"); } REACH("end"); }
