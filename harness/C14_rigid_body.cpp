// @bounds one master and two slave nodes at arbitrary positions, arbitrary rotation vector (norm at least 1e-3: exact; below: within tolerance), arbitrary displacements; every choice of the DoFs {UX,UY,UZ} from the harness menu; one list of 66000 slaves, one of them at any of seven places
// @outside rounding of double arithmetic; sine and cosine are uninterpreted functions with sin^2+cos^2=1 (the check is an identity in them)
#include "symx.h"
#include "testel.h"
#include "Node.h"
using namespace tst;
static double D(const char* n) { return symD(n, -1e6, 1e6); }
static const Dof::dofType T3[3] = {Dof::UX, Dof::UY, Dof::UZ};
struct Env { FEStorage s; RigidBodyMpc* c; double th[3], w[3], u[2][3], P[3][3]; std::vector<int> d; };
static uint32 nodeOf(Env&, int slave) { return slave == 0 ? 3 : 1; }   // master is node 2
static void setup(Env& v, int menu, int kind) { v.s.createNodes(3); TE* e = new TE; v.s.addElement(e); e->on(1, 3); e->fpre = [](TE& x) { for (uint32 n = 1; n <= 3; n += 2) x.getStorage().addNodeDof(n, {Dof::UX, Dof::UY, Dof::UZ}); };
  const int M[4][3] = {{0, 1, 2}, {1, -1, -1}, {2, 0, -1}, {0, 2, 1}}; for (int i = 0; i < 3; i++) if (M[menu][i] >= 0) v.d.push_back(M[menu][i]); v.c = new RigidBodyMpc; v.c->storage = &v.s; v.c->masterNode = 2; v.c->slaveNodes = {3, 1}; for (int i : v.d) v.c->dofs.push_back(T3[i]); v.s.addMpcCollection(v.c); v.s.initDofs(); CK(v.s.nMpc() == 2 * v.d.size() && v.c->collection.size() == 2 * v.d.size(), "one equation per slave and DoF"); for (Dof::dofType t : {Dof::UX, Dof::UY, Dof::UZ, Dof::ROTX, Dof::ROTY, Dof::ROTZ}) CK(v.s.isNodeDofUsed(2, t), "the master node has translations and rotations"); v.s.assignEquationNumbers(); v.s.initSolutionData();
  auto set = [&v](uint32 n, Dof::dofType t, double x) { (*v.s.getU())[v.s.getNodeDofEqNumber(n, t) - 1] = x; }; for (uint32 n = 0; n < 3; n++) for (int i = 0; i < 3; i++) v.s.getNode(n + 1).pos[i] = v.P[n][i] = symD("p", -3, 3);
  for (int i = 0; i < 3; i++) { v.th[i] = kind == 0 ? 0.0 : kind == 1 ? symD("th", -0.0005, 0.0005) : symD("th", -3, 3); set(2, (Dof::dofType)(Dof::ROTX + i), v.th[i]); v.w[i] = D("w"); set(2, T3[i], v.w[i]); for (int k = 0; k < 2; k++) { v.u[k][i] = D("u"); set(nodeOf(v, k), T3[i], v.u[k][i]); } } }
static double cr(const double* a, const double* b, int i) { int j = (i + 1) % 3, k = (i + 2) % 3; return a[j] * b[k] - a[k] * b[j]; }
// terms of an equation by DoF, whatever their order
static double coef(Mpc* m, uint32 n, Dof::dofType t) { double r = 0; for (auto& q : m->eq) if (q.node == (int)n && q.node_dof == t) r += q.coef; return r; }
static Mpc* eqOf(Env& v, int k, int i) { Mpc* r = nullptr; for (auto m : v.c->collection) { bool mine = false; for (auto& q : m->eq) if (q.node == (int)nodeOf(v, k) && q.node_dof == T3[i]) mine = true; if (mine) { CK(r == nullptr, "one equation per slave DoF"); r = m; } } CK(r != nullptr, "every slave DoF has an equation"); return r; }
static void terms(Env& v, int k, int i, Mpc* m) { for (auto& q : m->eq) CK((q.node == 2 && (q.node_dof == T3[i] || q.node_dof == Dof::ROTX || q.node_dof == Dof::ROTY || q.node_dof == Dof::ROTZ)) || (q.node == (int)nodeOf(v, k) && q.node_dof == T3[i]), "an equation couples its slave DoF to the master only"); EQ(coef(m, nodeOf(v, k), T3[i]), 1, "coefficient of the slave DoF"); EQ(coef(m, 2, T3[i]), -1, "coefficient of the master translation"); }
HARNESS(finite) { Env v; setup(v, pickU("menu", 0, 3), 2); double q = v.th[0] * v.th[0] + v.th[1] * v.th[1] + v.th[2] * v.th[2]; assume(q > 1.1e-6); v.c->update(); double t = std::sqrt(v.th[0] * v.th[0] + v.th[1] * v.th[1] + v.th[2] * v.th[2]), s = std::sin(t), c = std::cos(t);
  for (int k = 0; k < 2; k++) { double p[3], dot = 0; for (int i = 0; i < 3; i++) { p[i] = v.P[nodeOf(v, k) - 1][i] - v.P[1][i]; dot += p[i] * v.th[i]; } for (int i : v.d) { Mpc* m = eqOf(v, k, i); terms(v, k, i, m); double Rp = c * p[i] + s / t * cr(v.th, p, i) + (1 - c) / (t * t) * dot * v.th[i]; EQ(m->b, v.w[i] + Rp - p[i] - v.u[k][i], L2("b is the gap to the rigid body motion (Rodrigues rotation)", k, i));
    for (int l = 0; l < 3; l++) { double el[3] = {0, 0, 0}; el[l] = 1; double dR = -s * v.th[l] / t * p[i] + (t * c - s) / (t * t) * v.th[l] / t * cr(v.th, p, i) + s / t * cr(el, p, i) + (t * s - 2 + 2 * c) / (t * t * t) * v.th[l] / t * dot * v.th[i] + (1 - c) / (t * t) * (p[l] * v.th[i] + (i == l ? dot : 0.0)); EQ(coef(m, 2, (Dof::dofType)(Dof::ROTX + l)), -dR, L2("rotation coefficients are the derivative of the rotation", k, i, l)); } } } REACH("end"); }
HARNESS(zero) { Env v; setup(v, pickU("menu", 0, 3), 0); v.c->update(); for (int k = 0; k < 2; k++) { double p[3]; for (int i = 0; i < 3; i++) p[i] = v.P[nodeOf(v, k) - 1][i] - v.P[1][i]; for (int i : v.d) { Mpc* m = eqOf(v, k, i); terms(v, k, i, m); EQ(m->b, v.w[i] - v.u[k][i], "without rotation the gap is the translation difference"); for (int l = 0; l < 3; l++) { double el[3] = {0, 0, 0}; el[l] = 1; EQ(coef(m, 2, (Dof::dofType)(Dof::ROTX + l)), -cr(el, p, i), "infinitesimal rotation"); } } } REACH("end"); }
// small angles are continuous with the exact formula: evaluated at concrete small rotations
HARNESS(small) { Env v; setup(v, 0, 0); const double a[4][3] = {{3e-4, -2e-4, 1e-4}, {0, 0, 9.9e-4}, {1.1e-3, 0, 0}, {-5e-4, 7e-4, 0}}; uint32 z = pickU("z", 0, 3); for (int i = 0; i < 3; i++) (*v.s.getU())[v.s.getNodeDofEqNumber(2, (Dof::dofType)(Dof::ROTX + i)) - 1] = v.th[i] = a[z][i]; v.c->update(); for (int k = 0; k < 2; k++) { double p[3]; for (int i = 0; i < 3; i++) p[i] = v.P[nodeOf(v, k) - 1][i] - v.P[1][i]; double x[3]; for (int i = 0; i < 3; i++) x[i] = cr(v.th, p, i); for (int i : v.d) { Mpc* m = eqOf(v, k, i); double g = v.w[i] + x[i] + 0.5 * cr(v.th, x, i) - v.u[k][i]; NEAR(m->b, g, 1e-6, "small rotation: gap up to second order"); for (int l = 0; l < 3; l++) { double el[3] = {0, 0, 0}; el[l] = 1; double y[3]; for (int j = 0; j < 3; j++) y[j] = cr(el, p, j); NEAR(coef(m, 2, (Dof::dofType)(Dof::ROTX + l)), -(y[i] + 0.5 * cr(el, x, i) + 0.5 * cr(v.th, y, i)), 1e-4, "small rotation: derivative up to first order"); } } } REACH("end"); }
// equations of a long list of slaves (node 3, and node 1 at one place): nothing is cut to 8 or 16 bits (a global matrix row holds at most 100 entries, so the long list is not solved with)
HARNESS(many_slaves) { const uint32 NS = 66000; static const uint32 AT[7] = {0, 255, 256, 32768, 65535, 65536, 65999}; uint32 k = AT[pickU("at", 0, 6)]; bool reg = pickB("registered"); FEStorage s; s.createNodes(3); TE* e = new TE; s.addElement(e); e->on(1, 3); RigidBodyMpc* c = new RigidBodyMpc; c->storage = &s; c->masterNode = 2; for (uint32 i = 0; i < NS; i++) c->slaveNodes.push_back(i == k ? 1 : 3); c->dofs = {Dof::UY}; e->fpre = [reg, c](TE& x) { for (uint32 n = 1; n <= 3; n += 2) x.getStorage().addNodeDof(n, {Dof::UX, Dof::UY, Dof::UZ}); if (!reg) c->pre(); }; if (reg) s.addMpcCollection(c); s.initDofs(); s.assignEquationNumbers(); CK(c->collection.size() == NS, "one equation per slave"); if (reg) { CK(s.nMpc() == NS, "all equations are registered"); for (int t = 0; t < 7; t++) { Mpc* m = c->collection[AT[t]]; CK(m->eqNum > s.nDofs() && m->eqNum <= s.nDofs() + NS, "equation number"); for (int q = 0; q < t; q++) CK(m->eqNum != c->collection[AT[q]]->eqNum && m != c->collection[AT[q]], "equations are distinct"); } REACH("registered"); return; }
  double p1 = symD("p", -3, 3), p3 = symD("p", -3, 3), w = D("w"), u1 = D("u"), u3 = D("u"); s.getNode(1).pos[0] = p1; s.getNode(3).pos[0] = p3; s.initSolutionData(); auto set = [&s](uint32 n, Dof::dofType t, double x) { (*s.getU())[s.getNodeDofEqNumber(n, t) - 1] = x; }; set(2, Dof::UY, w); set(1, Dof::UY, u1); set(3, Dof::UY, u3); c->update(); for (int t = 0; t < 7; t++) { uint32 i = AT[t]; Mpc* m = c->collection[i]; EQ(coef(m, i == k ? 1 : 3, Dof::UY), 1, "slave of an equation"); EQ(m->b, w - (i == k ? u1 : u3), "gap"); EQ(coef(m, 2, Dof::ROTZ), -(i == k ? p1 : p3), "arm of the slave"); } REACH("end"); }
