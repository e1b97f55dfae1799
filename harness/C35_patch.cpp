// @bounds meshes of 4 triangles (5 nodes), 5 quadrilaterals (8 nodes), 12 tetrahedra (9 nodes) and a plane truss of 8 bars (5 nodes), three positions of the free nodes, three orders of node numbers, elements created in either order; every linear field (values and gradients free), every load on the truss, every MPC right-hand side; solved by the built-in equation solver
// @outside other meshes; elastic constants other than the listed ones; rounding of double arithmetic (agreement to 1e-6)
// @assume prescribed values are not zero (the symmetric product skips vector entries below 1e-20)
#include "symx.h"
#include "testel.h"
#include "Node.h"
#include "elements/TRIANGLE4.h"
#include "elements/TETRA0.h"
#include "elements/TETRA1.h"
#include "elements/QUADTH.h"
#include "elements/TRUSS3.h"
using namespace tst;
static const Dof::dofType U3[3] = {Dof::UX, Dof::UY, Dof::UZ};
// node numbers: as listed, reversed, or rotated by two
struct Mesh { int nn, order; uint32 no(int i) const { return order == 0 ? i + 1 : order == 1 ? nn - i : (i + 2) % nn + 1; } };
template <class E> static std::vector<E*> mesh(FEStorage& s, Mesh& m, const double (*X)[3], int nn, const int* el, int ne, int nen) { m.nn = nn; m.order = pickU("order", 0, 2); bool back = pickB("back"); s.createNodes(nn); for (int i = 0; i < nn; i++) for (int k = 0; k < 3; k++) s.getNode(m.no(i)).pos[k] = X[i][k]; std::vector<E*> r(ne); for (int q = 0; q < ne; q++) { int e = back ? ne - 1 - q : q; r[e] = new E; s.addElement(r[e]); for (int a = 0; a < nen; a++) r[e]->getNodeNumber(a) = m.no(el[e * nen + a]); } return r; }
struct Fld { double c[3], G[3][3]; int nc; Fld(int n, int d) : nc(n) { for (int k = 0; k < n; k++) { c[k] = symD("c", 20, 30); for (int l = 0; l < 3; l++) G[k][l] = l < d ? symD("g", -2, 2) : 0; } } double at(const double* x, int k) const { return c[k] + G[k][0] * x[0] + G[k][1] * x[1] + G[k][2] * x[2]; } };
// boundary nodes 0..nb-1 carry the field; afterwards the free nodes have it too, the reactions balance and their first moments are the total stress S (per dimension)
static void solve(LinearFESolver& sol, FEStorage& s, Mesh& m, const double (*X)[3], int nb, int nn, const Fld& f, const Dof::dofType* T) { sol.attachFEStorage(&s); for (int i = 0; i < nb; i++) for (int k = 0; k < f.nc; k++) sol.addFix(m.no(i), T[k], f.at(X[i], k)); sol.solve(); for (int i = 0; i < nn; i++) for (int k = 0; k < f.nc; k++) NEAR(s.getNodeDofSolution(m.no(i), T[k]), f.at(X[i], k), 1e-6, L2("the solution is the linear field", i, k)); }
static void moments(FEStorage& s, Mesh& m, const double (*X)[3], int nn, int d, int nc, const Dof::dofType* T, const double (*S)[3], double vol, int nb) { for (int k = 0; k < nc; k++) { double sum = 0; for (int i = 0; i < nn; i++) { double r = s.getReaction(m.no(i), T[k]); if (i >= nb) NEAR(r, 0, 1e-6, "no reaction at a free node"); sum += r; } NEAR(sum, 0, 1e-5, "the reactions balance"); for (int l = 0; l < d; l++) { double q = 0; for (int i = 0; i < nb; i++) q += s.getReaction(m.no(i), T[k]) * X[i][l]; NEAR(q, S[k][l] * vol, 1e-5, L2("first moment of the reactions is the total stress", k, l)); } } }
static const double INNER[3][2] = {{1, 1}, {0.7, 1.2}, {1.5, 0.4}};
HARNESS(triangles) { FEStorage s; LinearFESolver sol; Mesh m; int p = pickU("inner", 0, 2); double X[5][3] = {{0, 0, 0}, {2, 0, 0}, {2.5, 2, 0}, {0, 1.5, 0}, {INNER[p][0], INNER[p][1], 0}}; static const int el[12] = {0, 1, 4, 4, 1, 2, 3, 4, 2, 0, 4, 3}; auto e = mesh<ElementTRIANGLE4>(s, m, X, 5, el, 4, 3); bool st = pickB("stress"); double E = 7.5, v = 0.3; for (auto x : e) { x->E = E; x->my = v; x->state = st ? PlaneState::Stress : PlaneState::Strain; } Fld f(2, 2); GaussDenseEquationSolver g; sol.attachEquationSolver(&g); solve(sol, s, m, X, 4, 5, f, U3);
  double a = f.G[0][0], b = f.G[1][1], c = f.G[0][1] + f.G[1][0], sx, sy, t = E / (2 * (1 + v)) * c; if (st) { sx = E / (1 - v * v) * (a + v * b); sy = E / (1 - v * v) * (b + v * a); } else { double l = E * v / ((1 + v) * (1 - 2 * v)), q = E / (1 + v); sx = l * (a + b) + q * a; sy = l * (a + b) + q * b; } double S[3][3] = {{sx, t, 0}, {t, sy, 0}, {0, 0, 0}}; for (int i = 0; i < 4; i++) { NEAR(e[i]->strains[0], a, 1e-6, "uniform strain"); NEAR(e[i]->strains[1], b, 1e-6, "uniform strain"); NEAR(e[i]->strains[2], c, 1e-6, "uniform strain"); NEAR(e[i]->stress[0], sx, 1e-5, "uniform stress"); NEAR(e[i]->stress[1], sy, 1e-5, "uniform stress"); NEAR(e[i]->stress[2], t, 1e-5, "uniform stress"); } double A = 0.5 * (2 * 2 - 0 + (2.5 * 1.5 - 0 * 2)); moments(s, m, X, 5, 2, 2, U3, S, A, 4); REACH("end"); }
// a cube corner moved, one node inside; every face split in two triangles
static const double CUBE[8][3] = {{0, 0, 0}, {2, 0, 0}, {2, 2, 0}, {0, 2, 0}, {0, 0, 2}, {2, 0, 2}, {2, 2, 2}, {0, 2, 2}};
static const int FACE[12][3] = {{0, 2, 1}, {0, 3, 2}, {4, 5, 6}, {4, 6, 7}, {0, 1, 5}, {0, 5, 4}, {1, 2, 6}, {1, 6, 5}, {2, 3, 7}, {2, 7, 6}, {3, 0, 4}, {3, 4, 7}};
static void cube(double (*X)[3], int* el) { int p = pickU("inner", 0, 2); for (int i = 0; i < 8; i++) for (int k = 0; k < 3; k++) X[i][k] = CUBE[i][k]; X[8][0] = INNER[p][0]; X[8][1] = INNER[p][1]; X[8][2] = 1 + 0.2 * p; for (int q = 0; q < 12; q++) { el[4 * q] = FACE[q][0]; el[4 * q + 1] = FACE[q][2]; el[4 * q + 2] = FACE[q][1]; el[4 * q + 3] = 8; const double *a = X[el[4 * q]], *b = X[el[4 * q + 1]], *c = X[el[4 * q + 2]], *d = X[8]; double u[3], v[3], w[3]; for (int k = 0; k < 3; k++) { u[k] = b[k] - a[k]; v[k] = c[k] - a[k]; w[k] = d[k] - a[k]; } double det = u[0] * (v[1] * w[2] - v[2] * w[1]) - u[1] * (v[0] * w[2] - v[2] * w[0]) + u[2] * (v[0] * w[1] - v[1] * w[0]); if (det < 0) { int t = el[4 * q + 1]; el[4 * q + 1] = el[4 * q + 2]; el[4 * q + 2] = t; } } }
HARNESS(tetra_elastic) { FEStorage s; LinearFESolver sol; Mesh m; double X[9][3]; int el[48]; cube(X, el); auto e = mesh<ElementTETRA0>(s, m, X, 9, el, 12, 4); double E = 3, v = 0.25; for (auto x : e) { x->E = E; x->my = v; } Fld f(3, 3); GaussDenseEquationSolver g; sol.attachEquationSolver(&g); solve(sol, s, m, X, 8, 9, f, U3); double l = E * v / ((1 + v) * (1 - 2 * v)), q = E / (1 + v), tr = f.G[0][0] + f.G[1][1] + f.G[2][2], S[3][3], ep[3][3]; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { ep[i][j] = 0.5 * (f.G[i][j] + f.G[j][i]); S[i][j] = q * ep[i][j] + (i == j ? l * tr : 0); } static const int V[6][2] = {{0, 0}, {1, 1}, {2, 2}, {0, 1}, {1, 2}, {0, 2}}; for (auto x : e) for (int k = 0; k < 6; k++) { NEAR(x->strains[k], (k < 3 ? 1 : 2) * ep[V[k][0]][V[k][1]], 1e-6, "uniform strain"); NEAR(x->stress[k], S[V[k][0]][V[k][1]], 1e-5, "uniform stress"); } moments(s, m, X, 9, 3, 3, U3, S, 8, 8); REACH("end"); }
HARNESS(tetra_thermal) { FEStorage s; LinearFESolver sol; Mesh m; double X[9][3]; int el[48]; cube(X, el); auto e = mesh<ElementTETRA1>(s, m, X, 9, el, 12, 4); for (auto x : e) x->k = 2.5; Fld f(1, 3); GaussDenseEquationSolver g; sol.attachEquationSolver(&g); Dof::dofType T = Dof::TEMP; solve(sol, s, m, X, 8, 9, f, &T); double S[1][3]; for (int k = 0; k < 3; k++) S[0][k] = 2.5 * f.G[0][k]; moments(s, m, X, 9, 3, 1, &T, S, 8, 8); REACH("end"); }
HARNESS(quad_thermal) { FEStorage s; LinearFESolver sol; Mesh m; int p = pickU("inner", 0, 2); double X[8][3] = {{0, 0, 0}, {3, 0, 0}, {3, 2, 0}, {0, 2, 0}, {0.5, 0.4, 0}, {2.2 + 0.1 * p, 0.5, 0}, {1.9, 1.3 + 0.2 * p, 0}, {0.6 + 0.3 * p, 1.2, 0}}; static const int el[20] = {0, 1, 5, 4, 5, 1, 2, 6, 3, 7, 6, 2, 0, 4, 7, 3, 6, 7, 4, 5}; auto e = mesh<ElementQUADTH>(s, m, X, 8, el, 5, 4); for (auto x : e) { x->k = 1.5; x->setIntegrationOrder(2); } Fld f(1, 2); GaussDenseEquationSolver g; sol.attachEquationSolver(&g); Dof::dofType T = Dof::TEMP; solve(sol, s, m, X, 4, 8, f, &T); double S[1][3] = {{1.5 * f.G[0][0], 1.5 * f.G[0][1], 0}}; moments(s, m, X, 8, 2, 1, &T, S, 6, 4); REACH("end"); }
// a structure of bars under any loads (some supports displaced): equilibrium of every node, and the reactions carry the loads
HARNESS(truss) { FEStorage s; LinearFESolver sol; Mesh m; double X[5][3] = {{0, 0, 0}, {1.6, 0, 0}, {1.6, 1.2, 0}, {3.2, 0, 0}, {3.2, 1.2, 0}}; static const int el[16] = {0, 2, 0, 1, 1, 2, 2, 4, 2, 3, 1, 4, 1, 3, 3, 4}; auto e = mesh<ElementTRUSS3>(s, m, X, 5, el, 8, 2); for (int i = 0; i < 8; i++) { e[i]->E = 3 + 0.5 * i; e[i]->A = 2 - 0.1 * i; } GaussDenseEquationSolver g; sol.attachFEStorage(&s); sol.attachEquationSolver(&g); double P[5][2] = {}, u0 = symD("support", 0.125, 2); for (int i = 0; i < 5; i++) sol.addFix(m.no(i), Dof::UZ); sol.addFix(m.no(0), Dof::UX); sol.addFix(m.no(0), Dof::UY, u0); sol.addFix(m.no(3), Dof::UX); sol.addFix(m.no(3), Dof::UY); for (int n : {1, 2, 4}) for (int k = 0; k < 2; k++) { P[n][k] = symD("P", -9, 9); sol.addLoad(m.no(n), U3[k], P[n][k]); } sol.solve();
  NEAR(s.getNodeDofSolution(m.no(0), Dof::UY), u0, 0, "displaced support"); double F[5][2] = {}, sx = 0, sy = 0, mz = 0; for (int i = 0; i < 8; i++) { int a = el[2 * i], b = el[2 * i + 1]; double d[2], L = 0, el = 0; for (int k = 0; k < 2; k++) { d[k] = X[b][k] - X[a][k]; L += d[k] * d[k]; } L = std::sqrt(L); for (int k = 0; k < 2; k++) el += d[k] / L * (s.getNodeDofSolution(m.no(b), U3[k]) - s.getNodeDofSolution(m.no(a), U3[k])); NEAR(e[i]->S, e[i]->E * el / L, 1e-6, "stress of a bar"); for (int k = 0; k < 2; k++) { F[a][k] += e[i]->S * e[i]->A * d[k] / L; F[b][k] -= e[i]->S * e[i]->A * d[k] / L; } } for (int n = 0; n < 5; n++) for (int k = 0; k < 2; k++) { double R = s.getReaction(m.no(n), U3[k]); NEAR(F[n][k] + R, 0, 1e-6, L2("bar forces balance the load or reaction of a node", n, k)); if (n != 0 && n != 3) EQ(R, P[n][k], "R of a free DoF is its load"); } for (int n = 0; n < 5; n++) { double x = s.getReaction(m.no(n), Dof::UX), y = s.getReaction(m.no(n), Dof::UY); sx += x; sy += y; mz += X[n][0] * y - X[n][1] * x; NEAR(s.getReaction(m.no(n), Dof::UZ), 0, 1e-6, "no force out of the plane"); } NEAR(sx, 0, 1e-6, "forces balance"); NEAR(sy, 0, 1e-6, "forces balance"); NEAR(mz, 0, 1e-5, "moments balance"); REACH("end"); }
// two free nodes tied to each other: the constraint holds, its force is internal
HARNESS(truss_mpc) { FEStorage s; LinearFESolver sol; Mesh m; double X[5][3] = {{0, 0, 0}, {1.6, 0, 0}, {1.6, 1.2, 0}, {3.2, 0, 0}, {3.2, 1.2, 0}}; static const int el[16] = {0, 2, 0, 1, 1, 2, 2, 4, 2, 3, 1, 4, 1, 3, 3, 4}; auto e = mesh<ElementTRUSS3>(s, m, X, 5, el, 8, 2); for (int i = 0; i < 8; i++) { e[i]->E = 3 + 0.5 * i; e[i]->A = 2 - 0.1 * i; } GaussDenseEquationSolver g; sol.attachFEStorage(&s); sol.attachEquationSolver(&g); for (int i = 0; i < 5; i++) sol.addFix(m.no(i), Dof::UZ); for (int n : {0, 3}) for (int k = 0; k < 2; k++) sol.addFix(m.no(n), U3[k]); double P = symD("P", -9, 9), gap = symD("gap", -2, 2); sol.addLoad(m.no(2), Dof::UY, P); Mpc* c = new Mpc; c->b = gap; c->eqNum = 0; c->eq.push_back(MpcTerm(m.no(4), Dof::UY, 1.0)); c->eq.push_back(MpcTerm(m.no(2), Dof::UY, -1.0)); s.addMpc(c); sol.solve(); NEAR(s.getNodeDofSolution(m.no(4), Dof::UY) - s.getNodeDofSolution(m.no(2), Dof::UY), gap, 1e-6, "the constraint holds"); double sy = 0, sx = 0, mz = 0, lam = (*s.getU())[c->eqNum - 1], F[5][2] = {}; for (int i = 0; i < 8; i++) { int a = el[2 * i], b = el[2 * i + 1]; double d[2], L = 0; for (int k = 0; k < 2; k++) { d[k] = X[b][k] - X[a][k]; L += d[k] * d[k]; } L = std::sqrt(L); for (int k = 0; k < 2; k++) { F[a][k] += e[i]->S * e[i]->A * d[k] / L; F[b][k] -= e[i]->S * e[i]->A * d[k] / L; } } F[4][1] -= lam; F[2][1] += lam; F[2][1] += P; for (int n : {1, 2, 4}) for (int k = 0; k < 2; k++) NEAR(F[n][k], 0, 1e-6, L2("bar forces, load and constraint force balance at a node", n, k)); for (int n : {0, 3}) for (int k = 0; k < 2; k++) NEAR(F[n][k] + s.getReaction(m.no(n), U3[k]), 0, 1e-6, L2("reaction of a support", n, k)); (void)sx; (void)sy; (void)mz; REACH("end"); }
