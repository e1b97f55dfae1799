// @bounds one truss with any end positions (length at least 0.05), stiffness, area and displacements; every subset of constrained nodes; repeated updates
// @outside rounding of double arithmetic
#include "symx.h"
#include "elem.h"
#include "elements/TRUSS3.h"
using namespace tst;
typedef One<ElementTRUSS3, 2> T;
static double setup(T& t, double* d) { double x[2][3], q = 0; for (int i = 0; i < 2; i++) for (int k = 0; k < 3; k++) x[i][k] = symD("x", -4, 4); for (int i = 0; i < 2; i++) t.at(i, x[i][0], x[i][1], x[i][2]); for (int k = 0; k < 3; k++) { d[k] = x[1][k] - x[0][k]; q += d[k] * d[k]; } assume(q > 0.0025); t.e->E = symD("E", 0.5, 100); t.e->A = symD("A", 0.25, 8); return q; }
HARNESS(stiffness) { T t; double d[3], q = setup(t, d); t.init(pickU("fix", 0, 3)); CK(t.s.nDofs() == 6, "three displacements per node"); for (int rep = 0; rep < 2; rep++) { t.assemble(); double L = std::sqrt(q), c = t.e->E * t.e->A / (L * q); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) for (int k = 0; k < 3; k++) for (int l = 0; l < 3; l++) EQ(t.K(i, UXYZ[k], j, UXYZ[l]), (i == j ? 1 : -1) * c * d[k] * d[l], L2("stiffness is EA/L along the axis", i * 3 + k, j * 3 + l)); for (int i = 0; i < 2; i++) for (int k = 0; k < 3; k++) EQ(t.F(i, UXYZ[k]), 0, "no load of its own"); } REACH("end"); }
HARNESS(stress) { T t; double d[3], q = setup(t, d); t.init(pickU("fix", 0, 3)); t.assemble(); for (int rep = 0; rep < 2; rep++) { double w = 0; for (int k = 0; k < 3; k++) { double a = symD("u", -2, 2), b = symD("u", -2, 2); t.setU(0, UXYZ[k], a); t.setU(1, UXYZ[k], b); w += d[k] * (b - a); } t.s.updateResults(); EQ(t.e->S, t.e->E * w / q, "stress is E times the elongation per length"); } REACH("end"); }
// several trusses meet in a node: internal forces of the assembled system balance the bar forces
HARNESS(two_bars) { FEStorage s; s.createNodes(3); auto id = s.createElements(2, ElementType::TRUSS3); const uint32 nd[2][2] = {{3, 1}, {2, 3}}; for (uint32 n = 1; n <= 3; n++) for (int k = 0; k < 3; k++) s.getNode(n).pos[k] = symD("x", -4, 4); double len[2], dir[2][3]; for (int b = 0; b < 2; b++) { auto& e = s.getElement<ElementTRUSS3>(id[b]); double q = 0; for (int i = 0; i < 2; i++) e.getNodeNumber(i) = nd[b][i]; for (int k = 0; k < 3; k++) { dir[b][k] = s.getNode(nd[b][1]).pos[k] - s.getNode(nd[b][0]).pos[k]; q += dir[b][k] * dir[b][k]; } assume(q > 0.0025); len[b] = std::sqrt(q); e.E = symD("E", 0.5, 100); e.A = symD("A", 0.25, 8); } s.initDofs(); s.assignEquationNumbers(); s.initSolutionData(); s.assembleGlobalEqMatrices(); double u[10]; for (int i = 0; i < 9; i++) (*s.getU())[i] = u[i] = symD("u", -2, 2); s.updateResults(); for (int k = 0; k < 3; k++) { double f = 0; uint32 r = s.getNodeDofEqNumber(3, UXYZ[k]); for (uint32 j = 1; j <= 9; j++) f += s.getK()->block(2)->value(std::min(r, j), std::max(r, j)) * u[j - 1]; double g = 0; for (int b = 0; b < 2; b++) { auto& e = s.getElement<ElementTRUSS3>(id[b]); g += (nd[b][1] == 3 ? 1 : -1) * e.S * e.A * dir[b][k] / len[b]; } EQ(f, g, "node forces are the sum of the bar forces"); } REACH("end"); }
