// @bounds one quadrilateral: any parallelogram (both edge vectors free) and any quadrilateral (linear fields: four free corners of +-0.5, capacity: two, hourglass mode: one); integration orders 1..3 where the rule is exact; any conductivity, density, capacity, volume flux, temperatures; every subset of fixed nodes (parallelogram); one surface line with any end positions, flux, film coefficient and environment temperatures
// @outside rounding of double arithmetic (Gauss constants are the doubles in the code; agreement to 1e-7 of values up to about 1e3); an environment temperature of exactly 0 at the second node (documented to mean "the same as at the first")
// @assume the element is not degenerate: Jacobian determinant above 0.05 at the corners
// @budget 300
#include "symx.h"
#include "elem.h"
#include "elements/QUADTH.h"
using namespace tst;
static const int S2[4][2] = {{-1, -1}, {1, -1}, {1, 1}, {-1, 1}};
typedef One<ElementQUADTH, 4> QT; typedef One<SurfaceLINETH, 2> LT; static const Dof::dofType TT = Dof::TEMP;
static double tri(const double* a, const double* b, const double* c) { return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0]); }
static void convex(double (&x)[4][3]) { for (int i = 0; i < 4; i++) assume(tri(x[(i + 3) % 4], x[i], x[(i + 1) % 4]) > 0.25); }
static void consts(QT& t) { t.e->k = symD("k", 0.5, 50); t.e->rho = symD("rho", 0.5, 10); t.e->c = symD("c", 0.5, 10); t.e->volFlux = symD("q", -9, 9); }
// parallelogram with edge vectors a (r direction) and b (s direction): closed forms
HARNESS(parallelogram) { QT t(true); double a[2] = {symD("ax", 0.5, 3), symD("ay", -2, 2)}, b[2] = {symD("bx", -2, 2), symD("by", 0.5, 3)}, A = a[0] * b[1] - a[1] * b[0]; assume(A > 0.5); double cx = symD("cx", -2, 2);
  for (int i = 0; i < 4; i++) t.at(i, cx + S2[i][0] * a[0] / 2 + S2[i][1] * b[0] / 2, S2[i][0] * a[1] / 2 + S2[i][1] * b[1] / 2, 0.5); consts(t); t.e->setIntegrationOrder(pickU("order", 2, 3)); t.init(pickU("fix", 0, 14), TT); CK(t.s.nDofs() == 4, "one temperature per node"); t.assemble(); t.assemble();
  double aa = a[0] * a[0] + a[1] * a[1], bb = b[0] * b[0] + b[1] * b[1], ab = a[0] * b[0] + a[1] * b[1];
  // grad r . grad r = 4 bb / A^2, grad s . grad s = 4 aa / A^2, grad r . grad s = -4 ab / A^2; dA = A/4 dr ds
  for (int i = 0; i < 4; i++) { NEAR(t.F(i, TT), t.e->volFlux * A / 4, 1e-7, L2("volume heat load", i)); for (int j = 0; j < 4; j++) { int ri = S2[i][0], si = S2[i][1], rj = S2[j][0], sj = S2[j][1]; double w = bb * (ri * rj / 4.0) * (1 + si * sj / 3.0) + aa * (si * sj / 4.0) * (1 + ri * rj / 3.0) - ab * (ri * sj + si * rj) / 4.0;
    NEAR(t.K(i, TT, j, TT) * A, t.e->k * w, 1e-7, L2("conductivity matrix", i, j)); NEAR(t.C(i, TT, j, TT), t.e->rho * t.e->c * A / 16 * (1 + ri * rj / 3.0) * (1 + si * sj / 3.0), 1e-7, L2("capacity matrix", i, j)); CK(t.M(i, TT, j, TT) == 0.0, "no mass matrix"); } } REACH("end"); }
// general quadrilateral: heat flow of linear fields, capacity and volume load
static void corners(QT& t, double (&x)[4][3], int f) { for (int i = 0; i < 4; i++) { x[i][0] = S2[i][0]; x[i][1] = S2[i][1]; x[i][2] = 0; if (i == f || i == (f + 2) % 4) for (int k = 0; k < 2; k++) x[i][k] += symD("x", -0.75, 0.75); t.at(i, x[i][0], x[i][1], 0); } convex(x); }
static void general(int f) { QT t(true); double x[4][3]; corners(t, x, f); consts(t); t.e->setIntegrationOrder(2); t.init(0, TT); t.assemble(); double P[3]; // det J = P0 + P1 r + P2 s
  { double d[4]; for (int i = 0; i < 4; i++) d[i] = tri(x[(i + 3) % 4], x[i], x[(i + 1) % 4]) / 4; P[0] = (d[0] + d[1] + d[2] + d[3]) / 4; P[1] = (d[1] + d[2] - d[0] - d[3]) / 4; P[2] = (d[2] + d[3] - d[0] - d[1]) / 4; }
  for (int i = 0; i < 4; i++) { int ri = S2[i][0], si = S2[i][1]; NEAR(t.F(i, TT), t.e->volFlux * (P[0] + P[1] * ri / 3.0 + P[2] * si / 3.0), 1e-7, L2("volume heat load", i));
    for (int j = 0; j < 4; j++) { int rj = S2[j][0], sj = S2[j][1]; double u = (1 + ri * rj / 3.0) / 2, v = (1 + si * sj / 3.0) / 2; NEAR(t.C(i, TT, j, TT), t.e->rho * t.e->c * (P[0] * u * v + P[1] * (ri + rj) / 6.0 * v + P[2] * (si + sj) / 6.0 * u), 1e-7, L2("capacity matrix", i, j)); } } REACH("end"); }
HARNESS(general_capacity_0) { general(0); } HARNESS(general_capacity_1) { general(1); }
static void linear(int f, uint16 order) { QT t; double x[4][3]; corners(t, x, f); consts(t); t.e->setIntegrationOrder(order); t.init(0, TT); t.assemble(); double g[2] = {symD("gx", -5, 5), symD("gy", -5, 5)}, T0 = symD("T0", -9, 9);
  for (int i = 0; i < 4; i++) { double r = 0; for (int j = 0; j < 4; j++) r += t.K(i, TT, j, TT) * (T0 + g[0] * x[j][0] + g[1] * x[j][1]); const double *n = x[(i + 1) % 4], *p = x[(i + 3) % 4]; NEAR(r, t.e->k * (g[0] * (n[1] - p[1]) - g[1] * (n[0] - p[0])) / 2, 1e-7, L2("heat flow of a linear temperature field", i)); } REACH("end"); }
HARNESS(linear_1) { linear(0, 1); } HARNESS(linear_2) { linear(0, 2); } 
// the remaining (hourglass) mode r s on a quadrilateral with a free corner: power by the 2x2 rule, taken from the definition
HARNESS(hourglass) { QT t; double x[4][3]; for (int i = 0; i < 4; i++) { for (int k = 0; k < 3; k++) x[i][k] = k < 2 ? S2[i][k] : 0; } for (int k = 0; k < 2; k++) x[2][k] += symD("x", -0.75, 0.75); for (int i = 0; i < 4; i++) t.at(i, x[i][0], x[i][1], 0); convex(x); consts(t); t.init(0, TT); t.assemble(); double r = 0, w = 0, c = 0.5773502691896258;
  for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) r += t.K(i, TT, j, TT) * ((i + j) % 2 ? -1 : 1);
  for (int p = 0; p < 4; p++) { double rr = S2[p][0] * c, ss = S2[p][1] * c, J[2][2] = {}; for (int i = 0; i < 4; i++) for (int k = 0; k < 2; k++) { J[0][k] += S2[i][0] * (1 + S2[i][1] * ss) / 4 * x[i][k]; J[1][k] += S2[i][1] * (1 + S2[i][0] * rr) / 4 * x[i][k]; }
    double d = J[0][0] * J[1][1] - J[0][1] * J[1][0], gx = (J[1][1] * ss - J[0][1] * rr), gy = (-J[1][0] * ss + J[0][0] * rr); w += (gx * gx + gy * gy) / d; }
  NEAR(r, t.e->k * w, 1e-7, "power of the hourglass field"); REACH("end"); }
static void wide(uint16 order) { QT t; double x[4][3]; for (int i = 0; i < 4; i++) { for (int k = 0; k < 3; k++) x[i][k] = k < 2 ? S2[i][k] + symD("x", -0.5, 0.5) : 0; t.at(i, x[i][0], x[i][1], 0); } convex(x); consts(t); t.e->setIntegrationOrder(order); t.init(0, TT); t.assemble(); double g[2] = {symD("gx", -5, 5), symD("gy", -5, 5)}, T0 = symD("T0", -9, 9);
  for (int i = 0; i < 4; i++) { double r = 0; for (int j = 0; j < 4; j++) r += t.K(i, TT, j, TT) * (T0 + g[0] * x[j][0] + g[1] * x[j][1]); const double *n = x[(i + 1) % 4], *p = x[(i + 3) % 4]; NEAR(r, t.e->k * (g[0] * (n[1] - p[1]) - g[1] * (n[0] - p[0])) / 2, 1e-7, L2("heat flow of a linear temperature field", i)); } REACH("end"); }
HARNESS(linear_wide_1) { wide(1); } HARNESS(linear_wide_2) { wide(2); }
// surface line
HARNESS(surface) { LT t; double q = 0; double x[2][3]; for (int i = 0; i < 2; i++) { for (int k = 0; k < 3; k++) x[i][k] = symD("x", -3, 3); t.at(i, x[i][0], x[i][1], x[i][2]); } for (int k = 0; k < 3; k++) q += (x[1][k] - x[0][k]) * (x[1][k] - x[0][k]); assume(q > 0.0625); double L = sqrt(q);
  t.e->flux = pickB("flux") ? symD("flux", -9, 9) : 0; double h = t.e->htc = pickB("htc") ? symD("htc", -9, 9) : 0, e0 = t.e->etemp[0] = symD("e0", -50, 50), e1; bool same = pickB("same"); if (same) e1 = e0; else { e1 = t.e->etemp[1] = symD("e1", -50, 50); assume((e1 > 0.5) | (e1 < -0.5)); }
  t.e->setIntegrationOrder(pickU("order", 2, 3)); t.init(pickU("fix", 0, 2), TT); CK(t.s.nDofs() == 2, "one temperature per node"); t.assemble(); t.assemble();
  for (int i = 0; i < 2; i++) { for (int j = 0; j < 2; j++) NEAR(t.K(i, TT, j, TT), h * L * (i == j ? 1 / 3.0 : 1 / 6.0), 1e-7, L2("film conductivity", i, j)); NEAR(t.F(i, TT), t.e->flux * L / 2 + h * L * ((i ? e0 : e1) / 6.0 + (i ? e1 : e0) / 3.0), 1e-7, L2("surface heat load", i)); } REACH("end"); }
