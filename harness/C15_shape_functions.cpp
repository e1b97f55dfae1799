// @bounds shape functions at every local point; quadrature of every monomial up to degree 2n-1 per variable for n=1..3; Jacobians of every quadrilateral (8 coordinates), every hexahedron (24 coordinates, one-point scheme; 2x2x2 with 12, thorough 24 free coordinates; thorough 3x3x3 with 12) and every line; also after an earlier use of the element with other node positions and order
// @outside rounding of double arithmetic (Gauss constants are the doubles in the code; quadrature exactness up to 1e-12)
// @assume the element is not degenerate: Jacobian determinants above 0.05
// @budget 300
#include "symx.h"
#include "testel.h"
#include "Node.h"
#include "elements/isoparametric.h"
using namespace tst;
static double D(const char* n) { return symD(n, -1, 1); }
#define NOP void pre() {} void buildK() {} void update() {}
struct L : ElementIsoParamLINE { NOP }; struct Q : ElementIsoParamQUAD { NOP }; struct H : ElementIsoParamHEXAHEDRON { NOP };
static const int S2[4][2] = {{-1, -1}, {1, -1}, {1, 1}, {-1, 1}}, S3[8][3] = {{-1, -1, -1}, {1, -1, -1}, {1, 1, -1}, {-1, 1, -1}, {-1, -1, 1}, {1, -1, 1}, {1, 1, 1}, {-1, 1, 1}};
HARNESS(line_functions) { L e; double r = D("r"); Vec<2> N = e.formFunc(r), a = e.formFunc(1.0), b = e.formFunc(-1.0); Mat<2, 1> d = e.formFuncDeriv(r); EQ(N[0] + N[1], 1, "partition of unity"); EQ(N[1] - N[0], r, "linear field"); for (int i = 0; i < 2; i++) { EQ(a[i], i == 1, "interpolation at nodes"); EQ(b[i], i == 0, "interpolation at nodes"); EQ(d[i][0], (a[i] - b[i]) / 2, "derivative"); } REACH("end"); }
HARNESS(quad_functions) { Q e; double r = D("r"), s = D("s"); Vec<4> N = e.formFunc(r, s), r1 = e.formFunc(1, s), r0 = e.formFunc(-1, s), s1 = e.formFunc(r, 1), s0 = e.formFunc(r, -1); Mat<4, 2> d = e.formFuncDeriv(r, s); double u = 0, x = 0, y = 0; for (int i = 0; i < 4; i++) { u += N[i]; x += N[i] * S2[i][0]; y += N[i] * S2[i][1]; EQ(d[i][0], (r1[i] - r0[i]) / 2, L2("d/dr is the derivative of the shape function", i)); EQ(d[i][1], (s1[i] - s0[i]) / 2, L2("d/ds is the derivative of the shape function", i)); Vec<4> n = e.formFunc(S2[i][0], S2[i][1]); for (int j = 0; j < 4; j++) EQ(n[j], i == j, L2("interpolation at nodes", i, j)); } EQ(u, 1, "partition of unity"); EQ(x, r, "linear field r"); EQ(y, s, "linear field s"); REACH("end"); }
HARNESS(hex_functions) { H e; double r = D("r"), s = D("s"), t = D("t"); Vec<8> N = e.formFunc(r, s, t), r1 = e.formFunc(1, s, t), r0 = e.formFunc(-1, s, t), s1 = e.formFunc(r, 1, t), s0 = e.formFunc(r, -1, t), t1 = e.formFunc(r, s, 1), t0 = e.formFunc(r, s, -1); Mat<8, 3> d = e.formFuncDeriv(r, s, t); double u = 0, x[3] = {0, 0, 0}; for (int i = 0; i < 8; i++) { u += N[i]; for (int k = 0; k < 3; k++) x[k] += N[i] * S3[i][k]; EQ(d[i][0], (r1[i] - r0[i]) / 2, L2("d/dr", i)); EQ(d[i][1], (s1[i] - s0[i]) / 2, L2("d/ds", i)); EQ(d[i][2], (t1[i] - t0[i]) / 2, L2("d/dt", i)); Vec<8> n = e.formFunc(S3[i][0], S3[i][1], S3[i][2]); for (int j = 0; j < 8; j++) EQ(n[j], i == j, L2("interpolation at nodes", i, j)); } EQ(u, 1, "partition of unity"); EQ(x[0], r, "linear field r"); EQ(x[1], s, "linear field s"); EQ(x[2], t, "linear field t"); REACH("end"); }
static double ip(double x, int n) { double r = 1; while (n--) r *= x; return r; } static double ex(int n) { return n % 2 ? 0 : 2.0 / (n + 1); }
template <class E> static E* mk(FEStorage& s, int n, const int* nodes) { s.createNodes(n); E* e = new E; s.addElement(e); for (int i = 0; i < n; i++) e->getNodeNumber(i) = nodes[i]; return e; }
static void order(Element& e, uint16 o, uint16& eff) { e.setIntegrationOrder(o); eff = o < 1 ? 1 : o > 3 ? 3 : o; }
// weights on the reference element itself: det = 1
HARNESS(line_rule) { FEStorage s; const int nd[2] = {2, 1}; L* e = mk<L>(s, 2, nd); s.getNode(2).pos[0] = -1; s.getNode(1).pos[0] = 1; uint16 n; order(*e, pickU("o", 0, 4), n); e->makeJacob(); CK(e->nOfIntPoints() == n, "number of points"); for (int a = 0; a < 2 * n; a++) { double q = 0; for (uint16 p = 0; p < n; p++) { double x[1]; e->np2rst(p, x); q += e->intWeight(p) * ip(x[0], a); Vec<2> f = e->formFunc(p), g = e->formFunc(x[0]); for (int i = 0; i < 2; i++) EQ(f[i], g[i], "formFunc by point number"); } NEAR(q, ex(a), 1e-12, L2("n points integrate degree 2n-1 exactly", n, a)); } REACH("end"); }
HARNESS(quad_rule) { FEStorage s; const int nd[4] = {3, 1, 4, 2}; Q* e = mk<Q>(s, 4, nd); for (int i = 0; i < 4; i++) for (int k = 0; k < 2; k++) s.getNode(nd[i]).pos[k] = S2[i][k]; uint16 n; order(*e, pickU("o", 0, 4), n); e->makeJacob(); CK(e->nOfIntPoints() == n * n, "number of points"); for (int a = 0; a < 2 * n; a++) for (int b = 0; b < 2 * n; b++) { double q = 0; for (uint16 p = 0; p < n * n; p++) { double x[2]; e->np2rst(p, x); q += e->intWeight(p) * ip(x[0], a) * ip(x[1], b); if (!a && !b) { Vec<4> f = e->formFunc(p), g = e->formFunc(x[0], x[1]); for (int i = 0; i < 4; i++) EQ(f[i], g[i], "formFunc by point number"); } } NEAR(q, ex(a) * ex(b), 1e-12, L2("n x n points integrate degree 2n-1 exactly", n, a, b)); } REACH("end"); }
HARNESS(hex_rule) { FEStorage s; const int nd[8] = {8, 1, 2, 3, 4, 5, 6, 7}; H* e = mk<H>(s, 8, nd); for (int i = 0; i < 8; i++) for (int k = 0; k < 3; k++) s.getNode(nd[i]).pos[k] = S3[i][k]; uint16 n; order(*e, pickU("o", 0, 4), n); e->makeJacob(); CK(e->nOfIntPoints() == n * n * n, "number of points"); for (int a = 0; a < 2 * n; a++) for (int b = 0; b < 2 * n; b++) for (int c = 0; c < 2 * n; c++) { double q = 0; for (uint16 p = 0; p < n * n * n; p++) { double x[3]; e->np2rst(p, x); q += e->intWeight(p) * ip(x[0], a) * ip(x[1], b) * ip(x[2], c); if (!a && !b && !c) { Vec<8> f = e->formFunc(p), g = e->formFunc(x[0], x[1], x[2]); for (int i = 0; i < 8; i++) EQ(f[i], g[i], "formFunc by point number"); } } NEAR(q, ex(a) * ex(b) * ex(c), 1e-12, L2("n^3 points integrate degree 2n-1 exactly", a, b, c)); } REACH("end"); }
HARNESS(line_length) { FEStorage s; const int nd[2] = {1, 2}; L* e = mk<L>(s, 2, nd); double q = 0; if (pickB("earlier")) { s.getNode(1).pos[0] = 1; s.getNode(2).pos[0] = 3; e->setIntegrationOrder(2); e->makeJacob(); } for (int k = 0; k < 3; k++) { double a = symD("a", -4, 4), b = symD("b", -4, 4); s.getNode(1).pos[k] = a; s.getNode(2).pos[k] = b; q += (b - a) * (b - a); } assume(q > 0.01); e->setIntegrationOrder(pickU("o", 1, 2)); e->makeJacob(); double v = e->volume(); CK(v > 0, "length is positive"); EQ(v * v, q, "volume of a line is its length"); REACH("end"); }
// any quadrilateral: gradients of the shape functions reproduce linear fields, volume is the area
static void quad(uint16 o) { FEStorage s; const int nd[4] = {3, 1, 4, 2}; Q* e = mk<Q>(s, 4, nd); double x[4][2]; if (o > 1 && pickB("earlier")) { for (int i = 0; i < 4; i++) for (int k = 0; k < 2; k++) s.getNode(nd[i]).pos[k] = (k + 1) * S2[i][k]; e->setIntegrationOrder(pickB("same") ? o : o % 3 + 1); e->makeJacob(); } for (int i = 0; i < 4; i++) for (int k = 0; k < 2; k++) s.getNode(nd[i]).pos[k] = x[i][k] = symD("x", -4, 4); for (int i = 0; i < 4; i++) { const double *a = x[(i + 3) % 4], *b = x[i], *c = x[(i + 1) % 4]; assume((b[0] - a[0]) * (c[1] - b[1]) - (b[1] - a[1]) * (c[0] - b[0]) > 0.2); } e->setIntegrationOrder(o); e->makeJacob(); double ar = 0; for (int i = 0; i < 4; i++) ar += x[i][0] * x[(i + 1) % 4][1] - x[(i + 1) % 4][0] * x[i][1];
  for (uint16 p = 0; p < o * o; p++) { double y[2]; e->np2rst(p, y); Mat<4, 2> d = e->formFuncDeriv(y[0], y[1]); double J[2][2] = {}; for (int i = 0; i < 4; i++) for (int k = 0; k < 2; k++) for (int l = 0; l < 2; l++) J[k][l] += d[i][k] * x[i][l]; EQ(e->det[p], J[0][0] * J[1][1] - J[0][1] * J[1][0], "Jacobian determinant"); for (int k = 0; k < 2; k++) { double z = 0; for (int i = 0; i < 4; i++) z += e->NiXj[p][i][k]; EQ(z, 0, "gradient of a constant field"); for (int l = 0; l < 2; l++) { double g = 0; for (int i = 0; i < 4; i++) g += e->NiXj[p][i][k] * x[i][l]; EQ(g, k == l, L2("gradient of a linear field", p, k, l)); } } } NEAR(e->volume(), ar / 2, 1e-9, "volume is the area of the quadrilateral"); REACH("end"); }
HARNESS(quad_1) { quad(1); } HARNESS(quad_2) { quad(2); } 
#if THOROUGH
HARNESS(quad_3) { quad(3); }
#endif
// hexahedra: free = how many corners are free (the others form the reference cube); gradients of linear fields
static double jdet(H* e, uint16 p, double (&x)[8][3]) { double y[3]; e->np2rst(p, y); Mat<8, 3> d = e->formFuncDeriv(y[0], y[1], y[2]); Mat<3, 3> J; for (int i = 0; i < 8; i++) for (int k = 0; k < 3; k++) for (int l = 0; l < 3; l++) J[k][l] += d[i][k] * x[i][l]; return J[0][0] * (J[1][1] * J[2][2] - J[1][2] * J[2][1]) - J[0][1] * (J[1][0] * J[2][2] - J[1][2] * J[2][0]) + J[0][2] * (J[1][0] * J[2][1] - J[1][1] * J[2][0]); }
static void hex(uint16 o, int freeN, bool lin) { FEStorage s; const int nd[8] = {8, 1, 2, 3, 4, 5, 6, 7}; H* e = mk<H>(s, 8, nd); double x[8][3]; for (int i = 0; i < 8; i++) for (int k = 0; k < 3; k++) s.getNode(nd[i]).pos[k] = S3[i][k]; e->setIntegrationOrder(o); e->makeJacob(); for (int i = 0; i < 8; i++) for (int k = 0; k < 3; k++) s.getNode(nd[i]).pos[k] = x[i][k] = i < freeN ? symD("x", -4, 4) : S3[i][k]; for (uint16 p = 0; p < o * o * o; p++) assume(jdet(e, p, x) > 0.05); e->makeJacob();
  for (uint16 p = 0; p < o * o * o; p++) { EQ(e->det[p], jdet(e, p, x), "Jacobian determinant"); for (int k = 0; k < 3; k++) { double z = 0; for (int i = 0; i < 8; i++) z += e->NiXj[p][i][k]; EQ(z, 0, "gradient of a constant field"); if (lin) for (int l = 0; l < 3; l++) { double g = 0; for (int i = 0; i < 8; i++) g += e->NiXj[p][i][k] * x[i][l]; EQ(g, k == l, L2("gradient of a linear field", p, k, l)); } } } REACH("end"); }
HARNESS(hex_1) { hex(1, 8, true); } HARNESS(hex_2) { hex(2, 4, true); }
#if THOROUGH
HARNESS(hex_2_wide) { hex(2, 8, true); } HARNESS(hex_3) { hex(3, 4, true); }
#endif
// parallelepipeds: volume
HARNESS(hex_volume) { FEStorage s; const int nd[8] = {8, 1, 2, 3, 4, 5, 6, 7}; H* e = mk<H>(s, 8, nd); double A[3][3]; for (int k = 0; k < 3; k++) for (int l = 0; l < 3; l++) A[k][l] = (k == l) + symD("a", -0.25, 0.25); for (int i = 0; i < 8; i++) for (int k = 0; k < 3; k++) s.getNode(nd[i]).pos[k] = 5 + A[k][0] * S3[i][0] + A[k][1] * S3[i][1] + A[k][2] * S3[i][2]; e->setIntegrationOrder(pickU("o", 1, 2)); e->makeJacob(); double dt = A[0][0] * (A[1][1] * A[2][2] - A[1][2] * A[2][1]) - A[0][1] * (A[1][0] * A[2][2] - A[1][2] * A[2][0]) + A[0][2] * (A[1][0] * A[2][1] - A[1][1] * A[2][0]); NEAR(e->volume(), 8 * dt, 1e-9, "volume of a parallelepiped"); REACH("end"); }
