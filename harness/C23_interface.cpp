// @bounds one joint element: normals in the coordinate planes symbolic and twelve further directions, any stiffnesses and displacements, constrained nodes by fork; one wedge joint over a triangle of any shape (side and third corner symbolic) in three orientations of space and six given triangles of general orientation, any thickness between the faces, any stiffnesses and displacements; two assemblies and updates in a row
// @outside normals and wedge orientations outside these families; rounding of double arithmetic; error of the tabulated quadrature constants (10 digits: tolerance 1e-7)
#include "symx.h"
#include "elem.h"
#include "elements/INTER0.h"
#include "elements/INTER3.h"
using namespace tst;
typedef One<ElementINTER0, 2> I0; typedef One<ElementINTER3, 6> I3;
static void pos0(I0& t) { double x = symD("x", -4, 4), y = symD("y", -4, 4); t.at(0, x, y, 1); t.at(1, x, y, 1); }
static void stiff0(I0& t, const double* n) { double q = 0; for (int k = 0; k < 3; k++) { t.e->n[k] = n[k]; q += n[k] * n[k]; } t.e->kn = symD("kn", 0, 100); t.e->ks = symD("ks", 0, 100); t.init(pickU("fix", 0, 3)); CK(t.s.nDofs() == 6, "three displacements per node");
  for (int rep = 0; rep < 2; rep++) { t.assemble(); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) for (int k = 0; k < 3; k++) for (int l = 0; l < 3; l++) { double nn = n[k] * n[l] / q; NEAR(t.K(i, UXYZ[k], j, UXYZ[l]), (i == j ? 1 : -1) * (t.e->ks * ((k == l) - nn) + t.e->kn * nn), 1e-9, L2("normal and shear stiffness", i * 3 + k, j * 3 + l)); } } for (int i = 0; i < 2; i++) for (int k = 0; k < 3; k++) EQ(t.F(i, UXYZ[k]), 0, "no load of its own"); }
// directions in the three coordinate planes are symbolic
HARNESS(joint_stiffness) { I0 t; pos0(t); double n[3] = {0, 0, 0}, p = symD("n", -2, 2), r = symD("n", 0.25, 2); int pl = pickU("plane", 0, 2); n[pl] = p; n[(pl + 1) % 3] = r; double q = p * p + r * r; for (int k = 0; k < 3; k++) t.e->n[k] = n[k]; t.e->kn = symD("kn", 0, 100); t.e->ks = symD("ks", 0, 100); t.init(0); t.assemble(); t.assemble();
  for (int i = 0; i < 2; i++) for (int j = i; j < 2; j++) for (int k = 0; k < 3; k++) for (int l = i == j ? k : 0; l < 3; l++) EQ(t.K(i, UXYZ[k], j, UXYZ[l]) * q, (i == j ? 1 : -1) * (t.e->ks * ((k == l) * q - n[k] * n[l]) + t.e->kn * n[k] * n[l]), L2("normal and shear stiffness for any direction", i * 3 + k, j * 3 + l)); REACH("end"); }
HARNESS(joint_directions) { static const double dir[][3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {0, 1, 1}, {0, -1, -1}, {0, 2, 2}, {1, 1, 1}, {1, -1, -1}, {-1, 0, 0}, {1, 2, -2}, {0, 1, -1}, {3, 0, 4}}; I0 t; pos0(t); stiff0(t, dir[pickU("direction", 0, 11)]); REACH("end"); }
HARNESS(joint_results) { I0 t; pos0(t); t.e->n[2] = 1; t.init(pickU("fix", 0, 3)); for (int rep = 0; rep < 2; rep++) { double d[3]; for (int k = 0; k < 3; k++) { double a = symD("u", -2, 2), b = symD("u", -2, 2); t.setU(0, UXYZ[k], a); t.setU(1, UXYZ[k], b); d[k] = b - a; } t.s.updateResults(); double sc = symD("scale", -2, 2); MatSym<3> m; m.zero(); m.comp(1, 1) = 3; CK(t.e->getTensor(&m, tensorQuery::C, 0, sc), "jump is answered"); for (int k = 0; k < 3; k++) { EQ(t.e->strains[k], d[k], "jump of the displacement"); for (int l = k; l < 3; l++) EQ(m.comp(k, l), (k == l) * sc * d[k] + (k == 1 && l == 1 ? 3 : 0), L2("jump is accumulated", k, l)); } CK(!t.e->getTensor(&m, tensorQuery::COUCHY, 0, 1), "unknown tensor is refused"); Vec<3> v(0, 0, 0); CK(!t.e->getVector(&v, vectorQuery::IC, 0, 1), "unknown vector is refused"); double z = 0; CK(!t.e->getScalar(&z, scalarQuery::W, 0, 1), "unknown scalar is refused"); } REACH("end"); }
// wedge joint: the frame R has s1 as first column, s2 second, n third
static const double RF[3][9] = {{1, 0, 0, 0, 1, 0, 0, 0, 1}, {0, 0, 1, 1, 0, 0, 0, 1, 0}, {1, 0, 0, 0, -1, 0, 0, 0, -1}};
// corners of concrete triangles: any orientation
static const double TR[6][9] = {{0, 0, 0, 1, 2, 2, 2, 1, -2}, {1, 1, 1, 0, 1, 2, 1, 0, 2}, {0, 0, 0, 3, 4, 0, 1, 4, 2}, {-1, 0, 2, 0.5, 0.25, 1, -1, -1, -1}, {0, 1, 0, 0, 1, 3, 0, -2, 1}, {2, 0, 0, 1, 0, 0, 1.5, -1, -0.5}};
struct W { I3 t; double area2, R[9]; W(bool sym) { double o[3], c[3][3]; for (int k = 0; k < 3; k++) o[k] = sym ? symD("origin", -2, 2) : 0; if (sym) { const double* f = RF[pickU("frame", 0, 2)]; double s = symD("side", 0.5, 2), a = symD("a", -1, 1), b = symD("b", 0.5, 2); const double q[3][2] = {{0, 0}, {s, 0}, {a, b}}; for (int k = 0; k < 9; k++) R[k] = f[k]; for (int i = 0; i < 3; i++) for (int k = 0; k < 3; k++) c[i][k] = o[k] + R[3 * k] * q[i][0] + R[3 * k + 1] * q[i][1]; area2 = s * b; }
    else { const double* x = TR[pickU("triangle", 0, 5)]; for (int i = 0; i < 9; i++) c[i / 3][i % 3] = x[i]; double e[3], g[3], n[3], l = 0, m = 0; for (int k = 0; k < 3; k++) { e[k] = x[3 + k] - x[k]; g[k] = x[6 + k] - x[k]; l += e[k] * e[k]; } for (int k = 0; k < 3; k++) { n[k] = e[(k + 1) % 3] * g[(k + 2) % 3] - e[(k + 2) % 3] * g[(k + 1) % 3]; m += n[k] * n[k]; } area2 = std::sqrt(m); for (int k = 0; k < 3; k++) { R[3 * k] = e[k] / std::sqrt(l); R[3 * k + 2] = n[k] / area2; } for (int k = 0; k < 3; k++) { int a = (k + 1) % 3, b = (k + 2) % 3; R[3 * k + 1] = R[3 * a + 2] * R[3 * b] - R[3 * b + 2] * R[3 * a]; } }
    double th = symD("thickness", 0, 0.5); for (int f = 0; f < 2; f++) for (int i = 0; i < 3; i++) t.at(f * 3 + i, c[i][0] + R[2] * th * f, c[i][1] + R[5] * th * f, c[i][2] + R[8] * th * f); t.e->kn = symD("kn", 0, 100); t.e->ks = symD("ks", 0, 100); }
  double k(int r, int q) { double v = 0; for (int i = 0; i < 3; i++) v += R[3 * r + i] * R[3 * q + i] * (i == 2 ? t.e->kn : t.e->ks); return v; } };
static void stiffness(W& w) { w.t.init(pickU("fix", 0, 1) * 9); CK(w.t.s.nDofs() == 18, "three displacements per node"); for (int rep = 0; rep < 2; rep++) w.t.assemble(); for (int i = 0; i < 6; i++) for (int j = i; j < 6; j++) for (int r = 0; r < 3; r++) for (int q = i == j ? r : 0; q < 3; q++) NEAR(w.t.K(i, UXYZ[r], j, UXYZ[q]), (i / 3 == j / 3 ? 1 : -1) * (i % 3 == j % 3 ? 2 : 1) * w.area2 / 24 * w.k(r, q), 1e-6, L2("surface stiffness", i * 3 + r, j * 3 + q)); for (int i = 0; i < 6; i++) for (int k = 0; k < 3; k++) EQ(w.t.F(i, UXYZ[k]), 0, "no load of its own"); REACH("end"); }
HARNESS(wedge_stiffness) { W w(true); stiffness(w); } HARNESS(wedge_stiffness_oriented) { W w(false); stiffness(w); }
static void results(W& w) { w.t.init(0); w.t.assemble(); for (int rep = 0; rep < 2; rep++) { double d[3] = {0, 0, 0}; for (int i = 0; i < 6; i++) for (int k = 0; k < 3; k++) { double u = symD("u", -2, 2); w.t.setU(i, UXYZ[k], u); d[k] += (i < 3 ? -1 : 1) * u / 3; } w.t.s.updateResults(); double sc = symD("scale", -2, 2); MatSym<3> m, g; m.zero(); g.zero(); m.comp(1, 1) = 3; CK(w.t.e->getTensor(&m, tensorQuery::C, 0, sc) & w.t.e->getTensor(&g, tensorQuery::E, 0, sc), "jump and traction are answered"); for (int k = 0; k < 3; k++) { double f = 0; for (int l = 0; l < 3; l++) f += w.k(k, l) * d[l]; NEAR(w.t.e->strains[k], d[k], 1e-7, L2("mean jump over the surface", k)); NEAR(w.t.e->stress[k], f, 1e-5, L2("mean traction over the surface", k)); NEAR(w.t.e->normal[k], w.R[3 * k + 2], 1e-9, L2("unit normal of the triangle", k)); EQ(m.comp(k, k), sc * w.t.e->strains[k] + (k == 1 ? 3 : 0), "jump is accumulated"); EQ(g.comp(k, k), sc * w.t.e->stress[k], "traction is accumulated"); }
    CK(!w.t.e->getTensor(&m, tensorQuery::COUCHY, 0, 1), "unknown tensor is refused"); Vec<3> v(0, 0, 0); CK(!w.t.e->getVector(&v, vectorQuery::FLUX, 0, 1), "unknown vector is refused"); double z = 0; CK(!w.t.e->getScalar(&z, scalarQuery::W, 0, 1), "unknown scalar is refused"); } REACH("end"); }
HARNESS(wedge_results) { W w(true); results(w); } HARNESS(wedge_results_oriented) { W w(false); results(w); }
