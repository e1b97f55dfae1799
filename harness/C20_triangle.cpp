// @bounds one triangle with any counter-clockwise corner positions (area at least 0.05), any modulus, Poisson ratio -0.5..0.45, any nodal displacements (affine fields, which span them), plane stress and plane strain, every constrained subset of nodes, repeated assembly and update
// @outside rounding of double arithmetic; clockwise triangles (the area is signed)
#include "symx.h"
#include "elem.h"
#include "elements/TRIANGLE4.h"
using namespace tst;
typedef One<ElementTRIANGLE4, 3> T;
static double setup(T& t, double (&x)[3][2]) { for (int i = 0; i < 3; i++) { for (int k = 0; k < 2; k++) x[i][k] = symD("x", -4, 4); t.at(i, x[i][0], x[i][1], 0); } double a2 = (x[1][0] - x[0][0]) * (x[2][1] - x[0][1]) - (x[2][0] - x[0][0]) * (x[1][1] - x[0][1]); assume(a2 > 0.1); t.e->E = symD("E", 0.5, 100); t.e->my = symD("nu", -0.5, 0.45); return a2; }
static void law(bool stress, double E, double v, const double* e, double* s) { if (stress) { double c = E / (1 - v * v); s[0] = c * (e[0] + v * e[1]); s[1] = c * (e[1] + v * e[0]); } else { double l = E * v / ((1 + v) * (1 - 2 * v)), m = E / (1 + v); s[0] = l * (e[0] + e[1]) + m * e[0]; s[1] = l * (e[0] + e[1]) + m * e[1]; } s[2] = E / (2 * (1 + v)) * e[2]; }
static void run(bool stress) { T t; CK(t.e->state == PlaneState::Stress, "plane stress by default"); t.e->state = stress ? PlaneState::Stress : PlaneState::Strain; double x[3][2], a2 = setup(t, x); t.init(pickU("fix", 0, 3)); CK(t.s.nDofs() == 6, "two displacements per node"); double u[3][2]; for (int rep = 0; rep < 2; rep++) { t.assemble(); double G[2][2], a[2]; for (int k = 0; k < 2; k++) { a[k] = symD("a", -2, 2); for (int l = 0; l < 2; l++) G[k][l] = symD("g", -2, 2); } for (int i = 0; i < 3; i++) for (int k = 0; k < 2; k++) { u[i][k] = a[k] + G[k][0] * x[i][0] + G[k][1] * x[i][1]; t.setU(i, UXYZ[k], u[i][k]); } t.s.updateResults(); double e[3] = {G[0][0], G[1][1], G[0][1] + G[1][0]}, s[3]; law(stress, t.e->E, t.e->my, e, s); for (int i = 0; i < 3; i++) { EQ(t.e->strains[i], e[i], L2("strain of the displacement field", i)); EQ(t.e->stress[i], s[i], L2("stress by the elastic law", i)); }
    for (int i = 0; i < 3; i++) { int j = (i + 1) % 3, k = (i + 2) % 3; double gx = (x[j][1] - x[k][1]) / 2, gy = (x[k][0] - x[j][0]) / 2, f[2] = {s[0] * gx + s[2] * gy, s[2] * gx + s[1] * gy}; for (int c = 0; c < 2; c++) { double r = 0; for (int n = 0; n < 3; n++) for (int m = 0; m < 2; m++) r += t.K(i, UXYZ[c], n, UXYZ[m]) * u[n][m]; EQ(r, f[c], L2("K u is the work-equivalent force of the stress", i, c)); EQ(t.F(i, UXYZ[c]), 0, "no load of its own"); } } } REACH("end"); }
HARNESS(plane_stress) { run(true); } HARNESS(plane_strain) { run(false); }
