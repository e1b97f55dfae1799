// @bounds one tetrahedron with any positively oriented corner positions (volume at least 0.02), any modulus, Poisson ratio -0.5..0.45, any thermal expansion, temperature, conductivity and any nodal values (affine fields, which span them); constrained nodes from the harness menu; repeated assembly; quick: first node at (0.25,0.25,0.25) and the x coordinates of the others descending (thorough: any)
// @outside rounding of double arithmetic; negatively oriented tetrahedra (the volume is signed); initial stresses and strains set by the user (their sign convention is not documented)
// @symopts --snap
// @outside constants such as 1.0/6.0 are read as the fractions they round
// @budget 300
#include "symx.h"
#include "elem.h"
#include "elements/TETRA0.h"
#include "elements/TETRA1.h"
using namespace tst;
static const double TET0[4][3] = {{0, 0, 0}, {2, 0, 0}, {1, 1.5, 0}, {0.5, 0.25, 1.25}};
template <class T> static double setup(T& t, double (&x)[4][3], bool wide) { for (int i = 0; i < 4; i++) { for (int k = 0; k < 3; k++) x[i][k] = __sym_warm() ? 0.25 + TET0[i][k] : wide || i ? symD("x", -3, 3) : 0.25; t.at(i, x[i][0], x[i][1], x[i][2]); } double a[3][3]; for (int i = 0; i < 3; i++) for (int k = 0; k < 3; k++) a[i][k] = x[i + 1][k] - x[0][k]; double d = a[0][0] * (a[1][1] * a[2][2] - a[1][2] * a[2][1]) - a[0][1] * (a[1][0] * a[2][2] - a[1][2] * a[2][0]) + a[0][2] * (a[1][0] * a[2][1] - a[1][1] * a[2][0]); assume(d > 0.12); if (!THOROUGH) assume((a[0][0] > a[1][0]) & (a[1][0] > a[2][0]) & (a[2][0] > 0)); return d / 6; }
// 6 V grad N_i
static void grad(double (&x)[4][3], int i, double* g) { int j = (i + 1) % 4, k = (i + 2) % 4, l = (i + 3) % 4; double s = i % 2 ? 1 : -1, p[3], q[3]; for (int c = 0; c < 3; c++) { p[c] = x[k][c] - x[j][c]; q[c] = x[l][c] - x[j][c]; } for (int c = 0; c < 3; c++) { int a = (c + 1) % 3, b = (c + 2) % 3; g[c] = s * (p[a] * q[b] - p[b] * q[a]); } }
static void law(double E, double v, const double* e, double* s) { double l = E * v / ((1 + v) * (1 - 2 * v)), m = E / (1 + v), tr = e[0] + e[1] + e[2]; for (int i = 0; i < 3; i++) { s[i] = l * tr + m * e[i]; s[3 + i] = m / 2 * e[3 + i]; } }
static const int VI[3][3] = {{0, 3, 5}, {3, 1, 4}, {5, 4, 2}};
typedef One<ElementTETRA0, 4> S0; typedef One<ElementTETRA1, 4> S1;
static void mech(bool thermal, bool wide) { S0 t; double x[4][3], V = setup(t, x, wide); t.e->E = symD("E", 0.5, 100); t.e->my = symD("nu", -0.5, 0.45); double aT = 0; if (thermal) { t.e->alpha = symD("alpha", 0.125, 1); t.e->T = symD("T", 1, 50); aT = t.e->alpha * t.e->T; } t.init(pickU("fix", 0, 1) * 5); CK(t.s.nDofs() == 12, "three displacements per node"); t.assemble(); if (thermal) t.assemble(); double G[3][3], a[3], u[4][3]; for (int k = 0; k < 3; k++) { a[k] = symD("a", -2, 2); for (int l = 0; l < 3; l++) G[k][l] = symD("g", -2, 2); }
  for (int i = 0; i < 4; i++) for (int k = 0; k < 3; k++) { u[i][k] = a[k]; for (int l = 0; l < 3; l++) u[i][k] += G[k][l] * x[i][l]; t.setU(i, UXYZ[k], u[i][k]); } double e[6] = {G[0][0], G[1][1], G[2][2], G[0][1] + G[1][0], G[1][2] + G[2][1], G[0][2] + G[2][0]}, s[6], z[6], e0[6] = {aT, aT, aT, 0, 0, 0}, es[6], s0[6]; for (int i = 0; i < 6; i++) es[i] = e[i] - e0[i]; law(t.e->E, t.e->my, e, s); law(t.e->E, t.e->my, es, z); law(t.e->E, t.e->my, e0, s0);
  for (int i = 0; i < 4; i++) { double g[3]; grad(x, i, g); for (int c = 0; c < 3; c++) { double r = 0, f = 0, f0 = 0; for (int n = 0; n < 4; n++) for (int m = 0; m < 3; m++) r += t.K(i, UXYZ[c], n, UXYZ[m]) * u[n][m]; for (int m = 0; m < 3; m++) { f += s[VI[c][m]] * g[m] / 6; f0 += s0[VI[c][m]] * g[m] / 6; } if (THOROUGH || i == 1 || i == 2) EQ(r, f, L2("K u is the work-equivalent force of the stress", i, c)); EQ(t.F(i, UXYZ[c]), f0, L2("thermal load is the force of the thermal stress", i, c)); } }
  t.s.updateResults(); for (int i = 0; i < 6; i++) { EQ(t.e->strains[i], e[i], L2("strain of the displacement field", i)); EQ(t.e->stress[i], z[i], L2("stress of the elastic strain", i)); } EQ(t.e->vol, V, "volume"); double sc = symD("scale", -2, 2), v = 3; CK(t.e->getScalar(&v, scalarQuery::VOL, GP_MEAN, sc), "volume query"); EQ(v, 3 + V * sc, "a scalar query adds the scaled result"); MatSym<3> m; m.zero(); m.comp(1, 2) = 7; CK(t.e->getTensor(&m, tensorQuery::TSTRAIN, GP_MEAN, sc), "thermal strain query"); for (int i = 0; i < 3; i++) for (int j = i; j < 3; j++) EQ(m.comp(i, j), (i == 1 && j == 2 ? 7 : 0) + (i == j ? aT * sc : 0), "thermal strain"); CK(!t.e->getScalar(&v, scalarQuery::SP, GP_MEAN, sc) && !t.e->getTensor(&m, tensorQuery::PK2, GP_MEAN, sc) && !t.e->getTensor(&m, tensorQuery::UNDEF, GP_MEAN, sc), "unknown queries are refused"); EQ(v, 3 + V * sc, "a refused query changes nothing"); REACH("end"); }
HARNESS(elastic) { mech(false, false); } HARNESS(thermal) { mech(true, false); }
#if THOROUGH
HARNESS(elastic_wide) { mech(false, true); }
#endif
// tensor queries (as the regression test of the repository reads them: C gives the strains, E the stresses)
static void query(S0& t, tensorQuery q, const Vec<6>& w, const char* l) { double sc = symD("scale", -2, 2); MatSym<3> m; m.zero(); m.comp(0, 0) = 5; CK(t.e->getTensor(&m, q, GP_MEAN, sc), "query is answered"); const int id[3][3] = {{0, 3, 5}, {3, 1, 4}, {5, 4, 2}}; Vec<6> x = w; for (int i = 0; i < 3; i++) for (int j = i; j < 3; j++) EQ(m.comp(i, j), (i + j == 0 ? 5 : 0) + sc * x[id[i][j]], l); }
static void fill(S0& t) { for (int i = 0; i < 6; i++) { t.e->strains[i] = symD("e", -2, 2); t.e->stress[i] = symD("s", -50, 50); } }
HARNESS(queries) { S0 t; fill(t); query(t, tensorQuery::E, t.e->stress, "tensor query adds the scaled stresses"); query(t, tensorQuery::C, t.e->strains, "tensor query adds the scaled strains"); REACH("end"); }
HARNESS(query_E_meaning) { S0 t; fill(t); query(t, tensorQuery::E, t.e->strains, "TETRA0 query E is the strain"); REACH("end"); }
// assembling again after the results were updated
HARNESS(again) { S0 t; t.at(1, 1, 0, 0.25); t.at(2, 0.5, 1, 0); t.at(3, 0, 0.25, 2); t.e->E = 2; t.e->my = 0.25; t.init(0); t.assemble(); double k = t.K(1, Dof::UX, 1, Dof::UX), f = t.F(1, Dof::UX); t.setU(1, Dof::UX, symD("u", 0.5, 1)); t.s.updateResults(); t.assemble(); EQ(t.K(1, Dof::UX, 1, Dof::UX), k, "stiffness after an update"); EQ(t.F(1, Dof::UX), f, "TETRA0 load after an update"); REACH("end"); }
// heat conduction
static void heat(bool wide) { S1 t; double x[4][3], V = setup(t, x, wide); t.e->k = symD("k", 0.5, 100); t.init(pickU("fix", 0, 1) * 5, Dof::TEMP); CK(t.s.nDofs() == 4, "one temperature per node"); t.assemble(); t.assemble(); double g[3], T0 = symD("T0", -9, 9), T[4]; for (int k = 0; k < 3; k++) g[k] = symD("g", -2, 2); for (int i = 0; i < 4; i++) { T[i] = T0; for (int k = 0; k < 3; k++) T[i] += g[k] * x[i][k]; t.setU(i, Dof::TEMP, T[i]); } for (int i = 0; i < 4; i++) { double q[3], r = 0; grad(x, i, q); for (int n = 0; n < 4; n++) r += t.K(i, Dof::TEMP, n, Dof::TEMP) * T[n]; EQ(r, t.e->k * (g[0] * q[0] + g[1] * q[1] + g[2] * q[2]) / 6, L2("K T is the heat flow into the node", i)); EQ(t.F(i, Dof::TEMP), 0, "no load of its own"); }
  for (int rep = 0; rep < 2; rep++) t.s.updateResults(); double sc = symD("scale", -2, 2), v = 3; for (int k = 0; k < 3; k++) EQ(t.e->flux[k], -t.e->k * g[k], L2("flux by Fourier's law", k)); EQ(t.e->vol, V, "volume"); CK(t.e->getScalar(&v, scalarQuery::VOL, GP_MEAN, sc), "volume query"); EQ(v, 3 + V * sc, "a scalar query adds the scaled result"); Vec<3> a(1., 2., 3.), b(1., 2., 3.); CK(t.e->getVector(&a, vectorQuery::FLUX, GP_MEAN, sc) && t.e->getVector(&b, vectorQuery::GRADT, GP_MEAN, sc), "vector queries"); for (int k = 0; k < 3; k++) { EQ(a[k], k + 1 - sc * t.e->k * g[k], "flux query"); EQ(b[k], k + 1 + sc * g[k], "gradient query"); } CK(!t.e->getVector(&a, vectorQuery::IC, GP_MEAN, sc) && !t.e->getScalar(&v, scalarQuery::W, GP_MEAN, sc), "unknown queries are refused"); REACH("end"); }
HARNESS(conduction) { heat(false); }
#if THOROUGH
HARNESS(conduction_wide) { heat(true); }
#endif
