// @bounds one PLANE41 or SOLID81 element on two concrete shapes (reference and distorted), 1-point and 2-point integration; any displacements (kinematics), any displacement gradients, stresses, pressure, bulk modulus and second derivatives of the energy at every integration point (tangent and residual; SOLID81 with 8 points: any gradient and stress at one point at a time); constrained nodes from the harness menu
// @outside rounding of double arithmetic (agreement to 1e-7); other element shapes (their gradients are C15); the strains at which the tangent is evaluated are concrete (the material law itself is C16)
// @budget 400
#include "symx.h"
#include "elem.h"
#include "elements/PLANE41.h"
#include "elements/SOLID81.h"
#include "materials/materials_hyperelastic.h"
using namespace tst; using solidmech::tensorComponents;
struct TM : Mat_Hyper_Isotrop_General { double a[5], k; TM() { for (int i = 0; i < 5; i++) a[i] = 0; k = 1; } void W_first_derivatives(double, double, double, double* r) { r[0] = a[0]; r[1] = a[1]; } void W_second_derivatives(double, double, double, double* r) { for (int i = 0; i < 5; i++) r[i] = a[i]; } double W(double I1, double I2, double) { return a[0] * (I1 - 3) + a[1] * (I2 - 3); } double getK() { return k; } };
static const int S3[8][3] = {{-1, -1, -1}, {1, -1, -1}, {1, 1, -1}, {-1, 1, -1}, {-1, -1, 1}, {1, -1, 1}, {1, 1, 1}, {-1, 1, 1}};
static const double DX[8][3] = {{0, 0.25, 0}, {0.5, 0, -0.25}, {0.25, 0.5, 0}, {-0.25, 0, 0.25}, {0, 0, 0.5}, {0.25, -0.25, 0}, {0, 0.25, 0.25}, {0.25, 0, -0.125}};
// strains at which the tangent is taken
static const double CC[2][6] = {{1.25, 0.25, 0, 1, 0, 1}, {0.75, -0.125, 0, 1.5, 0, 1}}, C6[2][6] = {{1.25, 0.25, 0.125, 1, -0.25, 1.125}, {0.75, -0.125, 0.25, 1.5, 0.125, 0.875}};
template <class E, int N, int D> struct Hy : One<E, N> { TM* m; Hy(bool dist, int o) { for (int i = 0; i < N; i++) { double c[3] = {0, 0, 0}; for (int k = 0; k < D; k++) c[k] = S3[i][k] + (dist ? DX[i][k] : 0); this->at(i, c[0], c[1], c[2]); } m = new TM; this->s.material = m; this->e->setIntegrationOrder(o); }
  uint32 pe() { return this->s.getElementDofEqNumber(1, Dof::HYDRO_PRESSURE); } void setP(double p) { (*this->s.getU())[pe() - 1] = p; } int np() { return this->e->nOfIntPoints(); } };
typedef Hy<ElementPLANE41, 4, 2> P4; typedef Hy<ElementSOLID81, 8, 3> S8;
static const tensorComponents PC[3] = {solidmech::M_XX, solidmech::M_YY, solidmech::M_XY};
static double grad(const ElementPLANE41& e, int p, int a, int b) { return e.O[p][a * 2 + b]; } static double grad(const ElementSOLID81& e, int p, int a, int b) { return e.O[p][a * 3 + b]; }
static void setG(ElementPLANE41& e, int p, int a, int b, double v) { e.O[p][a * 2 + b] = v; } static void setG(ElementSOLID81& e, int p, int a, int b, double v) { e.O[p][a * 3 + b] = v; }
// components of the symmetric tensors kept per point: list of (k, l)
static const int IP[3][2] = {{0, 0}, {1, 1}, {0, 1}}, IS[6][2] = {{0, 0}, {0, 1}, {0, 2}, {1, 1}, {1, 2}, {2, 2}};
template <int D> const int (*idx())[2] { return D == 2 ? IP : IS; }
// kinematics and stress after update
template <class H, int N, int D> static void kinematics(H& t) { const int n = D == 2 ? 3 : 6; const int (*ix)[2] = idx<D>(); t.m->a[0] = symD("a1", 0.5, 5); t.m->a[1] = symD("a2", 0.5, 5); t.init(pickU("fix", 0, 1) * 5); CK(t.s.nDofs() == N * D + 1, "displacements and one pressure"); double p = symD("p", -9, 9); t.setP(p); double u[N][3];
  for (int i = 0; i < N; i++) for (int k = 0; k < D; k++) t.setU(i, UXYZ[k], u[i][k] = symD("u", -1, 1)); t.s.updateResults(); t.s.updateResults();
  for (int q = 0; q < t.np(); q++) { double F[3][3]; for (int a = 0; a < D; a++) for (int b = 0; b < D; b++) { double g = 0; for (int i = 0; i < N; i++) g += u[i][a] * t.e->NiXj[q][i][b]; EQ(grad(*t.e, q, a, b), g, L2("displacement gradient", q, a, b)); F[a][b] = g + (a == b); }
    double c6[6] = {1, 0, 0, 1, 0, 1}, S[6]; for (int k = 0; k < n; k++) { double c = 0; for (int a = 0; a < D; a++) c += F[a][ix[k][0]] * F[a][ix[k][1]]; EQ(t.e->C[q][k], c, L2("C = F^T F", q, k)); c6[D == 2 ? PC[k] : k] = t.e->C[q][k]; }
    t.m->getS_UP(n, D == 2 ? PC : solidmech::defaultTensorComponents, c6, p, S); for (int k = 0; k < n; k++) EQ(t.e->S[q][k], S[k], L2("stress of the material law", q, k)); } REACH("end"); }
HARNESS(plane_kinematics) { bool d = pickB("dist"); P4 t(d, pickU("o", 1, 2)); kinematics<P4, 4, 2>(t); }
HARNESS(solid_kinematics) { bool d = pickB("dist"); S8 t(d, d ? 1 : 2); kinematics<S8, 8, 3>(t); }
// residual and tangent
template <class H, int N, int D> static void tangent(H& t, int only) { const int n = D == 2 ? 3 : 6; const int (*ix)[2] = idx<D>(); t.m->k = symD("k", 0.5, 100); for (int i = 0; i < 5; i++) t.m->a[i] = symD("alpha", -4, 4); t.init(only % 2 * 6); double p = symD("p", -9, 9); t.setP(p); int Q = t.np(); std::vector<double> G(Q * 9), S(Q * 6), Dd(Q * 36), Dp(Q * 6); double Fp = 0, W = 0;
  for (int q = 0; q < Q; q++) { bool sy = only < 0 || q == only; double c[6], dd[21]; for (int k = 0; k < 6; k++) c[k] = D == 2 ? CC[q % 2][k] : C6[q % 2][k]; for (int k = 0; k < n; k++) { t.e->C[q][k] = c[D == 2 ? PC[k] : k]; t.e->S[q][k] = S[q * 6 + k] = sy ? symD("S", -9, 9) : 0; }
    for (int a = 0; a < D; a++) for (int b = 0; b < D; b++) { double g = sy ? symD("g", -1, 1) : 0; setG(*t.e, q, a, b, g); G[q * 9 + a * 3 + b] = g + (a == b); }
    t.m->getDdDp_UP(n, D == 2 ? PC : solidmech::defaultTensorComponents, c, p, dd, &Dp[q * 6]); int z = 0; for (int r = 0; r < n; r++) for (int s = r; s < n; s++) { Dd[q * 36 + r * 6 + s] = Dd[q * 36 + s * 6 + r] = dd[z++]; }
    double w = t.e->intWeight(q); W += w; Fp += w * (solidmech::J_C(c) - 1 - p / t.m->k); }
  t.assemble(); t.assemble(); NEAR(t.F(0, Dof::UX) * 0 + (*t.s.getF())[t.pe() - 1], -Fp, 1e-7, "pressure residual"); NEAR(t.Kff(t.pe(), t.pe()) * t.m->k, -W, 1e-7, "compressibility");
  auto b = [&](int q, int i, int a, int r) { int k = ix[r][0], l = ix[r][1]; double fk = G[q * 9 + a * 3 + k], fl = G[q * 9 + a * 3 + l], *N_ = 0; double gk = t.e->NiXj[q][i][k], gl = t.e->NiXj[q][i][l]; return k == l ? fk * gk : fk * gl + fl * gk; };
  for (int i = 0; i < N; i++) for (int a = 0; a < D; a++) { double f = 0, kp = 0; for (int q = 0; q < Q; q++) for (int r = 0; r < n; r++) { double w = t.e->intWeight(q), br = b(q, i, a, r); f += w * br * S[q * 6 + r]; kp += w * br * Dp[q * 6 + r]; } NEAR(t.F(i, UXYZ[a]), -f, 1e-7, L2("residual is minus the virtual work of the stress", i, a)); uint32 e1 = t.eq(i, UXYZ[a]); NEAR(t.Kff(e1, t.pe()), kp, 1e-7, L2("pressure coupling", i, a)); }
  for (int i = 0; i < N; i++) for (int j = i; j < N; j++) for (int a = 0; a < D; a++) for (int c = 0; c < D; c++) { double v = 0; for (int q = 0; q < Q; q++) { double w = t.e->intWeight(q), h = 0; for (int r = 0; r < n; r++) { double br = b(q, i, a, r); for (int s = 0; s < n; s++) h += 2 * br * Dd[q * 36 + r * 6 + s] * b(q, j, c, s); int k = ix[r][0], l = ix[r][1]; if (a == c) h += S[q * 6 + r] * (k == l ? t.e->NiXj[q][i][k] * t.e->NiXj[q][j][k] : t.e->NiXj[q][i][k] * t.e->NiXj[q][j][l] + t.e->NiXj[q][i][l] * t.e->NiXj[q][j][k]); } v += w * h; }
    NEAR(t.K(i, UXYZ[a], j, UXYZ[c]), v, 1e-7, L2("tangent is material plus initial stress stiffness", i * 10 + a, j * 10 + c)); } REACH("end"); }
HARNESS(plane_tangent_1) { P4 t(pickB("dist"), 1); tangent<P4, 4, 2>(t, -1); }
HARNESS(plane_tangent_2) { P4 t(true, 2); tangent<P4, 4, 2>(t, -1); }
HARNESS(solid_tangent_1) { S8 t(true, 1); tangent<S8, 8, 3>(t, -1); }
HARNESS(solid_tangent_2) { S8 t(true, 2); tangent<S8, 8, 3>(t, pickU("point", 0, 7)); }
#if THOROUGH
HARNESS(solid_tangent_2_all) { S8 t(true, 2); tangent<S8, 8, 3>(t, -1); }
#endif
// queries at a point and averaged over the element
template <class H, int N, int D> static void queries(H& t) { const int n = D == 2 ? 3 : 6; const int (*ix)[2] = idx<D>(); t.m->a[0] = symD("a1", 0.5, 5); t.m->a[1] = symD("a2", 0.5, 5); t.m->k = symD("k", 0.5, 100); t.init(0); double p = symD("p", -9, 9); t.setP(p); int Q = t.np(), id[3][3] = {{0, 1, 2}, {1, 3, 4}, {2, 4, 5}}; double sc = symD("scale", -2, 2), W = 0; CK(t.e->getScalar(&W, scalarQuery::VOL, GP_MEAN, 1.0) | (D == 2), "volume is answered"); W = t.e->volume();
  std::vector<double> C(Q * 6), S(Q * 6); for (int q = 0; q < Q; q++) { double c[6] = {1, 0, 0, 1, 0, 1}; for (int k = 0; k < n; k++) c[D == 2 ? PC[k] : k] = t.e->C[q][k] = D == 2 ? CC[q % 2][PC[k]] : C6[q % 2][k]; t.m->getS_UP(6, solidmech::defaultTensorComponents, c, p, &S[q * 6]); for (int k = 0; k < 6; k++) C[q * 6 + k] = c[k]; for (int k = 0; k < n; k++) t.e->S[q][k] = S[q * 6 + (D == 2 ? PC[k] : k)]; }
  uint16 g = pickU("gp", 0, Q); if (g == Q) g = GP_MEAN; auto mean = [&](const double* v, int k) { double r = 0; for (int q = 0; q < Q; q++) if (g == q) r = v[q * 6 + k]; else if (g == GP_MEAN) r += v[q * 6 + k] * t.e->intWeight(q) / W; return r; };
  MatSym<3> m; m.zero(); m.comp(0, 1) = 7; for (int k = 0; k < 3; k++) { tensorQuery tq = k == 0 ? tensorQuery::C : k == 1 ? tensorQuery::E : tensorQuery::PK2; m.zero(); m.comp(0, 1) = 7; CK(t.e->getTensor(&m, tq, g, sc), "tensor query is answered"); for (int r = 0; r < 3; r++) for (int c = r; c < 3; c++) { int z = id[r][c]; double v = k == 2 ? mean(&S[0], z) : mean(&C[0], z), o = z == 1 ? 7 : 0; if (k == 1) v = (v - (r == c)) / 2; NEAR(m.comp(r, c), o + sc * v, 1e-7, L2(k == 0 ? "tensor C" : k == 1 ? "Green strain E = (C - I)/2" : "second Piola-Kirchhoff stress", r, c)); } }
  Vec<3> v[2]; v[0][0] = 1; v[0][1] = 2; v[0][2] = 3; v[1][0] = v[1][1] = v[1][2] = 5; CK(t.e->getVector(&v[0], vectorQuery::IC, g, sc), "invariants are answered"); double I[3] = {}; for (int q = 0; q < Q; q++) { double ic[3], w = g == q ? 1 : g == GP_MEAN ? t.e->intWeight(q) / W : 0; solidmech::IC_C(&C[q * 6], ic); for (int k = 0; k < 3; k++) I[k] += w * ic[k]; } for (int k = 0; k < 3; k++) { NEAR(v[0][k], k + 1 + sc * I[k], 1e-7, L2("invariants of C", k)); CK(v[1][k] == 5.0, "only the given vector is written"); }
  double sp = 3; CK(t.e->getScalar(&sp, scalarQuery::SP, g, sc), "pressure is answered"); NEAR(sp, 3 + sc * p, 1e-7, "pressure query"); CK(!t.e->getVector(&v[0], vectorQuery::FLUX, g, sc) & !t.e->getTensor(&m, tensorQuery::TSTRAIN, g, sc) & !t.e->getScalar(&sp, scalarQuery::UNDEF, g, sc), "queries it cannot answer are refused"); REACH("end"); }
HARNESS(plane_queries) { P4 t(true, pickU("o", 1, 2)); queries<P4, 4, 2>(t); } HARNESS(solid_queries) { S8 t(true, pickU("o", 1, 2)); queries<S8, 8, 3>(t); }
// Cauchy stress J^-1 F S F^T of a consistent state, at the integration point
template <class H, int N, int D> static void cauchy(H& t) { const int n = D == 2 ? 3 : 6; const int (*ix)[2] = idx<D>(); t.m->a[0] = 0; t.init(0); double p = symD("p", -9, 9); t.setP(p); double F[3][3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}, c[6] = {1, 0, 0, 1, 0, 1}, S[6]; for (int a = 0; a < D; a++) for (int b = 0; b < D; b++) { double g = symD("g", -0.25, 0.25); setG(*t.e, 0, a, b, g); F[a][b] += g; }
  double J = F[0][0] * (F[1][1] * F[2][2] - F[1][2] * F[2][1]) - F[0][1] * (F[1][0] * F[2][2] - F[1][2] * F[2][0]) + F[0][2] * (F[1][0] * F[2][1] - F[1][1] * F[2][0]); assume(J > 0.25); for (int k = 0; k < n; k++) { double v = 0; for (int a = 0; a < 3; a++) v += F[a][ix[k][0]] * F[a][ix[k][1]]; t.e->C[0][k] = v; }
  // a material with pressure only: S = p J C^-1, so the Cauchy stress is p I
  c[0] = c[0]; double cc[6] = {1, 0, 0, 1, 0, 1}; for (int k = 0; k < n; k++) cc[D == 2 ? PC[k] : k] = t.e->C[0][k]; t.m->getS_UP(6, solidmech::defaultTensorComponents, cc, p, S); for (int k = 0; k < n; k++) t.e->S[0][k] = S[D == 2 ? PC[k] : k]; double sc = symD("scale", -2, 2); MatSym<3> m; m.zero(); m.comp(1, 1) = 7; CK(t.e->getTensor(&m, tensorQuery::COUCHY, 0, sc), "Cauchy stress is answered");
  for (int r = 0; r < 3; r++) for (int q = r; q < 3; q++) EQ(m.comp(r, q), (r == 1 && q == 1 ? 7 : 0) + (r == q ? sc * p : 0), L2("Cauchy stress of a hydrostatic state", r, q)); REACH("end"); }
HARNESS(plane_cauchy_pressure) { P4 t(false, 1); cauchy<P4, 4, 2>(t); } HARNESS(solid_cauchy_pressure) { S8 t(false, 1); cauchy<S8, 8, 3>(t); }
// simple shear and stretch with a deviatoric stress: pushed forward with F, not with its transpose
HARNESS(plane_cauchy) { P4 t(false, 1); t.m->a[0] = symD("a1", 0.5, 5); t.init(0); t.setP(0); double h = symD("shear", -2, 2); setG(*t.e, 0, 0, 1, h); t.e->C[0][0] = 1; t.e->C[0][1] = 1 + h * h; t.e->C[0][2] = h; double c[6] = {1, h, 0, 1 + h * h, 0, 1}, S[6]; t.m->getS_UP(6, solidmech::defaultTensorComponents, c, 0, S); for (int k = 0; k < 3; k++) t.e->S[0][k] = S[PC[k]];
  double sc = symD("scale", -2, 2), F[3][3] = {{1, h, 0}, {0, 1, 0}, {0, 0, 1}}; MatSym<3> m; m.zero(); CK(t.e->getTensor(&m, tensorQuery::COUCHY, 0, sc), "Cauchy stress is answered"); const int id[3][3] = {{0, 1, 2}, {1, 3, 4}, {2, 4, 5}}; for (int r = 0; r < 3; r++) for (int q = r; q < 3; q++) { double v = 0; for (int k = 0; k < 3; k++) for (int l = 0; l < 3; l++) v += F[r][k] * S[id[k][l]] * F[q][l]; EQ(m.comp(r, q), sc * v, L2("Cauchy stress in simple shear", r, q)); } REACH("end"); }
HARNESS(solid_cauchy) { S8 t(false, 1); t.init(0); t.setP(0); double h = symD("shear", -2, 2), w = pickU("stretch", 1, 4) * 0.5; double F[3][3] = {{1, h, 0}, {0, w, 0}, {0, 0, 1}}; for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) setG(*t.e, 0, a, b, F[a][b] - (a == b)); for (int k = 0; k < 6; k++) { double v = 0; for (int a = 0; a < 3; a++) v += F[a][IS[k][0]] * F[a][IS[k][1]]; t.e->C[0][k] = v; } double S[6]; for (int k = 0; k < 6; k++) t.e->S[0][k] = S[k] = symD("S", -9, 9);
  double sc = symD("scale", -2, 2); MatSym<3> m; m.zero(); CK(t.e->getTensor(&m, tensorQuery::COUCHY, 0, sc), "Cauchy stress is answered"); const int id[3][3] = {{0, 1, 2}, {1, 3, 4}, {2, 4, 5}}; for (int r = 0; r < 3; r++) for (int q = r; q < 3; q++) { double v = 0; for (int k = 0; k < 3; k++) for (int l = 0; l < 3; l++) v += F[r][k] * S[id[k][l]] * F[q][l]; EQ(m.comp(r, q) * w, sc * v, L2("Cauchy stress in shear and stretch", r, q)); } REACH("end"); }
// energies: WU is the energy whose derivative is the stress (of the volume-preserving part), WP the pressure energy
HARNESS(energies) { S8 t(false, 1); t.m->a[0] = symD("a1", 0.5, 5); t.m->a[1] = symD("a2", 0.5, 5); t.m->k = symD("k", 0.5, 100); t.init(0); double c = symD("stretch", 0.5, 2); for (int k = 0; k < 6; k++) t.e->C[0][k] = k == 0 ? c * c : k == 3 ? c * c : k == 5 ? c * c : 0; double sc = symD("scale", -2, 2), v = 1, w = 1; uint16 g = pickB("mean") ? GP_MEAN : 0; CK(t.e->getScalar(&v, scalarQuery::WU, g, sc) & t.e->getScalar(&w, scalarQuery::WP, g, sc), "energies are answered"); NEAR(v, 1, 1e-7, "no deviatoric energy in a pure dilatation"); NEAR(w, 1 + sc * t.m->k / 2 * (c * c * c - 1) * (c * c * c - 1), 1e-6, "pressure energy"); double z = 2; CK(t.e->getScalar(&z, scalarQuery::VOL, g, sc), "volume"); NEAR(z, 2 + 8 * sc, 1e-7, "volume of the element"); REACH("end"); }
