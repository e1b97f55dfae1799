// @bounds every symmetric C with diagonal in [0.3,4] and off-diagonal in [-1,1] (all six independent), every pressure and material constant in the ranges of the harness, three materials, component lists XX XY XZ YY YZ ZZ, XX YY XY and one permuted
// @outside rounding of double arithmetic (agreement is required to 1e-9); strains beyond the ranges
// @assume C is positive definite, minors above 0.05
// @symopts --snap
// @outside constants such as 1.0/3.0 are read as the fractions they round
// @budget 300
#include "symx.h"
#include "materials/MaterialFactory.h"
#include "materials/materials_hyperelastic.h"
using namespace nla3d; using namespace nla3d::solidmech;
// hyper-dual numbers: value, two first derivatives, mixed second derivative
struct HD { double v, a, b, ab; HD(double v_ = 0, double a_ = 0, double b_ = 0, double c_ = 0) : v(v_), a(a_), b(b_), ab(c_) {} };
static HD operator+(const HD& x, const HD& y) { return HD(x.v + y.v, x.a + y.a, x.b + y.b, x.ab + y.ab); }
static HD operator-(const HD& x, const HD& y) { return HD(x.v - y.v, x.a - y.a, x.b - y.b, x.ab - y.ab); }
static HD operator*(const HD& x, const HD& y) { return HD(x.v * y.v, x.a * y.v + x.v * y.a, x.b * y.v + x.v * y.b, x.ab * y.v + x.a * y.b + x.b * y.a + x.v * y.ab); }
static HD fn(const HD& x, double f, double f1, double f2) { return HD(f, f1 * x.a, f1 * x.b, f1 * x.ab + f2 * x.a * x.b); }
static const int ix[3][3] = {{0, 1, 2}, {1, 3, 4}, {2, 4, 5}}; static const int row[6] = {0, 0, 0, 1, 1, 2}, col[6] = {0, 1, 2, 1, 2, 2};
struct Par { double c10, c20, c30, c01, K; };
// energy of the modified invariants plus pressure times J
static HD energy(const double* C, int p, int q, const Par& m, double press) { HD c[6]; for (int i = 0; i < 6; i++) c[i] = HD(C[i], i == p ? (row[i] == col[i] ? 1 : 0.5) : 0, i == q ? (row[i] == col[i] ? 1 : 0.5) : 0);
  HD d = c[0] * (c[3] * c[5] - c[4] * c[4]) - c[1] * (c[1] * c[5] - c[4] * c[2]) + c[2] * (c[1] * c[4] - c[3] * c[2]); double J0 = std::sqrt(d.v), J2 = J0 * J0; HD J = fn(d, J0, 0.5 / J0, -0.25 / (J0 * J2)); double r = std::cbrt(J0), r2 = r * r, r5 = r2 * J0, r8 = r5 * J0; HD pp = fn(J, 1 / r2, -2.0 / 3 / r5, 10.0 / 9 / r8);
  HD I1 = (c[0] + c[3] + c[5]) * pp, I2 = (c[0] * c[3] + c[3] * c[5] + c[0] * c[5] - c[1] * c[1] - c[2] * c[2] - c[4] * c[4]) * pp * pp, x = I1 - HD(3); return HD(m.c10) * x + HD(m.c20) * x * x + HD(m.c30) * x * x * x + HD(m.c01) * (I2 - HD(3)) + HD(press) * J; }
static Mat_Hyper_Isotrop_General* make(int kind, Par& m, bool full) { const char* nm[3] = {"Neo-Hookean", "Biderman", "Mooney-Rivlin"}; Material* b = kind == 2 ? new Mat_Comp_MooneyRivlin : MaterialFactory::createMaterial(nm[kind]); CK(b != nullptr, "the factory knows the material"); auto* h = dynamic_cast<Mat_Hyper_Isotrop_General*>(b); CK(h != nullptr, "hyperelastic"); m = Par{0, 0, 0, 0, symD("K", 1, 100)}; double x = symD("c", 0.5, 3);
  if (kind == 0) { m.c10 = x / 2; h->Ci("G") = x; h->Ci("K") = m.K; } else { m.c10 = x; h->Ci("C10") = x; h->Ci("K") = m.K; m.c01 = symD("c01", -1, 1); h->Ci("C01") = m.c01; if (kind == 1) { m.c20 = symD("c20", -1, 1); m.c30 = full ? symD("c30", -1, 1) : 0.25; h->Ci("C20") = m.c20; h->Ci("C30") = m.c30; } } EQ(h->getK(), m.K, "bulk modulus"); return h; }
static void symc(double* C) { for (int i = 0; i < 6; i++) C[i] = row[i] == col[i] ? symD("C", 0.3, 4) : symD("C", -1, 1); assume((C[0] * C[3] - C[1] * C[1] > 0.05) & (C[0] * (C[3] * C[5] - C[4] * C[4]) - C[1] * (C[1] * C[5] - C[4] * C[2]) + C[2] * (C[1] * C[4] - C[3] * C[2]) > 0.05)); }
static const tensorComponents lists[3][6] = {{M_XX, M_XY, M_XZ, M_YY, M_YZ, M_ZZ}, {M_XX, M_YY, M_XY, M_XX, M_XX, M_XX}, {M_ZZ, M_YZ, M_YY, M_XZ, M_XY, M_XX}}; static const int len[3] = {6, 3, 6};
HARNESS(energy_function) { Par m; auto* h = make(pickU("mat", 0, 2), m, true); double i1 = symD("I1", 2, 5), i2 = symD("I2", 2, 5), x = i1 - 3, a[5]; EQ(h->W(i1, i2, 1), m.c10 * x + m.c20 * x * x + m.c30 * x * x * x + m.c01 * (i2 - 3), "strain energy"); h->W_first_derivatives(i1, i2, 1, a); double w1 = m.c10 + 2 * m.c20 * x + 3 * m.c30 * x * x, w11 = 2 * m.c20 + 6 * m.c30 * x; EQ(a[0], w1, "dW/dI1"); EQ(a[1], m.c01, "dW/dI2"); double d[5]; h->W_second_derivatives(i1, i2, 1, d); EQ(d[0], w1, "dW/dI1"); EQ(d[1], m.c01, "dW/dI2"); EQ(d[2], w11, "d2W/dI1dI1"); EQ(d[3], 0, "d2W/dI1dI2"); EQ(d[4], 0, "d2W/dI2dI2"); REACH("end"); }
static void stress(int kind) { Par m; auto* h = make(kind, m, true); double C[6], S[6], p = symD("p", -3, 3); symc(C); uint32 l = pickU("list", 0, 2); h->getS_UP(len[l], lists[l], C, p, S); for (int i = 0; i < len[l]; i++) { HD w = energy(C, lists[l][i], lists[l][i], m, p); NEAR(S[i], 2 * w.a, 1e-9, L2("stress is twice the derivative of the energy", l, i)); } REACH("end"); }
HARNESS(stress_neo_hookean) { stress(0); } HARNESS(stress_biderman) { stress(1); } HARNESS(stress_mooney_rivlin) { stress(2); }
static void tangent(int kind) { Par m; auto* h = make(kind, m, true); double C[6], D[21], P[6], p = symD("p", -3, 3); symc(C); uint32 l = pickU("list", 0, 2); h->getDdDp_UP(len[l], lists[l], C, p, D, P); int k = 0; for (int i = 0; i < len[l]; i++) { HD w = energy(C, lists[l][i], lists[l][i], Par{0, 0, 0, 0, 0}, 1); NEAR(P[i], 2 * w.a, 1e-9, L2("pressure part of the stress", l, i)); for (int j = i; j < len[l]; j++, k++) { HD w = energy(C, lists[l][i], lists[l][j], m, p); NEAR(D[k], 2 * w.ab, 1e-8, L2("tangent is the derivative of the stress", l, i, j)); } } REACH("end"); }
HARNESS(tangent_neo_hookean) { tangent(0); } HARNESS(tangent_mooney_rivlin) { tangent(2); } HARNESS(tangent_biderman) { tangent(1); }
// kinematics
HARNESS(kinematics) { double C[6], V[6], I3[3], E[6] = {}; symc(C); IC_C(C, I3); double d = C[0] * (C[3] * C[5] - C[4] * C[4]) - C[1] * (C[1] * C[5] - C[4] * C[2]) + C[2] * (C[1] * C[4] - C[3] * C[2]); double J = J_C(C); CK(J > 0, "J is positive"); EQ(J * J, d, "J squared is det C"); EQ(I3[2], J, "third invariant is J"); EQ(I3[0], C[0] + C[3] + C[5], "first invariant"); EQ(2 * I3[1], (C[0] + C[3] + C[5]) * (C[0] + C[3] + C[5]) - (C[0] * C[0] + C[3] * C[3] + C[5] * C[5] + 2 * (C[1] * C[1] + C[2] * C[2] + C[4] * C[4])), "second invariant"); invC_C(C, J, V); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { double z = 0; for (int k = 0; k < 3; k++) z += C[ix[i][k]] * V[ix[k][j]]; EQ(z, i == j, L2("inverse", i, j)); } E_C(C, E); for (int i = 0; i < 6; i++) EQ(2 * E[i], C[i] - (row[i] == col[i]), L2("Green strain", i)); REACH("end"); }
// displacement-only formulation is declared but not available: it must not return silently
HARNESS(not_available) { Par m; auto* h = make(0, m, false); double C[6], S[6], D[21]; symc(C); __sym_expect_fatal(1); if (pickB("which")) h->getS_U(6, defaultTensorComponents, C, S); else h->getD_U(6, defaultTensorComponents, C, D); CK(false, "unavailable formulation must stop"); }
