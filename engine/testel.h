// Test elements for the storage and solver harnesses: the element matrices are free (symbolic) inputs.
#pragma once
#include "FEStorage.h"
#include "FESolver.h"
#include "elements/element.h"
#include <functional>
#include <vector>
namespace tst {
using namespace nla3d; using namespace nla3d::math;
static const Dof::dofType AllT[] = {Dof::UX, Dof::UY, Dof::UZ, Dof::ROTX, Dof::ROTY, Dof::ROTZ, Dof::HYDRO_PRESSURE, Dof::TEMP};
// a LINE element with callbacks
struct TE : ElementLINE {
  std::function<void(TE&)> fpre, fK, fC, fM, fup; int npre = 0, nK = 0, nC = 0, nM = 0, nup = 0;
  void pre() { npre++; if (fpre) fpre(*this); } void buildK() { nK++; if (fK) fK(*this); } void buildC() { nC++; if (fC) fC(*this); } void buildM() { nM++; if (fM) fM(*this); } void update() { nup++; if (fup) fup(*this); }
  TE& on(uint32 a, uint32 b) { nodes[0] = a; nodes[1] = b; return *this; }
};
// a VERTEX (one node) element with callbacks
struct TV : ElementVERTEX {
  std::function<void(TV&)> fpre, fK, fC, fM, fup; int npre = 0, nK = 0, nC = 0, nM = 0, nup = 0;
  void pre() { npre++; if (fpre) fpre(*this); } void buildK() { nK++; if (fK) fK(*this); } void buildC() { nC++; if (fC) fC(*this); } void buildM() { nM++; if (fM) fM(*this); } void update() { nup++; if (fup) fup(*this); }
  TV& on(uint32 a) { nodes[0] = a; return *this; }
};
// An equation solver that records what it is asked and answers with free values: whatever holds then holds for every solver that returns a solution.
struct Rec : EquationSolver {
  struct Q { int n; double A[16][16], b[16], x[16]; }; std::vector<Q> q; int nfact = 0; SparseSymMatrix* fm = nullptr; std::function<void(Q&)> pick;
  void factorizeEquations(SparseSymMatrix* m) { nfact++; fm = m; }
  void substituteEquations(SparseSymMatrix* m, double* rhs, double* x) { Q z; z.n = m->nRows(); for (int i = 0; i < z.n; i++) { for (int j = 0; j < z.n; j++) z.A[i][j] = m->value(i + 1, j + 1); z.b[i] = rhs[i]; } if (pick) pick(z); else for (int i = 0; i < z.n; i++) z.x[i] = symD("x", -9, 9); for (int i = 0; i < z.n; i++) x[i] = z.x[i]; q.push_back(z); }
  void solveEquations(SparseSymMatrix* m, double* rhs, double* x) { factorizeEquations(m); substituteEquations(m, rhs, x); }
  double res(int k, int i) { Q& z = q[k]; double e = -z.b[i]; for (int j = 0; j < z.n; j++) e += z.A[i][j] * z.x[j]; return e; }   // (A x - b)_i
};
struct PP : PostProcessor { std::vector<int>* log; std::function<void()> f; PP(FEStorage* s, std::vector<int>* l) : PostProcessor(s), log(l) {} void pre() { log->push_back(-1); } void process(uint16 c) { log->push_back(c); if (f) f(); } void post(uint16 c) { log->push_back(1000 + c); } };
}
