// Helpers for the element harnesses: a storage with one real element on scattered node numbers, and access to the assembled system by (node, DoF).
#pragma once
#include "testel.h"
#include "Node.h"
namespace tst {
template <class E, int NN> struct One {
  FEStorage s; E* e; uint32 nd[NN]; double X[NN][3]; uint32 nc = 0;
  One(bool transient = false) { if (transient) s.setTransient(true); s.createNodes(NN + 1); e = new E; s.addElement(e); for (int i = 0; i < NN; i++) { nd[i] = (i * 5 + 2) % (NN + 1) + 1; if (NN + 1 == 5) nd[i] = (i * 2 + 1) % 5 + 1; e->getNodeNumber(i) = nd[i]; for (int k = 0; k < 3; k++) X[i][k] = 0; } }
  void at(int i, double x, double y, double z) { X[i][0] = x; X[i][1] = y; X[i][2] = z; for (int k = 0; k < 3; k++) s.getNode(nd[i]).pos[k] = X[i][k]; }
  // fix = bit mask of element nodes whose DoF t is constrained
  void init(uint32 fix = 0, Dof::dofType t = Dof::UX) { s.initDofs(); for (int i = 0; i < NN; i++) if (fix >> i & 1) s.setConstrainedNodeDof(nd[i], t); s.assignEquationNumbers(); s.initSolutionData(); nc = s.nConstrainedDofs(); }
  void assemble() { s.assembleGlobalEqMatrices(); }
  uint32 eq(int i, Dof::dofType t) { return s.getNodeDofEqNumber(nd[i], t); }
  double at(BlockSparseSymMatrix<2>* m, uint32 i, uint32 j) { if (i > j) std::swap(i, j); if (j <= nc) return m->block(1)->value(i, j); if (i > nc) return m->block(2)->value(i - nc, j - nc); return m->block(1, 2)->value(i, j - nc); }
  double K(int i, Dof::dofType a, int j, Dof::dofType b) { return at(s.getK(), eq(i, a), eq(j, b)); }
  double C(int i, Dof::dofType a, int j, Dof::dofType b) { return at(s.getC(), eq(i, a), eq(j, b)); }
  double M(int i, Dof::dofType a, int j, Dof::dofType b) { return at(s.getM(), eq(i, a), eq(j, b)); }
  double F(int i, Dof::dofType a) { return (*s.getF())[eq(i, a) - 1]; }
  void setU(int i, Dof::dofType a, double v) { (*s.getU())[eq(i, a) - 1] = v; }
  double Kff(uint32 i, uint32 j) { return at(s.getK(), i, j); }
};
static const Dof::dofType UXYZ[3] = {Dof::UX, Dof::UY, Dof::UZ};
}
