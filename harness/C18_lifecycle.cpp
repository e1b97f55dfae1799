// @bounds storages with up to 3 nodes and 2 elements, 0..2 MPCs, 0..1 rigid body collections, 0..2 components, with or without a material; every order of the delete* calls from the harness menu; solving twice with different symbolic loads and supports; static, nonlinear and transient
// @outside a second solution with an MPC collection (RigidBodyMpc) in the model
#include "symx.h"
#include "testel.h"
#include "Node.h"
#include "FEComponent.h"
#include "materials/MaterialFactory.h"
using namespace tst;
static double D(const char* n) { return symD(n, -1e6, 1e6); }
static const Dof::dofType UX = Dof::UX;
static void build(FEStorage& s, int mpc, int rigid, int comp, bool mat) { s.createNodes(3); for (int i = 0; i < 2; i++) { TE* e = new TE; s.addElement(e); e->on(1 + i, 2 + i); e->fpre = [](TE& x) { for (int n = 0; n < 2; n++) x.getStorage().addNodeDof(x.getNodeNumber(n), {UX}); x.getStorage().addElementDof(x.getElNum(), {Dof::TEMP}); }; e->fK = [](TE& x) { Mat<2, 2> k; k[0][0] = 2; k[1][1] = 2; k[0][1] = -1; k[1][0] = -1; Eigen::MatrixXd m(2, 2); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) m(i, j) = k[i][j]; x.assembleK(m, {UX}); x.getStorage().addValueK(x.getStorage().getElementDofEqNumber(x.getElNum(), Dof::TEMP), x.getStorage().getElementDofEqNumber(x.getElNum(), Dof::TEMP), 1.0); }; e->fC = [](TE&) {}; e->fM = [](TE& x) { MatSym<2> m; m.comp(0, 0) = 2; m.comp(1, 1) = 2; m.comp(0, 1) = 1; x.assembleM(m, {UX}); }; }
  for (int i = 0; i < mpc; i++) { Mpc* m = new Mpc; m->b = 0.5; m->eqNum = 0; m->eq.push_back(MpcTerm(1 + i, UX, 1)); m->eq.push_back(MpcTerm(2 + i, UX, -1)); s.addMpc(m); } if (rigid) { RigidBodyMpc* r = new RigidBodyMpc; r->storage = &s; r->masterNode = 2; r->slaveNodes = {1, 3}; r->dofs = {UX}; s.addMpcCollection(r); }
  for (int i = 0; i < comp; i++) { FEComponent* c = new FEComponent; c->name = "a long enough component name"; c->list = {1, 2, 3}; s.addFEComponent(c); } if (mat) s.material = MaterialFactory::createMaterial("Biderman"); }
struct Big : PostProcessor { std::vector<double> v; int* d; Big(FEStorage* s, int* d_) : PostProcessor(s), v(100), d(d_) {} ~Big() { ++*d; } void pre() {} void process(uint16) { v.resize(1000); } void post(uint16) {} };
// every object is destroyed exactly once, nothing stays on the heap, nothing is touched after it was freed
static void life(int mpc, int rigid, int comp, bool mat, int how, int del) { int dead = 0; { FEStorage s; build(s, mpc, rigid, comp, mat); if (how == 3) s.setTransient(true); if (how) { Rec r; r.pick = [](Rec::Q& q) { for (int i = 0; i < q.n; i++) q.x[i] = 0; }; FESolver* f = how == 1 ? (FESolver*)new LinearFESolver : how == 2 ? (FESolver*)new NonlinearFESolver : (FESolver*)new LinearTransientFESolver; if (how == 2) ((NonlinearFESolver*)f)->numberOfLoadsteps = 1; if (how == 3) { ((LinearTransientFESolver*)f)->numberOfTimesteps = 2; ((LinearTransientFESolver*)f)->time1 = 1; } f->attachFEStorage(&s); f->attachEquationSolver(&r); f->addFix(1, UX, 0); f->addLoad(3, UX, 1); f->addPostProcessor(new Big(&s, &dead)); f->addPostProcessor(new Big(&s, &dead)); f->solve(); delete f; CK(dead == 2, "the solver destroys its post-processors"); }
    switch (del) { case 1: s.deleteMesh(); break; case 2: s.deleteSolutionData(); s.deleteMesh(); s.deleteMesh(); break; case 3: s.deleteMpcs(); s.deleteMpcCollections(); s.deleteFeComponents(); s.deleteElements(); s.deleteNodes(); break; case 4: s.deleteMesh(); s.deleteSolutionData(); build(s, mpc, rigid, 1, false); break; case 5: s.deleteMesh(); build(s, mpc, 0, 1, false); s.initDofs(); s.assignEquationNumbers(); s.initSolutionData(); CK(s.nDofs() == 5 && s.nUnknownDofs() == 5, "DoFs of the new mesh"); break; } if (del && del < 4) CK(s.nNodes() == 0 && s.nElements() == 0 && s.nMpc() == 0, "a deleted mesh is empty"); if (del >= 4) CK(s.nNodes() == 3 && s.nElements() == 2 && s.nMpc() == (uint32)mpc && s.getFEComponent((size_t)0)->name[0] == 'a', "a new mesh replaces a deleted one"); } }
HARNESS(teardown) { int mpc = pickU("mpc", 0, 2), rigid = pickU("rigid", 0, 1), comp = pickU("comp", 0, 2), how = pickU("how", 0, 3), del = pickU("del", 0, 5); bool mat = pickB("mat"); assume(THOROUGH | (rigid == 0) | (comp == 1)); for (int k = 0; k < 2; k++) life(mpc, rigid, comp, mat, how, del); unsigned long a = __sym_live(); life(mpc, rigid, comp, mat, how, del); unsigned long b = __sym_live(); CK(a == b, "destroying the model frees everything it allocated"); REACH("end"); }
// solving again on the same storage with other loads and supports gives what a fresh model gives
struct Out { double u[3], r; uint32 nc, nu; };
static void once(FEStorage& s, double p, double q, double load, bool second, Out& o, int how) { Rec r; LinearFESolver f; f.attachFEStorage(&s); f.attachEquationSolver(&r); std::vector<double> rhs; r.pick = [](Rec::Q& z) { for (int i = 0; i < z.n; i++) z.x[i] = z.b[i] / 2 + i; }; f.addFix(1, UX, p); if (second) f.addFix(2, UX, q); f.addLoad(3, UX, load); f.solve(); for (uint32 n = 0; n < 3; n++) o.u[n] = s.getNodeDofSolution(n + 1, UX); o.r = s.getReaction(1, UX); o.nc = s.nConstrainedDofs(); o.nu = s.nUnknownDofs(); }
HARNESS(solve_twice) { double p[2], q[2], l[2]; bool sec[2]; int m = pickU("mpc", 0, 1); for (int i = 0; i < 2; i++) { p[i] = symD("p", 1, 2); q[i] = symD("q", 1, 2); l[i] = D("l"); sec[i] = pickB("sec"); } Out x, y; unsigned long a = 0, b = 0; { FEStorage s; build(s, m, 0, 0, false); Out t; once(s, p[0], q[0], l[0], sec[0], t, 0); if (pickB("clear")) s.deleteSolutionData(); once(s, p[1], q[1], l[1], sec[1], x, 0); } { FEStorage s; build(s, m, 0, 0, false); once(s, p[1], q[1], l[1], sec[1], y, 0); } CK(x.nc == y.nc && x.nu == y.nu, "numbers of constrained and unknown DoFs"); for (int i = 0; i < 3; i++) EQ(x.u[i], y.u[i], "the second solution does not depend on the first"); EQ(x.r, y.r, "reaction of the second solution"); REACH("end"); }
HARNESS(solve_twice_memory) { int m = pickU("mpc", 0, 1); bool sec = pickB("sec"); Out t; auto run = [&](int n) { FEStorage s; build(s, m, 0, 0, false); for (int i = 0; i < n; i++) once(s, 1, 1, 1, sec, t, 0); }; run(2); run(2); unsigned long a = __sym_live(); run(1); unsigned long b = __sym_live(); run(3); unsigned long c = __sym_live(); CK(a == b, "one solution frees everything"); CK(b == c, "repeated solutions free everything"); REACH("end"); }
// solver administration
HARNESS(solver_data) { FEStorage s; LinearFESolver f; int d = 0; uint16 n = pickU("n", 0, 3); for (uint16 i = 0; i < n; i++) { Big* b = new Big(&s, &d); uint16 k = f.addPostProcessor(b); CK(k == i + 1 && b->getProc_num() == k && b->getnPost_num() == k, "post-processor numbers"); CK(&f.getPostProcessor(i) == b, "post-processor by index"); CK(!b->getActive(), "not active at first"); b->setActive(true); CK(b->getActive(), "activation"); b->setActive(false); CK(!b->getActive(), "deactivation"); b->failed = true; b->setActive(true); CK(!b->getActive(), "a failed post-processor cannot be activated"); } CK(f.getNumberOfPostProcessors() == n, "number of post-processors"); f.deletePostProcessors(); CK(f.getNumberOfPostProcessors() == 0 && d == n, "deleted post-processors"); REACH("end"); }
HARNESS(status) { FEStorage s; int d = 0; Big b(&s, &d); b.nPost_proc = 3; b.name = "Vtk"; b.failed = pickB("failed"); b.active = pickB("active"); std::string t = b.getStatus(); CK(t.find(b.active ? "Active - true" : "Active - false") != std::string::npos, "status tells whether the processor is active"); CK(t.find(b.failed ? "Failed - true" : "Failed - false") != std::string::npos, "status tells whether the processor failed"); CK(t.find("Vtk") != std::string::npos, "name"); REACH("end"); }
