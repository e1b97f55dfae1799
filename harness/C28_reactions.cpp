// @bounds three nodes with any subset of them observed (also in reverse order); one or two DoF types per node, any subset constrained; given lists of DoF types or automatic choice; 0..3 recorded steps with any reaction values, with and without a result file; a model of 65600 nodes of which picked ones or all are observed; a linear solve with any matrix and any loads
// @outside loads applied to constrained DoFs; models without a free DoF; more nodes or DoF types (the processor loops over the lists given to it); a result file that becomes writable during a run
// @assume observed node numbers belong to the model
#include "symx.h"
#include "testel.h"
#include "ReactionProcessor.h"
#include <sstream>
using namespace tst;
static const Dof::dofType T[3] = {Dof::UX, Dof::TEMP, Dof::UZ};
// nodes 1 and 2 have UX and TEMP, node 3 has UX only (or all of them when full)
struct Mdl { FEStorage s; bool full; uint32 con = 0; Mdl(bool f) : full(f) { s.createNodes(3); TE* e = new TE; TV* v = new TV; bool g = full; s.addElement(e); s.addElement(v); e->on(1, 2); v->on(3); e->fpre = [](TE& e) { for (int i = 0; i < 2; i++) e.getStorage().addNodeDof(e.getNodeNumber(i), {Dof::UX, Dof::TEMP}); }; v->fpre = [g](TV& e) { if (g) e.getStorage().addNodeDof(3, {Dof::UX, Dof::TEMP}); else e.getStorage().addNodeDof(3, {Dof::UX}); }; s.initDofs(); }
  bool used(uint32 n, int t) { return t == 0 || (t == 1 && (n < 3 || full)); } bool fixed(uint32 n, int t) { return con >> ((n - 1) * 2 + t) & 1; }
  void constrain(uint32 mask) { for (uint32 n = 1; n <= 3; n++) for (int t = 0; t < 2; t++) if (used(n, t) && (mask >> ((n - 1) * 2 + t) & 1)) { con |= 1u << ((n - 1) * 2 + t); s.setConstrainedNodeDof(n, T[t]); } assume(s.nConstrainedDofs() < s.nDofs()); s.assignEquationNumbers(); s.initSolutionData(); } };
static void observe(ReactionProcessor& p, std::vector<uint32>& nd, uint32 mask) { for (int k = 0; k < 3; k++) { uint32 n = mask & 8 ? 3 - k : k + 1; if (mask >> (n - 1) & 1) nd.push_back(n); } p.nodes = nd; }
static void record(Mdl& m, ReactionProcessor& p, std::vector<uint32>& nd, std::vector<Dof::dofType> dl, bool file) { int steps = pickU("steps", 0, 2); std::vector<std::vector<double>> want(dl.size(), std::vector<double>(1, 0.)); CK(p.dofs == dl, "observed types");
  for (int k = 0; k < steps; k++) { for (uint32 i = 0; i < m.s.nDofs(); i++) (*m.s.getR())[i] = symD("r", -9, 9); p.process(k + 1); p.post(k + 1); for (size_t d = 0; d < dl.size(); d++) { double v = 0; for (uint32 n : nd) if (m.s.isNodeDofUsed(n, dl[d])) v += (*m.s.getR())[m.s.getNodeDofEqNumber(n, dl[d]) - 1]; want[d].push_back(v); } }
  for (size_t d = 0; d < dl.size(); d++) { auto r = p.getReactions(dl[d]); CK(r.size() == (size_t)steps + 1, "one value per step after the initial one"); for (size_t k = 0; k < r.size() && k < want[d].size(); k++) EQ(r[k], want[d][k], "sum of the reactions over the nodes"); } CK(p.getReactions(Dof::ROTZ).empty(), "no results for a type that is not observed");
  if (file) { bool ok = false; std::string txt = symRead("r.txt", &ok); CK(ok, "result file exists"); std::stringstream in(txt); std::string w; for (size_t d = 0; d < dl.size(); d++) { in >> w; CK(w == Dof::dofTypeLabels[dl[d]], "column title"); } for (int k = 0; k <= steps; k++) { int no = -1; in >> no; CK(no == k, "number of the step"); for (size_t d = 0; d < dl.size(); d++) { double v = 77; in >> v; NEAR(v, want[d][k], 1e-3, "value in the file"); } } double x; in >> x; CK(!in, "nothing else is written"); } }
HARNESS(given_types) { Mdl m(pickB("full")); bool file = pickB("file"); m.constrain(pickU("constrained", 0, 3) * 21); ReactionProcessor p(&m.s), q(&m.s, "r.txt"); ReactionProcessor& r = file ? q : p; std::vector<uint32> nd; observe(r, nd, pickU("nodes", 1, 7) | (pickB("reverse") ? 8 : 0)); std::vector<Dof::dofType> dl; int c = pickU("types", 1, 4); if (c & 1) dl.push_back(Dof::TEMP); if (c > 1) dl.push_back(Dof::UX); if (c == 4) dl.push_back(Dof::UZ); r.dofs = dl; r.pre(); record(m, r, nd, dl, file); r.pre(); for (auto t : dl) CK(r.getReactions(t).size() == 1, "another run starts from one initial value"); REACH("end"); }
HARNESS(chosen_types) { Mdl m(pickB("full")); m.constrain(pickU("constrained", 0, 63)); ReactionProcessor p(&m.s); std::vector<uint32> nd; observe(p, nd, pickU("nodes", 1, 7) | (pickB("reverse") ? 8 : 0)); std::vector<Dof::dofType> dl; bool bad = false; for (int t = 0; t < 2; t++) if (m.used(nd[0], t) && m.fixed(nd[0], t)) { dl.push_back(T[t]); for (uint32 n : nd) bad |= !m.used(n, t) || !m.fixed(n, t); } std::sort(dl.begin(), dl.end()); if (bad) __sym_expect_fatal(1); p.pre(); CK(!bad, "nodes with different constraints are refused"); record(m, p, nd, dl, false); REACH("end"); }
HARNESS(no_nodes) { Mdl m(true); m.constrain(5); ReactionProcessor p(&m.s); bool given = pickB("types"); if (given) p.dofs.push_back(Dof::UX); p.pre(); for (int k = 1; k <= 2; k++) p.process(k); if (given) { auto r = p.getReactions(Dof::UX); CK(r.size() == 3 && r[0] == 0 && r[2] == 0, "no nodes, no reaction"); } else CK(p.getReactions(Dof::UX).empty(), "no nodes, no results"); REACH("end"); }
HARNESS(unwritable) { Mdl m(true); m.constrain(21); ReactionProcessor p(&m.s, "no/such/dir/r.txt"); p.nodes = {1, 2}; p.dofs = {Dof::UX}; p.pre(); p.process(1); auto r = p.getReactions(Dof::UX); CK(r.size() >= 1 && r[0] == 0, "results can be asked for"); REACH("end"); }
// in a linear analysis the processor reports the internal forces at the supports: K_cc u_c + K_cs u_s
HARNESS(linear_solve) { FEStorage s; s.createNodes(2); TE* e = new TE; s.addElement(e); e->on(1, 2); e->fpre = [](TE& e) { for (int i = 0; i < 2; i++) e.getStorage().addNodeDof(e.getNodeNumber(i), {Dof::UX, Dof::TEMP}); }; double K[4][4]; for (int i = 0; i < 4; i++) for (int j = i; j < 4; j++) K[i][j] = K[j][i] = symD("k", -9, 9); e->fK = [&](TE& t) { Eigen::MatrixXd m(4, 4); for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) m(i, j) = K[i][j]; t.assembleK(m, {Dof::UX, Dof::TEMP}); };
  LinearFESolver sol; sol.attachFEStorage(&s); Rec eq; sol.attachEquationSolver(&eq); double g = symD("given", -2, 2), f = symD("load", -9, 9); assume((g > 1e-6) | (g < -1e-6)); sol.addFix(1, Dof::UX, g); sol.addFix(2, Dof::UX, 0); sol.addLoad(2, Dof::TEMP, f); ReactionProcessor* p = new ReactionProcessor(&s); p->nodes = {1, 2}; sol.addPostProcessor(p); sol.solve(); CK(p->dofs.size() == 1 && p->dofs[0] == Dof::UX, "constrained type is chosen"); auto r = p->getReactions(Dof::UX); CK(r.size() == 2, "initial and solved step"); double u[4] = {g, s.getNodeDofSolution(1, Dof::TEMP), 0, s.getNodeDofSolution(2, Dof::TEMP)}, want = 0; for (int i = 0; i < 4; i += 2) for (int j = 0; j < 4; j++) want += K[i][j] * u[j]; EQ(r[1], want, "supports carry the internal forces"); REACH("end"); }
// node numbers and numbers of observed nodes are not cut to 16 bits
HARNESS(many_nodes) { const uint32 NB = 65600; static const uint32 AT[5] = {1, 256, 65535, 65536, 65600}; FEStorage s; s.createNodes(NB); TE* e = new TE; s.addElement(e); e->on(1, NB); e->fpre = [](TE& x) { for (int t = 4; t >= 0; t--) x.getStorage().addNodeDof(AT[t], {Dof::UX, Dof::TEMP}); }; s.initDofs(); for (int t = 0; t < 5; t++) s.setConstrainedNodeDof(AT[t], Dof::UX); s.assignEquationNumbers(); s.initSolutionData(); double w[5], sum = 0; for (int t = 0; t < 5; t++) sum += (*s.getR())[s.getNodeDofEqNumber(AT[t], Dof::UX) - 1] = w[t] = symD("r", -9, 9); ReactionProcessor p(&s), q(&s); uint32 k = pickU("at", 0, 4), l = pickU("at2", 0, 4); p.nodes = {AT[k]}; if (l != k) p.nodes.push_back(AT[l]); p.pre(); p.process(1); auto r = p.getReactions(Dof::UX); CK(r.size() == 2, "one value per step"); EQ(r[1], l == k ? w[k] : w[k] + w[l], "reaction of nodes beyond 65535"); for (uint32 n = 1; n <= NB; n++) q.nodes.push_back(n); q.dofs = {Dof::UX}; q.pre(); q.process(1); r = q.getReactions(Dof::UX); CK(r.size() == 2, "one value per step"); EQ(r[1], sum, "reaction of all 65600 nodes"); REACH("end"); }
