// @bounds sparse matrices up to 3x3 with any pattern and values; blocks of a solved model; constraint equations of 0..3 terms with any coefficients and right-hand side; rigid bodies with one or two slaves; degree-of-freedom tables of up to three nodes and two elements with any use and supports; elements of 1..8 nodes with any node numbers; fixed-size and dynamic dense matrices up to 3x3; components of 0..3 entries; numbers to text for every 32-bit integer written in up to 6 digits
// @outside the digits of symbolic numbers (a printed symbolic value is read back as the same value; digits are checked on concrete numbers); text of the log that is not produced by a print procedure; column widths
#include "symx.h"
#include "testel.h"
#include "FEComponent.h"
#include "math/SparseMatrix.h"
#include "materials/MaterialFactory.h"
#include <set>
#include <sstream>
using namespace tst; using namespace nla3d::math;
struct Rd { std::stringstream in; Rd(const std::string& t) : in(t) {} std::string w() { std::string s; in >> s; return s; } void word(const std::string& e, const char* l) { CK(w() == e, l); } void num(double e, const char* l) { double v = 99; in >> v; NEAR(v, e, 1e-4, l); } void cnt(long e, const char* l) { long v = -99; in >> v; CK(v == e, l); } bool line() { int c = in.get(); while (c == ' ' || c == '\t') c = in.get(); return c == '\n'; } bool end() { return w().empty(); } };
// a file of brackets and commas is read more easily without them
static std::string strip(std::string s, const char* what) { for (auto& c : s) for (const char* p = what; *p; p++) if (c == *p) c = ' '; return s; }
HARNESS(sparse) { uint32 nr = pickU("rows", 1, 2), nc = pickU("columns", 1, 3); SparseMatrix A(nr, nc, 3); double v[2][3] = {{0}}; bool in[2][3] = {{false}}; uint32 n = 0; for (uint32 i = 0; i < nr; i++) for (uint32 j = 0; j < nc; j++) if ((in[i][j] = pickB("entry"))) { A.addEntry(i + 1, j + 1); n++; } A.compress(); for (uint32 i = 0; i < nr; i++) for (uint32 j = 0; j < nc; j++) if (in[i][j]) A.addValue(i + 1, j + 1, v[i][j] = symD("v", -9, 9));
  std::stringstream ss; A.print(ss); Rd r(strip(ss.str(), "[]")); for (uint32 i = 0; i < nr; i++) { for (uint32 j = 0; j < nc; j++) r.num(v[i][j], "printed value of a position"); CK(r.line(), "one line for a row"); } CK(r.end(), "nothing else is printed");
  std::stringstream st; A.printInternalData(st); Rd q(strip(st.str(), "={}")); q.word("values", "values"); for (uint32 i = 0; i < nr; i++) for (uint32 j = 0; j < nc; j++) if (in[i][j]) q.num(v[i][j], "stored values by rows"); q.word("columns", "columns"); for (uint32 i = 0; i < nr; i++) for (uint32 j = 0; j < nc; j++) if (in[i][j]) q.cnt(j + 1, "columns of the stored values"); q.word("iofeir", "row starts"); uint32 at = 1; q.cnt(1, "first row start"); for (uint32 i = 0; i < nr; i++) { for (uint32 j = 0; j < nc; j++) at += in[i][j]; q.cnt(at, "row start"); } CK(q.end(), "nothing else is printed"); REACH("end"); }
HARNESS(symmetric) { SparseSymMatrix A(3, 3); double v[3][3] = {{0}}; bool in[3][3] = {{false}}; for (int i = 0; i < 3; i++) for (int j = i; j < 3; j++) if ((in[i][j] = pickB("entry"))) A.addEntry(j + 1, i + 1); A.compress(); for (int i = 0; i < 3; i++) for (int j = i; j < 3; j++) if (in[i][j]) A.addValue(i + 1, j + 1, v[i][j] = v[j][i] = symD("v", -9, 9));
  std::stringstream ss; A.print(ss); Rd r(ss.str()); for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) r.num(v[i][j], "printed value of a position, both triangles"); CK(r.line(), "one line for a row"); } CK(r.end(), "nothing else is printed"); REACH("end"); }
static const Dof::dofType T[4] = {Dof::UX, Dof::ROTY, Dof::TEMP, Dof::HYDRO_PRESSURE};
static void equation(Rd& r, Mpc& m) { bool first = true; for (auto& t : m.eq) { if (!first) r.word("+", "terms are added"); first = false; r.num(t.coef, "coefficient of a term"); r.word("*", "coefficient times unknown"); r.word(std::to_string(t.node) + ":" + Dof::dofType2label(t.node_dof), "unknown of a term"); } r.word("=", "equation"); r.num(m.b, "right-hand side"); }
HARNESS(constraint) { Mpc m; m.b = symD("b", -9, 9); int n = pickU("terms", 0, 3); for (int i = 0; i < n; i++) m.eq.push_back(MpcTerm(pickU("node", 1, 2) * 7, T[pickU("dof", 0, 3)], symD("coef", -9, 9))); std::stringstream ss; m.print(ss); Rd r(ss.str()); equation(r, m); CK(r.end(), "nothing else is printed"); REACH("end"); }
struct D1 : ElementLINE { bool el; uint32 m; D1(bool e, uint32 mm) : el(e), m(mm) {} void pre() { for (int i = 0; i < 2; i++) { if (m >> (2 * i) & 1) storage->addNodeDof(getNodeNumber(i), {Dof::UX}); if (m >> (2 * i + 1) & 1) storage->addNodeDof(getNodeNumber(i), {Dof::TEMP}); } if (el) storage->addElementDof(getElNum(), {Dof::HYDRO_PRESSURE}); } void buildK() {} void update() {} };
HARNESS(rigid_body) { FEStorage s; auto* a = new D1(false, 1); s.addElement(a); s.createNodes(3); a->getNodeNumber(0) = 3; a->getNodeNumber(1) = 1; auto* rb = new RigidBodyMpc; rb->storage = &s; rb->masterNode = 2; rb->slaveNodes.push_back(3); if (pickB("two")) rb->slaveNodes.push_back(1); rb->dofs.push_back(Dof::UY); if (pickB("second dof")) rb->dofs.push_back(Dof::UX); s.addMpcCollection(rb); s.initDofs(); std::stringstream ss; rb->printEquations(ss); Rd r(ss.str()); CK(rb->collection.size() == rb->slaveNodes.size() * rb->dofs.size(), "one equation for a slave and a DoF"); for (auto* m : rb->collection) { m->b = symD("b", -9, 9); for (auto& t : m->eq) t.coef = symD("coef", -9, 9); } std::stringstream st; rb->printEquations(st); Rd q(st.str()); for (auto* m : rb->collection) { equation(q, *m); CK(q.line(), "one line for an equation"); } CK(q.end(), "nothing else is printed"); REACH("end"); }
// the order of the DoFs of an entity is free
HARNESS(dof_table) { FEStorage s; uint32 m = pickU("node dofs", 1, 15); bool e1 = pickB("element dof 1"), e2 = pickB("element dof 2"); auto* a = new D1(e1, m); auto* b = new D1(e2, 1); s.addElement(a); s.addElement(b); s.createNodes(3); a->getNodeNumber(0) = 3; a->getNodeNumber(1) = 1; b->getNodeNumber(0) = 2; b->getNodeNumber(1) = 3; s.initDofs(); int sup = pickU("support", 0, 2); if (sup == 1) s.setConstrainedNodeDof(2, Dof::UX); if (sup == 2) { assume(e2); s.setConstrainedElementDof(2, Dof::HYDRO_PRESSURE); } s.assignEquationNumbers();
  std::multiset<std::string> want, got; auto row = [&](const std::string& who, uint32 eq, bool c) { want.insert(who + " eq = " + std::to_string(eq) + " constrained = " + (c ? "1" : "0")); };
  for (uint32 e = 1; e <= 2; e++) if (s.isElementDofUsed(e, Dof::HYDRO_PRESSURE)) row("E" + std::to_string(e) + ":HYDRO_PRESSURE", s.getElementDofEqNumber(e, Dof::HYDRO_PRESSURE), sup == 2 && e == 2);
  for (uint32 n = 1; n <= 3; n++) for (Dof::dofType k : {Dof::UX, Dof::TEMP}) if (s.isNodeDofUsed(n, k)) row("N" + std::to_string(n) + ":" + Dof::dofType2label(k), s.getNodeDofEqNumber(n, k), sup == 1 && n == 2 && k == Dof::UX);
  std::stringstream ss; s.printDofInfo(ss); std::string l; bool nodes = false; while (std::getline(ss, l)) { got.insert(l); CK(!l.empty() && !(nodes && l[0] == 'E'), "elements first, then nodes"); nodes = l[0] == 'N'; } CK(got == want, "every DoF once with its equation number and whether it is supported"); CK(got.size() == s.nDofs(), "every DoF once"); REACH("end"); }
HARNESS(element) { struct A : ElementVERTEX { void pre() {} void buildK() {} void update() {} }; struct B : ElementHEXAHEDRON { void pre() {} void buildK() {} void update() {} }; FEStorage s; s.createNodes(9); bool hex = pickB("hexahedron"); Element* e = hex ? (Element*)new B : (Element*)new A; auto* f = new A; if (pickB("second")) { s.addElement(f); s.addElement(e); } else { s.addElement(e); s.addElement(f); } for (int i = 0; i < e->getNNodes(); i++) e->getNodeNumber(i) = hex ? 9 - i : 4; f->getNodeNumber(0) = 1; std::stringstream ss; e->print(ss); Rd r(strip(ss.str(), ":")); r.word("E", "element"); r.cnt(e->getElNum(), "number of the element"); for (int i = 0; i < e->getNNodes(); i++) r.cnt(e->getNodeNumber(i), "node of the element"); CK(r.end(), "nothing else is printed"); REACH("end"); }
HARNESS(dense) { Mat<2, 3> m; MatSym<2> s; double a[2][3]; uint32 nr = pickU("rows", 1, 3), nc = pickU("columns", 1, 3); for (int i = 0; i < 2; i++) for (int j = 0; j < 3; j++) m[i][j] = a[i][j] = symD("a", -9, 9); std::stringstream ss; ss << m[1] << "\n" << m; Rd r(strip(ss.str(), "[]")); for (int j = 0; j < 3; j++) r.num(a[1][j], "vector text"); for (int i = 0; i < 2; i++) for (int j = 0; j < 3; j++) r.num(a[i][j], "matrix text"); CK(r.end(), "nothing else is printed");
  Rd q(strip(m.toString() + " " + m[0].toString(), "[],")); for (int i = 0; i < 2; i++) for (int j = 0; j < 3; j++) q.num(a[i][j], "matrix as a string"); for (int j = 0; j < 3; j++) q.num(a[0][j], "vector as a string"); CK(q.end(), "nothing else in the string");
  dMat d(nr, nc); for (uint32 i = 0; i < nr; i++) for (uint32 j = 0; j < nc; j++) d[i][j] = symD("d", -9, 9); std::stringstream st; std::ostream& back = st << d; CK(&back == &st, "returns the stream"); Rd t(strip(st.str(), "[]")); for (uint32 i = 0; i < nr; i++) { for (uint32 j = 0; j < nc; j++) { double v = 99; t.in >> v; NEAR(v, d[i][j], 1e-4, "dynamic matrix text in the given stream"); } CK(t.line(), "one line for a row"); } CK(t.end(), "nothing else is printed"); REACH("end"); }
HARNESS(node) { Node n; double x[3]; for (int k = 0; k < 3; k++) n.pos[k] = x[k] = symD("x", -9, 9); Rd r(n.toString()); for (int k = 0; k < 3; k++) r.num(x[k], "coordinate"); CK(r.end(), "nothing else"); REACH("end"); }
HARNESS(node_digits) { static const double V[6] = {0, -1234567.125, 1e25, -0.5, 3e40, -2.5e200}; Node n; for (int k = 0; k < 3; k++) n.pos[k] = V[pickU("value", 0, 5)]; std::string t = n.toString(); const char* p = t.c_str(); for (int k = 0; k < 3; k++) { char* e = nullptr; double v = strtod(p, &e); CK(e != p && v == n.pos[k], "coordinates far from zero are printed completely"); p = e; } CK(!*p, "nothing else"); REACH("end"); }
HARNESS(component) { FEComponent c; c.name = pickB("name") ? "TOP" : "A_1"; c.type = pickB("nodes") ? FEComponent::NODES : FEComponent::ELEMENTS; int n = pickU("entries", 0, 3); for (int i = 0; i < n; i++) c.list.push_back(10 + i); std::stringstream ss; ss << c; Rd r(strip(ss.str(), ":")); r.word(c.name, "name"); r.cnt(n, "number of entries"); r.word(c.type == FEComponent::NODES ? "NODE" : "ELEM", "kind"); CK(r.end(), "nothing else"); CK(FEComponent::typeFromString(c.type == FEComponent::NODES ? "NODE" : "ELEM") == c.type, "the printed kind names the kind"); CK(FEComponent::typeFromString("NOD") == FEComponent::NOT_DEFINED && FEComponent::typeFromString("LAST") == FEComponent::NOT_DEFINED, "other words name no kind"); REACH("end"); }
HARNESS(material) { Material* m = MaterialFactory::createMaterial("Mooney-Rivlin"); CK(m != nullptr, "material"); double c[8]; for (int i = 0; i < m->getNumC(); i++) m->Ci(i) = c[i] = symD("c", -9, 9); Rd r(m->toString()); r.word(m->getName(), "name"); for (int i = 0; i < m->getNumC(); i++) { std::string w = r.w(); m->Ci(w) = m->Ci(w) + 1; EQ(m->Ci(i), c[i] + 1, "printed name is the name of the constant"); r.word("=", "name and value"); r.num(c[i], "value of the constant"); } CK(r.end(), "nothing else"); delete m; REACH("end"); }
HARNESS(numbers) { int v = (int)pickU("n", 0, 400) * 2483 - 500000; CK(toStr(v) == std::to_string(v), "integer text"); CK(toStr((uint32)4294967295u) == "4294967295", "largest number"); double d = symD("d", -9, 9); Rd r(toStr(d)); r.num(d, "real text"); CK(r.end(), "one number"); CK(toStr(0.1) == "0.1" && toStr(-2.5e-9) == "-2.5e-09" && toStr(std::string("a b")) == "a b", "text of other values"); REACH("end"); }
