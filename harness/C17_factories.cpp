// @bounds every element type and material of the factories, batches of up to 3 elements after up to 2 existing ones and one batch of 65600 elements and nodes, material constants of any value; every name up to 14 characters (all characters free) for lookups
// @outside longer names (they are compared by std::string::compare)
#include "symx.h"
#include "testel.h"
#include "Node.h"
#include "FEComponent.h"
#include "elements/ElementFactory.h"
#include "elements/PLANE41.h"
#include "elements/SOLID81.h"
#include "elements/TRUSS3.h"
#include "elements/TETRA0.h"
#include "elements/TETRA1.h"
#include "elements/QUADTH.h"
#include "elements/TRIANGLE4.h"
#include "elements/INTER0.h"
#include "elements/INTER3.h"
#include "materials/MaterialFactory.h"
using namespace tst;
static const char* const EN[10] = {"TRUSS3", "PLANE41", "SOLID81", "TETRA0", "TETRA1", "QUADTH", "SurfaceLINETH", "TRIANGLE4", "INTER0", "INTER3"};
static const int NN[10] = {2, 4, 8, 4, 4, 4, 2, 3, 2, 6}; static const ElementShape SH[10] = {ElementShape::LINE, ElementShape::QUAD, ElementShape::HEXAHEDRON, ElementShape::TETRA, ElementShape::TETRA, ElementShape::QUAD, ElementShape::LINE, ElementShape::TRIANGLE, ElementShape::TWIN_VERTEX, ElementShape::WEDGE};
static bool isA(Element* e, int k) { switch (k) { case 0: return dynamic_cast<ElementTRUSS3*>(e); case 1: return dynamic_cast<ElementPLANE41*>(e); case 2: return dynamic_cast<ElementSOLID81*>(e); case 3: return dynamic_cast<ElementTETRA0*>(e); case 4: return dynamic_cast<ElementTETRA1*>(e); case 5: return dynamic_cast<ElementQUADTH*>(e); case 6: return dynamic_cast<SurfaceLINETH*>(e); case 7: return dynamic_cast<ElementTRIANGLE4*>(e); case 8: return dynamic_cast<ElementINTER0*>(e); default: return dynamic_cast<ElementINTER3*>(e); } }
HARNESS(elements) { FEStorage s; int k = pickU("type", 0, 9); uint32 m = pickU("before", 0, 2), n = pickU("n", 0, 3); ElementType t = ElementFactory::elName2elType(EN[k]); CK((int)t != (int)ElementType::UNDEFINED, "every element name is known"); if (m) s.createElements(m, ElementFactory::elName2elType(EN[(k + 3) % 10])); std::vector<uint32> id = s.createElements(n, t); CK(id.size() == n && s.nElements() == m + n, "number of elements created");
  for (uint32 i = 0; i < n; i++) { CK(id[i] == m + i + 1, "element numbers are consecutive"); Element& e = s.getElement(id[i]); CK(isA(&e, k), "the element is of the class its name says"); CK(e.getElNum() == id[i], "the element knows its number"); CK(&e.getStorage() == &s, "the element knows its storage"); CK(e.getNNodes() == NN[k], "number of nodes"); CK(e.getShape() == SH[k], "shape"); for (int j = 0; j < NN[k]; j++) e.getNodeNumber(j) = 7 + j; for (int j = 0; j < NN[k]; j++) CK(e.getNodeNumber(j) == (uint32)(7 + j), "node numbers are kept"); }
  for (uint32 i = 1; i <= m; i++) CK(isA(&s.getElement(i), (k + 3) % 10) && s.getElement(i).getElNum() == i, "earlier elements are unchanged"); REACH("end"); }
HARNESS(element_names) { char b[15]; int n = pickU("len", 0, 14); for (int i = 0; i < n; i++) { b[i] = symC("c"); assume(b[i] != 0); } b[n] = 0; std::string x(b, n); ElementType t = ElementFactory::elName2elType(x); bool any = false; for (int k = 0; k < 10; k++) { bool same = (int)std::string(EN[k]).size() == n; for (int i = 0; same && i < n; i++) if (__sym_fork(b[i] != EN[k][i])) same = false; if (same) { CK(t == ElementFactory::elName2elType(EN[k]), "name lookup"); any = true; } } CK(any == (t != ElementType::UNDEFINED), "only the listed names are elements"); REACH("end"); }
HARNESS(undefined_element) { FEStorage s; __sym_expect_fatal(1); s.createElements(1, ElementType::UNDEFINED); CK(false, "an undefined element type is refused"); }
static const char* const MN[3] = {"Neo-Hookean", "Biderman", "Mooney-Rivlin"}; static const char* const CN[3][5] = {{"G", "K", 0, 0, 0}, {"C10", "C20", "C30", "C01", "K"}, {"C10", "C01", "K", 0, 0}}; static const int NC[3] = {2, 5, 3};
HARNESS(materials) { int k = pickU("mat", 0, 2); Material* m = MaterialFactory::createMaterial(MN[k]); CK(m != nullptr, "material exists"); CK(k == 0 ? dynamic_cast<Mat_Comp_Neo_Hookean*>(m) != nullptr : k == 1 ? dynamic_cast<Mat_Comp_Biderman*>(m) != nullptr : dynamic_cast<Mat_Comp_MooneyRivlin*>(m) != nullptr, "class of the material"); CK(m->getName() == MN[k], "the material reports the name it is created by"); CK(m->getCode() == MaterialFactory::matName2matId(MN[k]), "code"); CK(m->getNumC() == NC[k], "number of constants");
  double v[5]; for (int i = 0; i < NC[k]; i++) { v[i] = symD("v", -1e9, 1e9); m->Ci(std::string(CN[k][i])) = v[i]; } for (int i = 0; i < NC[k]; i++) { EQ(m->Ci(std::string(CN[k][i])), v[i], "constant by name"); EQ(m->Ci((uint16)i), v[i], "constant by number"); } double& z = m->Ci(std::string("nu")); z = 5; for (int i = 0; i < NC[k]; i++) EQ(m->Ci((uint16)i), v[i], "an unknown constant is none of the known ones"); delete m; REACH("end"); }
HARNESS(material_names) { char b[15]; int n = pickU("len", 0, 14); for (int i = 0; i < n; i++) { b[i] = symC("c"); assume(b[i] != 0); } std::string x(b, n); Material* t = MaterialFactory::createMaterial(x); int any = -1; for (int k = 0; k < 3; k++) { bool same = (int)std::string(MN[k]).size() == n; for (int i = 0; same && i < n; i++) if (__sym_fork(b[i] != MN[k][i])) same = false; if (same) any = k; } CK((any >= 0) == (t != nullptr), "only the listed names are materials"); if (t) CK(t->getName() == MN[any], "the right material"); REACH("end"); }
// entity tables of the storage
HARNESS(entities) { FEStorage s; uint32 a = pickU("a", 0, 3), b = pickU("b", 1, 3), k = pickU("els", 0, 2); auto x = s.createNodes(a); for (uint32 i = 0; i < k; i++) s.addElement(new TE); auto y = s.createNodes(b); CK(x.size() == a && y.size() == b && s.nNodes() == a + b, "number of nodes"); for (uint32 i = 0; i < a; i++) CK(x[i] == i + 1, "node numbers are consecutive"); for (uint32 i = 0; i < b; i++) CK(y[i] == a + i + 1, "node numbers are consecutive"); Node* p = new Node; s.addNode(p); CK(s.nNodes() == a + b + 1 && &s.getNode(a + b + 1) == p, "an added node comes last"); double c[3]; for (uint32 n = 1; n <= a + b + 1; n++) { s.getNodePosition(n, c); for (int i = 0; i < 3; i++) { EQ(c[i], 0, "new nodes are at the origin"); s.getNode(n).pos[i] = symD("p", -9, 9); } } for (uint32 n = 1; n <= a + b + 1; n++) { s.getNodePosition(n, c); for (int i = 0; i < 3; i++) EQ(c[i], s.getNode(n).pos[i], "node position"); }
  TE* e = new TE; s.addElement(e); CK(s.nElements() == k + 1 && e->getElNum() == k + 1 && &e->getStorage() == &s && &s.getElement(k + 1) == e, "an added element comes last and knows its number and storage"); uint32 n1 = pickU("n1", 1, 2), n2 = pickU("n2", 1, 2); if (n1 <= s.nNodes() && n2 <= s.nNodes()) { e->on(n1, n2); Node* q[2]; s.getElementNodes(k + 1, q); CK(q[0] == &s.getNode(n1) && q[1] == &s.getNode(n2), "nodes of an element"); } REACH("end"); }
HARNESS(deformed) { FEStorage s; s.createNodes(2); TE* e = new TE; s.addElement(e); e->on(1, 2); bool use[3]; for (int i = 0; i < 3; i++) use[i] = pickB("use"); e->fpre = [&use](TE& t) { for (uint32 n = 1; n <= 2; n++) { t.getStorage().addNodeDof(n, {Dof::TEMP}); for (int i = 2; i >= 0; i--) if (use[i]) t.getStorage().addNodeDof(n, {AllT[i]}); } }; s.initDofs(); s.assignEquationNumbers(); s.initSolutionData(); for (uint32 i = 0; i < s.nDofs(); i++) (*s.getU())[i] = symD("u", -9, 9); for (uint32 n = 1; n <= 2; n++) { for (int i = 0; i < 3; i++) s.getNode(n).pos[i] = symD("p", -9, 9); double c[3], d[3]; s.getNodePosition(n, c); s.getNodePosition(n, d, true); for (int i = 0; i < 3; i++) { EQ(c[i], s.getNode(n).pos[i], "initial position"); EQ(d[i], s.getNode(n).pos[i] + (use[i] ? s.getNodeDofSolution(n, AllT[i]) : 0.0), "deformed position adds the displacement"); } } REACH("end"); }
HARNESS(components) { FEStorage s; const char* nm[3] = {"LEFT", "RIGHT", "LEF"}; FEComponent* c[3]; for (int i = 0; i < 3; i++) { c[i] = new FEComponent; CK(c[i]->type == FEComponent::NOT_DEFINED, "a new component has no type"); c[i]->name = nm[i]; s.addFEComponent(c[i]); } for (int i = 0; i < 3; i++) { CK(s.getFEComponent((size_t)i) == c[i], "component by number"); CK(s.getFEComponent(std::string(nm[i])) == c[i], "component by name"); } CK(s.getFEComponent(std::string("LEFTX")) == nullptr && s.getFEComponent(std::string("")) == nullptr, "unknown component"); CK(FEComponent::typeFromString("NODE") == FEComponent::NODES && FEComponent::typeFromString("ELEM") == FEComponent::ELEMENTS, "component types"); char b[5]; for (int i = 0; i < 4; i++) { b[i] = symC("c"); assume(b[i] != 0); } b[4] = 0; FEComponent::typeOfComponent t = FEComponent::typeFromString(std::string(b, 4)); bool N = b[0] == 'N' & b[1] == 'O' & b[2] == 'D' & b[3] == 'E', E = b[0] == 'E' & b[1] == 'L' & b[2] == 'E' & b[3] == 'M'; bool Z = b[0] == 'L' & b[1] == 'A' & b[2] == 'S' & b[3] == 'T'; CK(Z | (N == (t == FEComponent::NODES)), "only NODE is nodes"); CK(E == (t == FEComponent::ELEMENTS), "only ELEM is elements"); REACH("end"); }
// numbers are not cut to 16 bits
HARNESS(many) { const uint32 NB = 65600; static const uint32 AT[6] = {1, 255, 256, 65535, 65536, 65600}; FEStorage s; s.createNodes(3); auto nd = s.createNodes(NB); s.createElements(2, ElementType::TRUSS3); auto el = s.createElements(NB, ElementType::TETRA0); CK(nd.size() == NB && el.size() == NB && s.nNodes() == NB + 3 && s.nElements() == NB + 2, "numbers of entities beyond 65535"); uint32 k = AT[pickU("at", 0, 5)]; CK(nd[k - 1] == k + 3 && el[k - 1] == k + 2, "consecutive numbers beyond 65535"); Element& e = s.getElement(k + 2); CK(e.getElNum() == k + 2 && dynamic_cast<ElementTETRA0*>(&e) != nullptr, "element beyond 65535"); for (int i = 0; i < 4; i++) e.getNodeNumber(i) = k + 3 - (i % 2); Node* q[4]; s.getElementNodes(k + 2, q); CK(q[0] == &s.getNode(k + 3) && q[1] == &s.getNode(k + 2), "nodes of an element beyond 65535"); double x = symD("x", -9, 9), c[3]; s.getNode(k + 3).pos[1] = x; s.getNodePosition(k + 3, c); EQ(c[1], x, "position of a node beyond 65535"); for (int t = 0; t < 6; t++) if (AT[t] != k) { s.getNodePosition(AT[t] + 3, c); EQ(c[1], 0, "other nodes are untouched"); } REACH("end"); }
