// @bounds one element of each of the eight supported shapes plus a second element, on up to nine nodes with any positions, and two elements on far nodes of 300; node DoF sets with and without displacements and temperatures, some DoFs unused on some nodes; any solution, reactions and element results; requested results by fork, automatic choice, elements that do not answer; initial file and two step files
// @outside element shapes without a VTK type (the code logs an error); the digits of printed numbers (read back within 1e-4)
#include "symx.h"
#include "testel.h"
#include "VtkProcessor.h"
#include <sstream>
using namespace tst;
// an element of shape B that answers the queries of its masks; every answer is value * (1 + query) added with the scale
template <class B> struct Q : B { uint32 ms = 0, mv = 0, mt = 0; double v; Q(int type) { this->type = (ElementType)type; v = symD("result", -3, 3); } bool el = false; uint32 tn = 0;
  void pre() { for (int i = 0; i < this->getNNodes(); i++) { uint32 n = this->getNodeNumber(i); if (tn & 1) this->storage->addNodeDof(n, {Dof::UX}); if (tn & 2) this->storage->addNodeDof(n, {Dof::UY, Dof::UZ}); if (tn & 4) this->storage->addNodeDof(n, {Dof::TEMP}); } if (el) this->storage->addElementDof(this->getElNum(), {Dof::HYDRO_PRESSURE}); } void buildK() {} void update() {}
  bool getScalar(double* s, scalarQuery q, uint16 gp, const double sc) { if (!(ms >> (int)q & 1)) return false; CK(gp == GP_MEAN, "mean values are asked for"); *s += v * (1 + (int)q) * sc; return true; }
  bool getVector(Vec<3>* s, vectorQuery q, uint16 gp, const double sc) { if (!(mv >> (int)q & 1)) return false; for (int k = 0; k < 3; k++) (*s)[k] += v * (10 * (int)q + k) * sc; return true; }
  bool getTensor(MatSym<3>* s, tensorQuery q, uint16 gp, const double sc) { if (!(mt >> (int)q & 1)) return false; for (int k = 0; k < 3; k++) for (int l = k; l < 3; l++) s->comp(k, l) += v * (10 * (int)q + 3 * k + l) * sc; return true; } };
struct Rd { std::stringstream in; Rd(const std::string& t) : in(t) {} std::string w() { std::string s; in >> s; return s; } void word(const char* e, const char* l) { CK(w() == e, l); } void line(const char* e) { std::string s; std::getline(in, s); CK(s == e, "header line"); } void num(double e, const char* l) { double v = 99; in >> v; NEAR(v, e, 1e-3, l); } void cnt(int e, const char* l) { int v = -99; in >> v; CK(v == e, l); } bool end() { return w().empty(); } };
static Rd open(const char* n) { bool ok = false; std::string t = symRead(n, &ok); CK(ok, "file of the step exists"); return Rd(t); }
static void header(Rd& r) { r.line("# vtk DataFile Version 2.0"); r.line("This file is generated by nla3D program"); r.line("ASCII"); r.line("DATASET UNSTRUCTURED_GRID"); }
static void geometry(Rd& r, FEStorage& s, const int* type) { header(r); r.word("POINTS", "points section"); r.cnt(s.nNodes(), "number of points"); r.word("float", "number type"); for (uint32 i = 1; i <= s.nNodes(); i++) for (int k = 0; k < 3; k++) r.num(s.getNode(i).pos[k], "point is the node in its initial position"); int tot = 0; for (uint32 e = 1; e <= s.nElements(); e++) tot += 1 + s.getElement(e).getNNodes(); r.word("CELLS", "cells section"); r.cnt(s.nElements(), "number of cells"); r.cnt(tot, "size of the cell list"); for (uint32 e = 1; e <= s.nElements(); e++) { Element& x = s.getElement(e); r.cnt(x.getNNodes(), "number of points of a cell"); for (int i = 0; i < x.getNNodes(); i++) r.cnt(x.getNodeNumber(i) - 1, "point of a cell counts from zero"); } r.word("CELL_TYPES", "types section"); r.cnt(s.nElements(), "number of cell types"); for (uint32 e = 0; e < s.nElements(); e++) r.cnt(type[e], "VTK type of the shape"); }
static void points(Rd& r, FEStorage& s, bool dis, bool tmp) { r.word("POINT_DATA", "point data section"); r.cnt(s.nNodes(), "point data for every node"); static const Dof::dofType U[3] = {Dof::UX, Dof::UY, Dof::UZ}; if (dis) for (int p = 0; p < 2; p++) { r.word("VECTORS", "vector field"); r.word(p ? "reaction" : "disp", "field name"); r.word("float", "number type"); for (uint32 n = 1; n <= s.nNodes(); n++) for (int k = 0; k < 3; k++) r.num(!s.isNodeDofUsed(n, U[k]) ? 0. : p ? s.getReaction(n, U[k]) : s.getNodeDofSolution(n, U[k]), p ? "reaction of a node" : "displacement of a node"); } if (tmp) { r.word("SCALARS", "scalar field"); r.word("TEMP", "field name"); r.word("float", "number type"); r.cnt(1, "one component"); r.word("LOOKUP_TABLE", "table"); r.word("default", "table"); for (uint32 n = 1; n <= s.nNodes(); n++) r.num(s.isNodeDofUsed(n, Dof::TEMP) ? s.getNodeDofSolution(n, Dof::TEMP) : 0., "temperature of a node"); } }
static void scalars(Rd& r, const std::string& name, const std::vector<double>& v) { r.word("SCALARS", "scalar field"); r.word(name.c_str(), "field name"); r.word("float", "number type"); r.cnt(1, "one component"); r.word("LOOKUP_TABLE", "table"); r.word("default", "table"); for (double x : v) r.num(x, "result of an element"); }
static void solve(FEStorage& s) { for (uint32 i = 0; i < s.nDofs(); i++) { (*s.getU())[i] = symD("u", -3, 3); (*s.getR())[i] = symD("r", -3, 3); } }
static void start(FEStorage& s) { s.initDofs(); s.assignEquationNumbers(); s.initSolutionData(); }
template <class B> static void shape(int vt) { FEStorage s; auto* a = new Q<B>(0); auto* b = new Q<ElementLINE>(1); s.addElement(a); s.addElement(b); int n = a->getNNodes(); s.createNodes(n + 1); for (uint32 i = 1; i <= s.nNodes(); i++) for (int k = 0; k < 3; k++) s.getNode(i).pos[k] = symD("x", -4, 4); for (int i = 0; i < n; i++) a->getNodeNumber(i) = (i * (n == 3 || n == 6 ? 1 : 3)) % n + 2; b->getNodeNumber(0) = n + 1; b->getNodeNumber(1) = 1; a->tn = 1; b->tn = 2; start(s); VtkProcessor v(&s, "job"); v.pre(); solve(s); v.process(1); v.post(1); int t[2] = {vt, 3}; Rd r = open("job1.vtk"); geometry(r, s, t); points(r, s, true, false); CK(r.end(), "nothing else is written"); Rd z = open("job0.vtk"); geometry(z, s, t); z.word("POINT_DATA", "initial file has point data"); REACH("end"); }
HARNESS(shapes) { switch (pickU("shape", 0, 7)) { case 0: shape<ElementVERTEX>(1); break; case 1: shape<ElementTWIN_VERTEX>(2); break; case 2: shape<ElementLINE>(3); break; case 3: shape<ElementTRIANGLE>(5); break; case 4: shape<ElementQUAD>(9); break; case 5: shape<ElementTETRA>(10); break; case 6: shape<ElementHEXAHEDRON>(12); break; default: shape<ElementWEDGE>(13); } }
// which fields are written follows from the DoFs in use; every step has its own file with the current values
HARNESS(point_fields) { FEStorage s; auto* a = new Q<ElementLINE>(0); auto* b = new Q<ElementVERTEX>(1); s.addElement(a); s.addElement(b); s.createNodes(4); for (uint32 i = 1; i <= 4; i++) s.getNode(i).pos[0] = i; a->getNodeNumber(0) = 3; a->getNodeNumber(1) = 1; b->getNodeNumber(0) = 2; a->tn = pickU("dofs a", 0, 7); b->tn = pickU("dofs b", 0, 7); uint32 tn = a->tn | b->tn; assume(tn != 0); if (pickB("constrained") && (a->tn & 1)) { s.initDofs(); s.setConstrainedNodeDof(1, Dof::UX); s.assignEquationNumbers(); s.initSolutionData(); } else start(s); VtkProcessor v(&s, "job"); int t[2] = {3, 1}; v.pre(); { Rd r = open("job0.vtk"); geometry(r, s, t); points(r, s, tn & 3, tn & 4); CK(r.end(), "nothing else is written"); } for (int st = 1; st <= 11; st += 10) { solve(s); v.process(st); Rd r = open(st == 1 ? "job1.vtk" : "job11.vtk"); geometry(r, s, t); points(r, s, tn & 3, tn & 4); CK(r.end(), "nothing else is written"); } REACH("end"); }
HARNESS(cell_fields) { FEStorage s; auto* a = new Q<ElementLINE>(0); auto* b = new Q<ElementVERTEX>(1); s.addElement(a); s.addElement(b); s.createNodes(3); a->getNodeNumber(0) = 3; a->getNodeNumber(1) = 1; b->getNodeNumber(0) = 2; a->tn = 1; bool el = pickB("element dof"), all = pickB("automatic"); a->el = el; uint32 ans = pickU("answers", 0, 3); const scalarQuery S[2] = {scalarQuery::W, scalarQuery::VOL}; const vectorQuery V[2] = {vectorQuery::IC, vectorQuery::GRADT}; const tensorQuery T[2] = {tensorQuery::COUCHY, tensorQuery::C}; uint32 fs = 0, fv = 0, ft = 0; for (int k = 0; k < 2; k++) { if (ans >> k & 1) { (k ? b->ms : a->ms) |= 1u << (int)S[k]; (k ? a->mv : b->mv) |= 1u << (int)V[k]; a->mt |= 1u << (int)T[k]; if (k) b->mt |= 1u << (int)T[k]; } }
  start(s); VtkProcessor v(&s, "job"); if (all) { v.writeAllResults(); fs = a->ms | b->ms; fv = a->mv | b->mv; ft = a->mt | b->mt; } else { uint32 rq = pickU("requests", 0, 7); if (rq & 1) { v.registerResults({S[0], S[1]}); fs = 1u << (int)S[0] | 1u << (int)S[1]; } if (rq & 2) { v.registerResults({V[1]}); fv = 1u << (int)V[1]; } if (rq & 4) { v.registerResults({T[0]}); v.registerResults({T[1]}); ft = 1u << (int)T[0] | 1u << (int)T[1]; } }
  v.pre(); solve(s); v.process(2); Rd r = open("job2.vtk"); int t[2] = {3, 1}; geometry(r, s, t); points(r, s, true, false); if (fs | fv | ft | el) { r.word("CELL_DATA", "cell data section"); r.cnt(2, "cell data for every element"); if (el) scalars(r, "HYDRO_PRESSURE", {s.getElementDofSolution(1, Dof::HYDRO_PRESSURE), 0.});
    for (int q = 1; q < (int)scalarQuery::LAST; q++) if (fs >> q & 1) scalars(r, query2label((scalarQuery)q), {a->ms >> q & 1 ? a->v * (1 + q) : 0., b->ms >> q & 1 ? b->v * (1 + q) : 0.});
    for (int q = 1; q < (int)vectorQuery::LAST; q++) if (fv >> q & 1) { r.word("VECTORS", "vector field"); r.word(query2label((vectorQuery)q), "field name"); r.word("float", "number type"); for (int k = 0; k < 6; k++) r.num(k < 3 ? (a->mv >> q & 1 ? a->v * (10 * q + k) : 0.) : b->mv >> q & 1 ? b->v * (10 * q + k - 3) : 0., "vector result of an element"); }
    static const char* const cn[6] = {"_XX", "_XY", "_XZ", "_YY", "_YZ", "_ZZ"}; for (int q = 1; q < (int)tensorQuery::LAST; q++) if (ft >> q & 1) { int c = 0; for (int k = 0; k < 3; k++) for (int l = k; l < 3; l++) scalars(r, std::string(query2label((tensorQuery)q)) + cn[c++], {a->mt >> q & 1 ? a->v * (10 * q + 3 * k + l) : 0., b->mt >> q & 1 ? b->v * (10 * q + 3 * k + l) : 0.}); } }
  CK(r.end(), "nothing else is written"); REACH("end"); }
// counts beyond 255
HARNESS(many_nodes) { FEStorage s; s.createNodes(300); auto* a = new Q<ElementLINE>(1); auto* b = new Q<ElementLINE>(1); s.addElement(a); s.addElement(b); a->tn = b->tn = 7; static const uint32 AT[4] = {1, 255, 256, 300}; uint32 p = pickU("p", 0, 3), q = pickU("q", 0, 3); if (p == q) return; a->getNodeNumber(0) = AT[p]; a->getNodeNumber(1) = AT[q]; b->getNodeNumber(0) = 44; b->getNodeNumber(1) = AT[p]; s.getNode(AT[p]).pos[1] = symD("pos", -3, 3); s.getNode(44).pos[0] = symD("pos", -3, 3); for (uint32 n = 1; n <= 300; n++) s.getNode(n).pos[2] = n; s.initDofs(); s.assignEquationNumbers(); s.initSolutionData(); solve(s); VtkProcessor v(&s, "t"); v.pre(); v.process(1); v.post(1); static const int ty[2] = {3, 3}; for (int k = 0; k < 2; k++) { Rd r = open(k ? "t1.vtk" : "t0.vtk"); geometry(r, s, ty); if (k) points(r, s, true, true); } REACH("end"); }
