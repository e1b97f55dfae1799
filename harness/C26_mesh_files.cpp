// @bounds cdb files with up to two records per table: node tables in four number formats with 0..3 coordinates per line; element tables with 1..8 nodes (SOLID) or 1..10 nodes; displacement and force records of every kind; constraint equations of 1..5 terms; components with up to four ranges in 1..8 columns; all record kinds in one file in two orders; every integer field has two symbolic digits (small numbers, and numbers around 65535 and above 2^24 in one file of all kinds, element tables and neutral files); both kinds of line end; neutral files with up to two nodes, volumes and surfaces
// @outside malformed records; elements with more nodes than fit on one line; more than two symbolic digits per field; coordinates other than the listed texts
// @assume records are well formed (all fields the format demands are present)
#include "symx.h"
#include "FEReaders.h"
static std::string nl;
static void ends() { nl = pickB("crlf") ? "\r\n" : "\n"; }
static std::string pad(const std::string& s, int w, bool left = false) { std::string r; int k = w - (int)s.size(); if (left) r = s; for (int i = 0; i < k; i++) r.push_back(' '); if (!left) r += s; return r; }
// a field of width w with a two digit number; with big, two digits behind 655 or 234567 where the field has room
static bool big = false;
static std::string num(int w, uint32& v) { char a = __sym_warm() ? '3' : symC("digit"), b = __sym_warm() ? '7' : symC("digit"); assume((a >= '1') & (a <= '9') & (b >= '0') & (b <= '9')); v = (a - '0') * 10 + (b - '0'); std::string s; if (big && w >= 9) { s = "234567"; v += 23456700; } else if (big && w != 3 && w != 5) { s = "655"; v += 65500; } s.push_back(a); s.push_back(b); return pad(s, w); }
static const char* const CT[] = {"0.0", "1.5E+00", "-2.5e1", "-3.25E-001", "40.", "6.5691449317818E+01"}; static const double CV[] = {0, 1.5, -25, -0.325, 40, 65.691449317818};
static void dirty(MeshData& md) { md.nodesNumbers.push_back(77); md.nodesPos.push_back(Vec<3>(1, 2, 3)); md.cellNumbers.push_back(5); md.cellNodes.push_back({1, 2}); md.cellIntData["OLD"].push_back(3); md.cellIntData["MAT"].push_back(3); md.cellDoubleData["D"].push_back(1); md.cellStringData["S"].push_back("x"); FEComponent c; c.name = "OLD"; md.feComps.insert(std::make_pair("OLD", c)); fixBC f; md.fixBcs.push_back(f); loadBC l; md.loadBcs.push_back(l); Mpc* m = new Mpc(); md.mpcs.push_back(m); }
struct Exp { std::vector<uint32> nodes; std::vector<double> pos; std::vector<std::vector<uint32>> cells, attr; std::vector<uint32> cn; };
static const char* const AT[6] = {"MAT", "TYPE", "REAL", "SECT", "CS", "SHAPE"};
static std::string nblock(Exp& x, int fmt, int rows, int term) {
  static const struct { const char* h; const char* f; int ni, wi, wf, nf; } F[4] = {{"NBLOCK,6,SOLID,     9355,     9355", "(3i9,6e20.13)", 3, 9, 20, 6}, {"nblock,3", "(1i9,3e20.9e3)", 1, 9, 20, 3}, {"NBLOCK,6,SOLID,341,341", "  (3I7,6E21.13E3) ", 3, 7, 21, 6}, {"NBlock,3", "(2i3,3e10.2)", 2, 3, 10, 3}};
  std::string s = F[fmt].h + nl + F[fmt].f + nl;
  for (int r = 0; r < rows; r++) { uint32 n; s += num(F[fmt].wi, n); x.nodes.push_back(n); for (int i = 1; i < F[fmt].ni; i++) s += pad("0", F[fmt].wi); int nc = pickU("coordinates", 0, 3); for (int k = 0; k < 3; k++) { int c = k < nc ? (fmt * 2 + r * 3 + k) % (F[fmt].wf < 20 ? 4 : 6) : 0; x.pos.push_back(k < nc ? CV[c] : 0); if (k < nc) s += pad(CT[c], F[fmt].wf); } s += nl; }
  static const char* const T[3] = {"N,R5.3,LOC,       -1,", "-1", "       -1"}; return s + T[term] + nl; }
static std::string eblock(Exp& x, bool solid, int w, int rows, int nn) { std::string s = solid ? "EBLOCK,19,SOLID,      7024,      7024" : "eblock,10,,,3"; s += nl; s += solid ? "(19i" : "(15i"; s += std::string(1, '0' + w) + ")" + nl;
  for (int r = 0; r < rows; r++) { uint32 v[11]; int nf = solid ? 11 : 5; std::vector<uint32> a(6, 0), n; int k = nn > 1 && r ? nn - 1 : nn; for (int i = 0; i < nf; i++) { if (solid && i == 8) { s += pad(std::string(1, '0' + k), w); continue; } s += num(w, v[i]); }
    if (solid) { a = {v[0], v[1], v[2], v[3], v[4], v[7]}; x.cn.push_back(v[10]); } else { a = {v[3], v[1], v[2], 0, v[4], 0}; x.cn.push_back(v[0]); }
    for (int i = 0; i < k; i++) { uint32 q; s += num(w, q); n.push_back(q); } s += nl; x.attr.push_back(a); x.cells.push_back(n); }
  return s + pad("-1", w) + nl; }
static void checkMesh(MeshData& md, Exp& x) { CK(md.nodesNumbers.size() == x.nodes.size() && md.nodesPos.size() == x.nodes.size(), "number of nodes"); CK(md.cellNumbers.size() == x.cn.size() && md.cellNodes.size() == x.cn.size(), "number of cells"); if (md.nodesNumbers.size() != x.nodes.size() || md.cellNumbers.size() != x.cn.size()) return;
  for (size_t i = 0; i < x.nodes.size(); i++) { CK(md.nodesNumbers[i] == x.nodes[i], "node number"); for (int k = 0; k < 3; k++) NEAR(md.nodesPos[i][k], x.pos[3 * i + k], 1e-12, "node position"); }
  for (size_t i = 0; i < x.cn.size(); i++) { CK(md.cellNumbers[i] == x.cn[i], "cell number"); CK(md.cellNodes[i].size() == x.cells[i].size(), "number of nodes of a cell"); for (size_t k = 0; k < x.cells[i].size() && k < md.cellNodes[i].size(); k++) CK(md.cellNodes[i][k] == x.cells[i][k], "node of a cell"); }
  for (int a = 0; a < 6; a++) { auto it = md.cellIntData.find(AT[a]); CK(it != md.cellIntData.end(), "attribute is present"); if (it == md.cellIntData.end()) continue; CK(it->second.size() == x.cn.size(), "one attribute value per cell"); for (size_t i = 0; i < x.cn.size() && i < it->second.size(); i++) CK(it->second[i] == x.attr[i][a], AT[a]); } }
static void fresh(MeshData& md) { CK((md.cellIntData.count("OLD") == 0) & (md.cellDoubleData.empty()) & (md.cellStringData.empty()) & (md.feComps.count("OLD") == 0), "earlier content is dropped"); }
HARNESS(nodes) { ends(); Exp x; std::string s = "/PREP7" + nl + "! comment, NBLOCK" + nl + nl; s += nblock(x, pickU("format", 0, 3), pickU("rows", 0, 2), pickU("end", 0, 2)); s += "FINISH"; symFile("m.cdb", s); MeshData md; dirty(md); CK(readCdbFile("m.cdb", md), "file is read"); checkMesh(md, x); fresh(md); CK(md.fixBcs.empty() & md.loadBcs.empty() & md.mpcs.empty() & md.feComps.empty(), "nothing else is read"); REACH("end"); }
HARNESS(cells) { big = pickB("big"); ends(); Exp x; bool solid = pickB("solid"); std::string s = eblock(x, solid, pickB("wide") ? 9 : 5, pickU("rows", 1, 2), pickU("nodes", 1, solid ? 8 : 10)); symFile("m.cdb", s); MeshData md; CK(readCdbFile("m.cdb", md), "file is read"); checkMesh(md, x); REACH("end"); }
HARNESS(displacements) { ends(); uint32 n, m; static const struct { const char* t; Dof::dofType d; } L[] = {{"UX", Dof::UX}, {"UY  ", Dof::UY}, {"UZ", Dof::UZ}, {" ROTX", Dof::ROTX}, {"ROTY", Dof::ROTY}, {"ROTZ", Dof::ROTZ}, {"TEMP", Dof::TEMP}, {"HYDRO_PRESSURE", Dof::HYDRO_PRESSURE}}; int l = pickU("label", 0, 7), c = pickU("value", 0, 5); std::string s = std::string(pickB("upper") ? "D," : "d, ") + num(5, n) + "," + L[l].t + ", " + CT[c] + " ,  0.0" + nl + "D,ALL,UX,0.0" + nl + "D,_pn,UY,0" + nl + "D,5,UX,%tab%" + nl + "D," + num(9, m) + ",UX  ,  0.00000000    ,  0.00000000" + nl; symFile("m.cdb", s); MeshData md; dirty(md); CK(readCdbFile("m.cdb", md), "file is read"); CK(md.fixBcs.size() == 2 && md.loadBcs.empty(), "one constraint per numeric record"); if (md.fixBcs.size() != 2) return; CK(md.fixBcs[0].node == (int32)n, "constrained node"); CK(md.fixBcs[0].node_dof == L[l].d, "constrained degree of freedom"); NEAR(md.fixBcs[0].value, CV[c], 1e-12, "constrained value"); CK(md.fixBcs[1].node == (int32)m && md.fixBcs[1].node_dof == Dof::UX && md.fixBcs[1].value == 0, "second constraint"); REACH("end"); }
HARNESS(forces) { ends(); uint32 n, m; static const struct { const char* t; Dof::dofType d; } L[] = {{"FX", Dof::UX}, {"fy", Dof::UY}, {"FZ  ", Dof::UZ}, {" Heat", Dof::TEMP}, {"TEMP", Dof::TEMP}, {"UX", Dof::UX}}; int l = pickU("label", 0, 5), c = pickU("value", 0, 5); std::string s = std::string(pickB("upper") ? "F," : "f, ") + num(5, n) + "," + L[l].t + ", " + CT[c] + " ,  0.0" + nl + "F,ALL,FX,0.0" + nl + "f,5,fx,%tab%" + nl + "F," + num(9, m) + ",FX  ,  1.00000000    ,  0.00000000" + nl; symFile("m.cdb", s); MeshData md; dirty(md); CK(readCdbFile("m.cdb", md), "file is read"); CK(md.loadBcs.size() == 2 && md.fixBcs.empty(), "one force per numeric record"); if (md.loadBcs.size() != 2) return; CK(md.loadBcs[0].node == (int32)n, "loaded node"); CK(md.loadBcs[0].node_dof == L[l].d, "loaded degree of freedom"); NEAR(md.loadBcs[0].value, CV[c], 1e-12, "value of the force"); CK(md.loadBcs[1].node == (int32)m && md.loadBcs[1].node_dof == Dof::UX && md.loadBcs[1].value == 1, "second force"); REACH("end"); }
static const Dof::dofType MD[5] = {Dof::UX, Dof::UZ, Dof::ROTX, Dof::UY, Dof::TEMP}; static const char* const ML[5] = {"UX  ", "UZ", "ROTX", "UY", "TEMP"};
static std::string ce(int terms, std::vector<uint32>& n) { std::string s = std::string("CE,R5.0,DEFI,   ") + std::string(1, '0' + terms) + ",       1,  " + CT[terms] + nl; for (int i = 0; i < terms; i++) { if (i % 2 == 0) s += "CE,R5.0,NODE,"; uint32 v; s += num(10, v) + "," + ML[i] + ",  " + CT[(i + 1) % 6] + " "; n.push_back(v); s += i % 2 == 0 && i + 1 < terms ? "," : nl; } return s; }
static void checkCe(Mpc* m, int terms, std::vector<uint32>& n) { NEAR(m->b, CV[terms], 1e-12, "constant of the equation"); CK(m->eq.size() == (size_t)terms, "number of terms"); int i = 0; for (auto& t : m->eq) { if (i >= terms) break; CK(t.node == (int32)n[i], "node of a term"); CK(t.node_dof == MD[i], "degree of freedom of a term"); NEAR(t.coef, CV[(i + 1) % 6], 1e-12, "coefficient of a term"); i++; } }
HARNESS(equations) { ends(); int a = pickU("terms", 1, 5), b = pickU("terms2", 0, 3); std::vector<uint32> na, nb; uint32 n; std::string s = ce(a, na); if (b) s += ce(b, nb); s += "D," + num(4, n) + ",UX,0" + nl; symFile("m.cdb", s); MeshData md; CK(readCdbFile("m.cdb", md), "file is read"); CK(md.mpcs.size() == (b ? 2u : 1u), "number of equations"); CK(md.fixBcs.size() == 1 && md.fixBcs[0].node == (int32)n, "the record behind an equation is read"); if (md.mpcs.size() != (b ? 2u : 1u)) return; checkCe(md.mpcs[0], a, na); if (b) checkCe(md.mpcs[1], b, nb); REACH("end"); }
// ranges: singles are symbolic, spans a..-b are concrete
static std::string cmblock(const char* name, const char* type, int shape, int cols, std::vector<uint32>& want) { std::vector<std::string> f; uint32 v; for (int i = 0; i < 2; i++) { if (shape >> (2 * i) & 1) { f.push_back(num(6, v)); want.push_back(v); } if (shape >> (2 * i) & 2) { uint32 a = 3 + 20 * i; f.push_back(pad(i ? "23" : "3", 6)); f.push_back(pad(i ? "-26" : "-4", 6)); for (; a <= (i ? 26u : 4u); a++) want.push_back(a); } }
  std::string s = std::string("CMBLOCK,") + name + "," + type + ",      " + std::string(1, '0' + f.size()) + "  ! users " + type + " component definition" + nl + "(" + std::string(1, '0' + cols) + "i6)" + nl; for (size_t i = 0; i < f.size(); i++) { s += f[i]; if ((i + 1) % cols == 0 || i + 1 == f.size()) s += nl; } return s; }
HARNESS(components) { ends(); std::vector<uint32> a, b, c; bool node = pickB("node"); uint32 n; std::string s = cmblock("BOTTOM", node ? "NODE" : "elem", pickU("shape", 1, 15), pickU("columns", 1, 8), a) + cmblock("_HIDDEN", "NODE", 3, 8, b) + cmblock("top", "Node", 6, 2, c) + "D," + num(4, n) + ",UX,0" + nl; symFile("m.cdb", s); MeshData md; dirty(md); CK(readCdbFile("m.cdb", md), "file is read"); CK(md.feComps.size() == 2 && md.feComps.count("BOTTOM") == 1 && md.feComps.count("top") == 1, "named components"); CK(md.fixBcs.size() == 1 && md.fixBcs[0].node == (int32)n, "the record behind a component is read");
  FEComponent& p = md.feComps["BOTTOM"]; CK((p.type == (node ? FEComponent::NODES : FEComponent::ELEMENTS)) & (p.name == "BOTTOM"), "kind of a component"); CK(p.list.size() == a.size(), "number of entities"); for (size_t i = 0; i < a.size() && i < p.list.size(); i++) CK(p.list[i] == a[i], "entity of a component"); FEComponent& q = md.feComps["top"]; CK(q.type == FEComponent::NODES && q.list == c, "second component"); REACH("end"); }
// everything in one file: no record kind disturbs the reading of another one
// more records than a 16 bit counter can hold; one of the last records is symbolic
HARNESS(long_component) { nl = "\n"; const int N = 65538, W = 3; int in = pickU("position", 0, 1); uint32 v; std::string s = "CMBLOCK,BIG,NODE,65538\n(99i3)\n"; s.reserve(N * W + 2000); for (int i = 0; i < N; i++) { if (i == N - 1 - in) s += num(W, v); else s += "  1"; if (i % 99 == 98 || i == N - 1) s += nl; } symFile("m.cdb", s); MeshData md; CK(readCdbFile("m.cdb", md), "file is read"); auto it = md.feComps.find("BIG"); CK(it != md.feComps.end(), "component is present"); if (it == md.feComps.end()) return; auto& l = it->second.list; CK(l.size() == (size_t)N, "number of entities of a long component"); if (l.size() != (size_t)N) return; CK((l[0] == 1) & (l[N - 3] == 1) & (l[N - 1 - in] == (int32)v) & (l[N - 2 + in] == 1), "entities of a long component"); REACH("end"); }
static void whole() { ends(); Exp x; bool back = pickB("order"); std::vector<uint32> cn, na; uint32 n, m; std::string p[7]; p[0] = "/COM,ANSYS" + nl + "*SET,_pn,  5.0" + nl + "*set,name,abc" + nl + "ET,1,185" + nl + "et,_pn,185" + nl + "TYPE,2" + nl + "type,abc" + nl + "MPTEMP,R5.0, 1, 1,  0.0" + nl; p[1] = nblock(x, 1, 2, back ? 0 : 1); p[2] = eblock(x, !back, 9, 1, 3); p[3] = cmblock("SIDE", "NODE", 7, 3, cn); p[4] = "D," + num(4, n) + ",UY,0.5" + nl; p[5] = "F," + num(4, m) + ",FZ,2" + nl; p[6] = ce(3, na); std::string s; for (int i = 0; i < 7; i++) s += p[back ? 6 - i : i] + (i == 3 ? nl + "! comment" + nl : std::string()); s += "/GO"; symFile("m.cdb", s); MeshData md; for (int rep = 0; rep < 2; rep++) { CK(readCdbFile("m.cdb", md), "file is read"); checkMesh(md, x); CK((md.feComps.size() == 1) & (md.fixBcs.size() == 1) & (md.loadBcs.size() == 1) & (md.mpcs.size() == 1), "one record of each kind"); CK(md.feComps["SIDE"].list == cn, "component"); CK(md.fixBcs[0].node == (int32)n && md.loadBcs[0].node == (int32)m, "constraint and force"); checkCe(md.mpcs[0], 3, na); } REACH("end"); }
HARNESS(whole_file) { whole(); }
HARNESS(whole_file_big) { big = true; whole(); }
HARNESS(missing_file) { MeshData md; dirty(md); bool neu = pickB("neu"); CK(!(neu ? readNeuFile("nofile", md) : readCdbFile("nofile", md)), "a missing file is reported"); CK(md.nodesNumbers.size() == 1 && md.cellNumbers.size() == 1 && md.feComps.size() == 1, "data are left alone"); REACH("end"); }
HARNESS(neutral_file) { big = pickB("big"); ends(); int nn = pickU("nodes", 0, 2), nv = pickU("volumes", 0, 2), ns = pickU("surfaces", 0, 3); std::string s = "  " + std::string(1, '0' + nn) + nl; Exp x; for (int i = 0; i < nn; i++) { for (int k = 0; k < 3; k++) { int c = (i * 2 + k) % 6; s += std::string("  ") + CT[c]; x.pos.push_back(CV[c]); } s += nl; } s += std::string(1, '0' + nv) + nl; std::vector<uint32> mat; for (int i = 0; i < nv; i++) { uint32 v; s += num(4, v) + " "; mat.push_back(v); std::vector<uint32> q; for (int k = 0; k < 4; k++) { s += num(4, v) + " "; q.push_back(v); } x.cells.push_back(q); s += nl; } s += std::string(1, '0' + ns) + nl; std::vector<uint32> sf[2]; for (int i = 0; i < ns; i++) { int w = pickU("surface", 0, 1); s += w ? "7" : "in"; for (int k = 0; k < 3; k++) { uint32 v; s += num(5, v); sf[w].push_back(v); } s += nl; }
  symFile("m.neu", s); MeshData md; dirty(md); CK(readNeuFile("m.neu", md), "file is read"); CK(md.cellIntData.count("OLD") + md.cellDoubleData.size() + md.cellStringData.size() == 0 && md.fixBcs.empty() && md.loadBcs.empty() && md.mpcs.empty(), "earlier content is dropped"); CK(md.nodesNumbers.size() == (size_t)nn && md.nodesPos.size() == (size_t)nn && md.cellNumbers.size() == (size_t)nv && md.cellNodes.size() == (size_t)nv, "number of nodes and cells"); for (int i = 0; i < nn; i++) { CK(md.nodesNumbers[i] == (uint32)i + 1, "nodes are numbered from one"); for (int k = 0; k < 3; k++) NEAR(md.nodesPos[i][k], x.pos[3 * i + k], 1e-12, "node position"); } for (int i = 0; i < nv; i++) { CK(md.cellNumbers[i] == (uint32)i + 1, "cells are numbered from one"); CK(md.cellNodes[i] == x.cells[i], "nodes of a cell"); } CK(md.cellIntData["MAT"] == mat, "material of the cells");
  CK(md.feComps.size() == (size_t)(!sf[0].empty() + !sf[1].empty()), "components of surfaces"); for (int w = 0; w < 2; w++) if (!sf[w].empty()) { auto it = md.feComps.find(w ? "7" : "in"); CK(it != md.feComps.end() && it->second.type == FEComponent::ELEMENTS && it->second.list == sf[w], "surface of a component"); } REACH("end"); }
