// @bounds meshes of 0..3 (thorough 0..4) nodes with any distinct numbers 1..200; up to three cells of 1..4 nodes, constraints, loads, equations and components that refer to any of the nodes; one mesh of 65600 nodes and cells looked at in seven places; attribute values free
// @outside references to nodes the mesh does not contain; meshes with equal node numbers
#include "symx.h"
#include "FEReaders.h"
static const int N = THOROUGH ? 4 : 3;
HARNESS(compress) { MeshData md; int n = pickU("nodes", 0, N); std::vector<uint32> old; for (int i = 0; i < n; i++) { uint32 v = symU("number", 1, 200); for (uint32 o : old) assume(o != v); old.push_back(v); md.nodesNumbers.push_back(v); md.nodesPos.push_back(Vec<3>((double)i, 2., 3.)); }
  std::vector<int> ref; std::vector<uint32> el; if (n) { auto any = [&]() { int k = pickU("which", 0, n - 1); ref.push_back(k); return old[k]; };
    std::vector<uint32> c0{any(), old[0]}, c1{old[n - 1]}; ref.push_back(0); ref.push_back(n - 1); md.cellNodes.push_back(c0); md.cellNodes.push_back(c1); md.cellNumbers.push_back(7); md.cellNumbers.push_back(3);
    fixBC f; f.node = old[n - 1]; f.node_dof = Dof::UZ; f.value = 2.5; md.fixBcs.push_back(f); loadBC l; l.node = any(); l.node_dof = Dof::UX; l.value = -1; md.loadBcs.push_back(l); Mpc* m = new Mpc(); m->b = 4; m->eq.push_back(MpcTerm(old[0], Dof::UX, 2.)); m->eq.push_back(MpcTerm(old[n - 1], Dof::UY, -3.)); md.mpcs.push_back(m);
    FEComponent a; a.name = "N"; a.type = FEComponent::NODES; for (int i = n - 1; i >= 0; i--) a.list.push_back(old[i]); FEComponent b; b.name = "E"; b.type = FEComponent::ELEMENTS; b.list.push_back(old[0]); b.list.push_back(3); el = b.list; md.feComps.insert(std::make_pair("N", a)); md.feComps.insert(std::make_pair("E", b)); }
  for (int rep = 0; rep < 2; rep++) { md.compressNumbers(); CK(md.nodesNumbers.size() == (size_t)n && md.nodesPos.size() == (size_t)n, "no node is lost"); for (int i = 0; i < n; i++) { CK(md.nodesNumbers[i] == (uint32)i + 1, "nodes are numbered in the order of their positions"); CK(md.nodesPos[i][0] == i, "positions stay in order"); } if (n) { CK(md.cellNodes[0][0] == (uint32)ref[0] + 1 && md.cellNodes[0][1] == 1 && md.cellNodes[1][0] == (uint32)n, "cells refer to the same nodes"); CK(md.cellNumbers[0] == 7 && md.cellNumbers[1] == 3, "cell numbers are kept"); CK(md.fixBcs[0].node == n && md.fixBcs[0].node_dof == Dof::UZ && md.fixBcs[0].value == 2.5, "constraints refer to the same nodes"); CK(md.loadBcs[0].node == ref.back() + 1 && md.loadBcs[0].node_dof == Dof::UX && md.loadBcs[0].value == -1, "loads refer to the same nodes"); auto& t0 = md.mpcs[0]->eq.front(); auto& t1 = md.mpcs[0]->eq.back(); CK(t0.node == 1 && t1.node == n && t0.coef == 2 && t1.coef == -3 && md.mpcs[0]->b == 4, "equations refer to the same nodes"); auto& a = md.feComps["N"].list; CK(a.size() == (size_t)n, "component size"); for (int i = 0; i < n && i < (int)a.size(); i++) CK(a[i] == (uint32)(n - i), "node components refer to the same nodes"); CK(md.feComps["E"].list == el, "element components are kept"); } } REACH("end"); }
HARNESS(degenerated) { MeshData md; int nc = pickU("cells", 0, 2); std::vector<uint32> want; for (int c = 0; c < nc; c++) { int k = pickU("nodes", 1, c ? 3 : 4); std::vector<uint32> v; bool dup = false; for (int i = 0; i < k; i++) { uint32 x = symU("node", 1, 100); for (uint32 y : v) dup = dup | (x == y); v.push_back(x); } md.cellNumbers.push_back(50 - c); md.cellNodes.push_back(v); if (dup) want.push_back(c); } CK(md.getDegeneratedCells() == want, "positions of the cells that repeat a node"); REACH("end"); }
HARNESS(attribute) { MeshData md; int nc = pickU("cells", 0, 3); uint32 val = symU("value", 0, 3); std::vector<uint32> want, other; for (int c = 0; c < nc; c++) { uint32 a = symU("attribute", 0, 3); md.cellNumbers.push_back(9 - c); md.cellIntData["TYPE"].push_back(a); md.cellIntData["MAT"].push_back(7); if (a == val) want.push_back(c); other.push_back(c); } CK(md.getCellsByAttribute("TYPE", val) == want, "positions of the cells with the attribute value"); CK(md.getCellsByAttribute("MAT", 7) == other, "every cell with the value"); CK(md.getCellsByAttribute("MAT", 8).empty(), "no cell with the value"); CK(md.getCellsByAttribute("NONE", val).empty(), "unknown attribute"); REACH("end"); }
HARNESS(clear) { MeshData md; md.nodesNumbers.push_back(77); md.nodesPos.push_back(Vec<3>(1, 2, 3)); md.cellNumbers.push_back(5); md.cellNodes.push_back({1, 2}); md.cellIntData["OLD"].push_back(3); md.cellDoubleData["D"].push_back(1); md.cellStringData["S"].push_back("x"); FEComponent c; c.name = "OLD"; md.feComps.insert(std::make_pair("OLD", c)); fixBC f; md.fixBcs.push_back(f); loadBC l; md.loadBcs.push_back(l); Mpc* m = new Mpc(); md.mpcs.push_back(m); md.clear(); CK(md.nodesNumbers.empty() & md.nodesPos.empty() & md.cellNumbers.empty() & md.cellNodes.empty() & md.cellIntData.empty() & md.cellDoubleData.empty() & md.cellStringData.empty() & md.feComps.empty() & md.fixBcs.empty() & md.loadBcs.empty() & md.mpcs.empty(), "everything is dropped"); delete m; REACH("end"); }
// numbers are not cut to 16 bits
HARNESS(many_nodes) { const uint32 NB = 65600; static const uint32 AT[7] = {1, 255, 256, 32800, 65535, 65536, 65600}; MeshData md; for (uint32 i = 0; i < NB; i++) { md.nodesNumbers.push_back(2 * (NB - i) + 5); md.nodesPos.push_back(Vec<3>((double)i, 2., 3.)); } uint32 k = AT[pickU("at", 0, 6)], num = 2 * (NB - (k - 1)) + 5; std::vector<uint32> c{num, 7}; md.cellNodes.push_back(c); md.cellNumbers.push_back(1); fixBC f; f.node = num; f.node_dof = Dof::UZ; f.value = 2.5; md.fixBcs.push_back(f); loadBC l; l.node = num; l.node_dof = Dof::UX; l.value = -1; md.loadBcs.push_back(l); Mpc* m = new Mpc(); m->b = 4; m->eq.push_back(MpcTerm(num, Dof::UX, 2.)); md.mpcs.push_back(m); FEComponent a; a.name = "N"; a.type = FEComponent::NODES; for (uint32 i = 0; i < NB; i++) a.list.push_back(md.nodesNumbers[i]); md.feComps.insert(std::make_pair("N", a)); md.compressNumbers(); auto& L = md.feComps["N"].list; CK(L.size() == NB, "component size"); for (int t = 0; t < 7; t++) { CK(md.nodesNumbers[AT[t] - 1] == AT[t], "node number beyond 65535"); CK(L[AT[t] - 1] == AT[t], "component entry beyond 65535"); } CK(md.cellNodes[0][0] == k && md.cellNodes[0][1] == NB, "cell node beyond 65535"); CK((uint32)md.fixBcs[0].node == k && (uint32)md.loadBcs[0].node == k, "boundary condition beyond 65535"); CK((uint32)m->eq.front().node == k, "equation term beyond 65535"); REACH("end"); }
HARNESS(many_cells) { const uint32 NB = 65600; static const uint32 AT[6] = {0, 255, 256, 65535, 65536, 65599}; MeshData md; uint32 k = AT[pickU("at", 0, 5)], x = symU("node", 1, 100), val = 3; for (uint32 i = 0; i < NB; i++) { md.cellNumbers.push_back(i + 1); md.cellNodes.push_back({i == k ? x : 7, 8}); md.cellIntData["TYPE"].push_back(i == k ? val : 5); } auto d = md.getDegeneratedCells(); if (__sym_fork(x == 8)) CK(d.size() == 1 && d[0] == k, "degenerated cell beyond 65535"); else CK(d.empty(), "no degenerated cell"); auto g = md.getCellsByAttribute("TYPE", val); CK(g.size() == 1 && g[0] == k, "cell with the attribute beyond 65535"); auto o = md.getCellsByAttribute("TYPE", 5); CK(o.size() == NB - 1 && (o[k < 70 ? 70 : 69] == (k < 70 ? 71u : 69u)) && o.back() == (k == NB - 1 ? NB - 2 : NB - 1), "other cells"); REACH("end"); }
