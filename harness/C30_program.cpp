// @symopts --nowarm
// @bounds command lines with any subset of the options in two orders, numbers with a symbolic digit (also negative and fractional), 1..4 material constants, DoF lists of 0..3 labels; curves of 0..4 points with any values; curve files of 1..4 rows (LF/CRLF, with and without last line end), two of them with symbolic digits, equal rows included; paths of 0..6 characters over {letter, dot, slash, backslash}; token texts of 0..5 characters; one-element models with any gap-free or gapped numbering from a menu run through the whole program with reference curves with a symbolic value and any one-digit threshold
// @outside option values that are themselves option names; non-numeric text where a number is expected; timing and log texts other than the reaction table, the rigid body and the difference of the curves; MKL
// @budget 300
#include "symx.h"
#include "sys.h"
#include "FEStorage.h"
#include "FESolver.h"
#include "VtkProcessor.h"
#include "ReactionProcessor.h"
#include "materials/MaterialFactory.h"
#include "FEReaders.h"
#include "sx_capture.h"
struct Quit { int code; };
[[noreturn]] static void h_exit(int c) { throw Quit{c}; }
namespace std { using ::h_exit; }
#define exit h_exit
#define main nla3d_main
#include "../main.cpp"
#undef main
#undef exit
static char dig(const char* n) { char c = symC(n); assume((c >= '0') & (c <= '9')); return c; }
struct Args { std::vector<std::string> v; std::vector<char*> p; void add(const std::string& s) { v.push_back(s); } int run(int (*f)(int, char**)) { p.clear(); for (auto& s : v) p.push_back(&s[0]); p.push_back(nullptr); return f((int)v.size(), p.data()); } };
static int parse(int n, char** a) { return parse_args(n, a); }
// one symbolic digit serves all numbers of an entry: every conversion still has to deliver it in its own place
static char one() { static char d = 0; if (!d) d = dig("digit"); return d; }
static std::string two(int form, double& v) { char a = form & 1 ? one() : '1' + form % 9, b = form & 1 ? '0' + form % 10 : one(); v = (a - '0') * 10 + (b - '0'); std::string s; s.push_back(a); s.push_back(b); return s; }
// which option groups are present is a bit set, their order is forward or backward
static void opts(uint32 set, bool back) { Args a; a.add("nla3d"); a.add("dir/mesh.cdb"); double it = 15, ls = 10, th = 0, mn = 0, mc[4]; int nc = 1 + (set >> 1 & 3), ng = set & 128 ? pickU("dofs", 0, 3) : set >> 2 & 3, nr = ng > 2 ? 2 : ng; std::string sit = "0", sls = "0", sth, smn; static const char* const RD[3] = {"UX", "ROTY", "TEMP"}; static const Dof::dofType RT[3] = {Dof::UX, Dof::ROTY, Dof::TEMP};
  std::vector<std::vector<std::string>> g; if (set & 1) g.push_back({"-novtk"}); { std::vector<std::string> m = {"-material", "Neo-Hookean"}; for (int i = 0; i < nc; i++) { std::string s; char d = i == nc - 1 ? one() : '2' + i; mc[i] = d - '0'; s.push_back(d); if (i == 1) { s = "-" + s; mc[i] = -mc[i]; } if (i == 2) { s = "-." + s; mc[i] = -mc[i] / 10; } if (i == 3) s += ".5", mc[i] += 0.5; m.push_back(s); } g.push_back(m); }
  if (set & 2) { sit = two(3, it); g.push_back({"-iterations", sit}); } if (set & 4) { sls = two(4, ls); g.push_back({"-loadsteps", sls}); } if (set & 8) g.push_back({"-element", "PLANE41"}); if (set & 16) g.push_back({"-refcurve", "c.txt"}); if (set & 32) { sth = two(5, th); g.push_back({"-threshold", "." + sth}); th /= 100; }
  if (set & 64) { std::vector<std::string> m = {"-reaction", "TOP"}; for (int i = 0; i < nr; i++) m.push_back(RD[i]); g.push_back(m); } if (set & 128) { smn = two(6, mn); std::vector<std::string> m = {"-rigidbody", smn, "SIDE"}; for (int i = 0; i < ng; i++) m.push_back(RD[2 - i]); g.push_back(m); }
  for (size_t i = 0; i < g.size(); i++) for (auto& s : g[back ? g.size() - 1 - i : i]) a.add(s);
  int r = -1; try { r = a.run(parse); } catch (Quit&) { CK(false, "a complete command line is accepted"); return; }
  CK(r == 1, "command line is understood"); CK(options::modelFilename == "dir/mesh.cdb", "model file"); CK(options::useVtk == !(set & 1), "-novtk"); CK(options::numberOfIterations == it, "-iterations"); CK(options::numberOfLoadsteps == ls, "-loadsteps"); CK(options::elementType == (set & 8 ? ElementType::PLANE41 : ElementType::SOLID81), "-element"); CK(options::refCurveFilename == (set & 16 ? "c.txt" : ""), "-refcurve"); NEAR(options::curveCompareThreshold, th, 1e-12, "-threshold");
  CK(options::materialName == "Neo-Hookean", "material name"); CK(options::materialConstants.size() == (size_t)nc, "number of constants"); for (int i = 0; i < nc && i < (int)options::materialConstants.size(); i++) NEAR(options::materialConstants[i], mc[i], 1e-12, "material constant");
  CK(options::reactionComponentName == (set & 64 ? "TOP" : ""), "-reaction component"); size_t wr = set & 64 ? nr : 0; CK(options::reactionDofs.size() == wr, "-reaction DoFs"); for (size_t i = 0; i < wr && i < options::reactionDofs.size(); i++) CK(options::reactionDofs[i] == RT[i], "-reaction DoF");
  CK(options::rigidBodySlavesComponent == (set & 128 ? "SIDE" : ""), "-rigidbody component"); CK(options::rigidBodyMasterNode == mn, "-rigidbody master"); std::vector<Dof::dofType> want; if (set & 128) { if (ng) for (int i = 0; i < ng; i++) want.push_back(RT[2 - i]); else want = {Dof::UX, Dof::UY, Dof::UZ}; } CK(options::rigidBodyDofs == want, "-rigidbody DoFs"); REACH("end"); }
HARNESS(options_1) { opts(pickU("set", 0, 63), pickB("backward")); }
HARNESS(options_2) { opts(pickU("set", 1, 3) << 6 | pickU("low", 0, 7) << 3, pickB("backward")); }
HARNESS(refused) { Args a; a.add("nla3d"); int k = pickU("case", 0, 3); if (k) a.add("m.cdb"); if (k == 1) a.add("-novtk"); if (k == 2) { a.add("-novtk"); a.add("-material"); } if (k == 3) { for (const char* s : {"-material", "Neo-Hookean", "1", "2", "-rigidbody", "5"}) a.add(s); } bool q = false; int r = -1; try { r = a.run(parse); } catch (Quit& e) { q = true; CK(e.code == 1, "exit status 1"); } CK(k ? q : !q && r == 0, "an incomplete command line is refused"); if (!k) { q = false; try { a.run(nla3d_main); } catch (Quit& e) { q = e.code == 1; } CK(q, "no arguments: usage and status 1"); } REACH("end"); }
HARNESS(curve_error) { size_t n = pickU("n", 0, 4), m = pickB("same") ? n : pickU("m", 0, 4); std::vector<double> a, b; double sum = 0; for (size_t i = 0; i < n; i++) a.push_back(symD("a", -100, 100)); for (size_t i = 0; i < m; i++) b.push_back(symD("b", -100, 100)); bool q = false; double e = -1; try { e = compareCurves(a, b); } catch (Quit& x) { q = true; CK(x.code == 1, "exit status 1"); } CK(q == (n != m), "curves of different length are refused, others compared"); if (!q && n == m) { for (size_t i = 0; i < n; i++) sum += a[i] > b[i] ? a[i] - b[i] : b[i] - a[i]; NEAR(e * (n ? n : 1), sum, 1e-9, "mean absolute difference"); } REACH("end"); }
// rows of a curve file; the third column counts
static std::string row(double& v, int form, const char* nl, int fixed = -1) { std::string s = "  5.  0.00 \t"; char d = fixed < 0 ? dig("value") : '0' + fixed; v = d - '0'; std::string t; t.push_back(d); if (form == 1) { s += "-"; v = -v; } if (form == 2) { t += ".25"; v += 0.25; } return s + t + nl; }
HARNESS(curve_file) { const char* nl = pickB("crlf") ? "\r\n" : "\n"; int n = pickU("rows", 1, 4); bool last = pickB("last line end"); std::string s = std::string("time  disp  force ") + nl; std::vector<double> w; for (int i = 0; i < n; i++) { double v; s += row(v, i == 0 ? pickU("form", 0, 2) : i == 1 ? 0 : 2, i + 1 < n || last ? nl : "", i < 2 ? -1 : 3); w.push_back(v); } if (pickB("blank line")) s += nl; symFile("c.txt", s); std::vector<double> r; try { r = readRefCurveData("c.txt"); } catch (Quit&) { CK(false, "a proper file is accepted"); } CK(r.size() == w.size(), "one value per row"); for (size_t i = 0; i < r.size() && i < w.size(); i++) NEAR(r[i], w[i], 1e-12, "third column"); REACH("end"); }
HARNESS(curve_refused) { bool miss = pickB("missing"); if (!miss) symFile("c.txt", "time force disp\n 1 2 3\n"); bool q = false; try { readRefCurveData("c.txt"); } catch (Quit& e) { q = e.code == 1; } CK(q, "a file without force column is refused"); REACH("end"); }
static std::string text(const char* al, int lo, int hi) { int n = pickU("length", lo, hi); std::string s; for (int i = 0; i < n; i++) { char c = symC("c"); bool ok = false; for (const char* p = al; *p; p++) ok = ok | (c == *p); assume(ok); s.push_back(c); } return s; }
HARNESS(job_name) { std::string f = text("a./\\", 0, 6), r = getFileNameFromPath(f); size_t cut = f.size(); for (size_t i = f.size(); i-- > 0;) { if (f[i] == '/' || f[i] == '\\') break; if (f[i] == '.') { cut = i; break; } } CK(r == f.substr(0, cut), "the extension of the file is cut, nothing else"); REACH("end"); }
HARNESS(tokens) { static const char* const pool[6] = {"-a", "-b", "x", "-1", "-.5", "--"}; int n = pickU("n", 0, 4); std::vector<std::string> v; std::vector<char*> p; for (int i = 0; i < n; i++) v.push_back(pool[pickU("token", 0, 5)]); for (auto& s : v) p.push_back(&s[0]); char **b = p.data(), **e = b + n; int at = n; for (int i = n - 1; i >= 0; i--) if (v[i] == "-a") at = i; CK(cmdOptionExists(b, e, "-a") == (at < n), "option is found"); char* o = getCmdOption(b, e, "-a"); CK(at + 1 < n ? o == p[at + 1] : o == nullptr, "value after the option"); std::vector<char*> w; for (int i = at + 1; i < n; i++) { if (v[i] == "-a" || v[i] == "-b" || v[i] == "--") break; w.push_back(p[i]); } CK(getCmdManyOptions(b, e, "-a") == w, "values up to the next option, negative numbers included"); REACH("end"); }
HARNESS(power) { int d = pickU("base", 0, 6), e = pickU("power", 0, 6); d -= 3; int w = 1; for (int i = 0; i < e; i++) w *= d; CK(npow(d, e) == w, "integer power"); REACH("end"); }
HARNESS(to_text) { int k = symU("k", 0, 29); CK(toStr(k) == (k < 10 ? std::string(1, '0' + k) : std::string(1, '0' + k / 10) + std::string(1, '0' + k % 10)), "number as text"); CK(toStr(1.5) == "1.5" && toStr(std::string("ab c")) == "ab c", "text of values"); REACH("end"); }
// ---- whole program on one PLANE41 element: bottom fixed, top moved, so that the reactions are not zero
static std::string num(int w, int v) { std::string s = toStr(v); while ((int)s.size() < w) s = " " + s; return s; }
static std::string model(const int* nn, int extra, const char* dtop) { std::string s = "/PREP7\nNBLOCK,6,SOLID,4,4\n(3i9,6e20.13)\n"; static const char* const X[5][2] = {{"0.", "0."}, {"1.", "0."}, {"1.", "1."}, {"0.", "1."}, {"0.", "5."}}; for (int i = 0; i < 4 + (extra > 0); i++) { std::string x = X[i][0], y = X[i][1]; while (x.size() < 20) x = " " + x; while (y.size() < 20) y = " " + y; s += num(9, i < 4 ? nn[i] : extra) + num(9, 0) + num(9, 0) + x + y + "\n"; } s += "N,R5.3,LOC,       -1,\nEBLOCK,19,SOLID,1,1\n(19i9)\n"; for (int v : {1, 1, 1, 1, 0, 0, 0, 0, 4, 0, 1}) s += num(9, v == 4 ? 4 : v); for (int i = 0; i < 4; i++) s += num(9, nn[i]); s += "\n       -1\nCMBLOCK,TOP,NODE,2\n(8i10)\n" + num(10, nn[2]) + num(10, nn[3]) + "\nCMBLOCK,CELLS,ELEM,1\n(8i10)\n" + num(10, 1) + "\n"; for (int i = 0; i < 2; i++) s += "D," + num(5, nn[i]) + ",UX,0.,0.\nD," + num(5, nn[i]) + ",UY,0.,0.\n"; if (dtop) for (int i = 2; i < 4; i++) s += "D," + num(5, nn[i]) + ",UY," + dtop + ",0.\n"; if (extra > 0) for (const char* d : {"UX,0.", "UY,0.25", "UZ,0.", "ROTX,0.", "ROTY,0.", "ROTZ,0."}) s += "D," + num(5, extra) + "," + d + ",0.\n"; return s + "FINISH\n"; }
static const int NN[3][4] = {{1, 2, 3, 4}, {4, 10, 7, 3}, {3, 1, 2, 4}};
// curve of the same model through the library
static std::vector<double> expected(int ls) { FEStorage s; NonlinearFESolver v; s.createNodes(4); static const double X[4][2] = {{0, 0}, {1, 0}, {1, 1}, {0, 1}}; for (int i = 0; i < 4; i++) for (int k = 0; k < 2; k++) s.getNode(i + 1).pos[k] = X[i][k]; s.createElements(1, ElementType::PLANE41); for (int i = 0; i < 4; i++) s.getElement(1).getNodeNumber(i) = i + 1; Material* m = MaterialFactory::createMaterial("Neo-Hookean"); m->Ci(0) = 1; m->Ci(1) = 4; s.material = m; for (int i = 1; i <= 4; i++) { if (i < 3) v.addFix(i, Dof::UX, 0); v.addFix(i, Dof::UY, i < 3 ? 0 : 0.125); } v.attachFEStorage(&s); v.numberOfIterations = 9; v.numberOfLoadsteps = ls; ReactionProcessor* r = new ReactionProcessor(&s); r->nodes = {3, 4}; r->dofs = {Dof::UY}; v.addPostProcessor(r); v.solve(); return r->getReactions(Dof::UY); }
// the printed table: a column per recorded DoF under its label, a row per load step
static void table(const std::string& log, const std::vector<double>& cur, int ls) {  size_t p = log.find("Reactions:\n"); CK(p != std::string::npos, "reactions are printed"); if (p == std::string::npos) return; std::stringstream in(log.substr(p + 11)); std::string l, w; std::getline(in, l); std::vector<std::string> h; { std::stringstream c(l); while (c >> w) h.push_back(w); } CK(h.size() == 2 && h[0] == "Loadstep", "heading of the table"); CK(h[1] == "UY", "the column of the DoF that is moved (the only one constrained at all observed nodes)"); const int uy = 1;
  for (int i = 0; i <= ls; i++) { std::getline(in, l); std::stringstream c(l); int n = -1; c >> n; CK(n == i, "row of a load step"); for (size_t k = 1; k < h.size(); k++) { double v = 1e9; c >> v; if ((int)k == uy) NEAR(v, cur[i], 1e-4, "printed reaction"); if (i == 0) NEAR(v, 0, 1e-12, "printed reaction before the first step"); } CK(!(c >> w), "row ends with the last DoF"); } std::getline(in, l); CK(l.empty() || l.find("INFO") == 0, "table ends with the last load step"); }
HARNESS(run_curve) { int ls = pickU("loadsteps", 1, 2), k = pickU("variant", 0, 3); bool vtk = k & 1, dof = k >> 1, other = k == 3; k %= 3; symFile("m.cdb", model(NN[k], 0, "0.125")); std::vector<double> cur = expected(ls); double err = 0, th; std::string c = "time disp force\n"; int rows = ls + 1 + other; for (int i = 0; i < rows; i++) { double v; c += row(v, 2, "\n", i == 1 ? -1 : i); if (i <= ls) err += (v > cur[i] ? v - cur[i] : cur[i] - v) / (ls + 1); } symFile("c.txt", c);
  Args a; for (const char* s : {"nla3d", "m.cdb", "-element", "PLANE41", "-material", "Neo-Hookean", "1", "4", "-refcurve", "c.txt", "-iterations", "9", "-loadsteps"}) a.add(s); a.add(toStr(ls)); if (!vtk) a.add("-novtk"); a.add("-threshold"); { std::string t; char x = dig("threshold"); th = x - '0'; t.push_back(x); a.add(t); }; a.add("-reaction"); a.add("TOP"); if (dof) a.add("UY"); assume((err - th > 1e-6) | (err - th < -1e-6)); std::string log; el::sx_log() = &log; int rc = -1; try { rc = a.run(nla3d_main); } catch (Quit& e) { rc = e.code; } el::sx_log() = nullptr; table(log, cur, ls);
  if (other) CK(rc == 1, "a curve of other length fails the run"); else CK(rc == ((th > 0) & (err > th) ? 1 : 0), "status tells whether the curve agrees within the threshold"); for (int i = 0; i <= ls + 1; i++) { bool ok = false; symRead(("m" + toStr(i) + ".vtk").c_str(), &ok); CK(ok == (vtk && i <= ls), "one vtk file per load step beside the mesh, none with -novtk"); } REACH("end"); }
HARNESS(run_refused) { int k = pickU("case", 0, 5); symFile("m.cdb", model(NN[0], 0, "0.125")); symFile("c.txt", "time disp force\n 1 2 3\n 1 2 4\n"); Args a; for (const char* s : {"nla3d", "m.cdb", "-element", "PLANE41", "-novtk", "-loadsteps", "1", "-material"}) a.add(s); a.add(k == 1 ? "Steel" : k == 5 ? "UNDEFINED" : "Neo-Hookean"); a.add("1"); if (k != 2) a.add("4"); if (k == 0) { a.add("-refcurve"); a.add("c.txt"); } if (k == 3) { a.add("-reaction"); a.add(pickB("cells") ? "CELLS" : "NOWHERE"); } if (k == 4) { a.add("-rigidbody"); a.add("1"); a.add(pickB("cells") ? "CELLS" : "NOWHERE"); } int rc = -1; try { rc = a.run(nla3d_main); } catch (Quit& e) { rc = e.code; } CK(rc == 1, "a command line the model does not fit is refused with status 1"); REACH("end"); }
// the master node is named by its number in the mesh file; slaves follow it
HARNESS(run_rigid) { static const int M[4] = {9, 5, 1, 12}; static const int N4[4][4] = {{1, 2, 3, 4}, {1, 2, 3, 4}, {4, 10, 7, 3}, {4, 3, 5, 6}}; int k = pickU("numbering", 0, 3); symFile("m.cdb", model(N4[k], M[k], nullptr)); Args a; for (const char* s : {"nla3d", "m.cdb", "-element", "PLANE41", "-loadsteps", "1", "-material", "Neo-Hookean", "1", "4", "-rigidbody"}) a.add(s); a.add(toStr(M[k])); bool swap = pickB("labels in other order"); a.add("TOP"); a.add(swap ? "UY" : "UX"); a.add(swap ? "UX" : "UY"); std::string log; el::sx_log() = &log; int rc = -1; try { rc = a.run(nla3d_main); } catch (Quit& e) { rc = e.code; } el::sx_log() = nullptr; CK(rc == 0, "run succeeds"); CK(log.find(swap ? "[UY, UX]" : "[UX, UY]") != std::string::npos && log.find("number of slaves = 2,") != std::string::npos, "rigid body is announced with its slaves and DoFs"); bool ok = false; std::string t = symRead("m1.vtk", &ok); CK(ok, "result file"); size_t p = t.find("VECTORS disp float"); CK(p != std::string::npos, "displacements"); if (p != std::string::npos) { std::stringstream in(t.substr(p + 18)); for (int i = 0; i < 5; i++) for (int c = 0; c < 3; c++) { double v = 99; in >> v; NEAR(v, c == 1 && i >= 2 ? 0.25 : 0, 1e-5, "slaves move with the master, the fixed side stays"); } } REACH("end"); }
