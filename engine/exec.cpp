#include <unordered_set>
#include "exec.h"
#include <llvm/IRReader/IRReader.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/ADT/StringExtras.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/ConstantFold.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#include <fcntl.h>
#include <signal.h>
#include <unistd.h>
#include <cmath>
#include <cfloat>
#include <iostream>
#include <sstream>
#include <algorithm>
using namespace llvm;

// ------------------------------------------------------------------ globals
static LLVMContext g_ctx; static std::unique_ptr<Module> M; static const DataLayout* DL;
static Solver* S; static std::vector<E> g_pc; static Model g_model; static bool g_modelOk = true;
static std::vector<std::unique_ptr<Frame>> g_stack;
static int g_out = -1; static bool g_fp = false, g_divCheck = false, g_rootCheck = false, g_checkRaw = true; static int g_expectFatal = 0;
static uint64_t g_instr = 0, g_maxInstr = 400000000ull; static int g_warm = 0, g_warmMode = 0; static bool g_warmOn = true;   // warm-up: the entry is executed once on concrete values before the symbolic run, so that state left over from an earlier use is part of every path
static long g_maxPaths = 20000; static long g_maxViol = 12;
static bool g_uncertain = false; static std::string g_entry;
static std::vector<std::pair<std::string, Val>> g_obs; static std::vector<std::string> g_reach;
static std::map<std::string, int> g_nameCount; static std::set<std::string> g_violLabels;
static std::vector<std::pair<E, std::string>> g_known;     // (condition, tag) : goals failing only under a known-finding condition
static int g_pathsConc = 0;
static bool g_debug = false;

// ------------------------------------------------------------------ output
static std::string jstr(const std::string& s) { std::string r = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }
static void emit(const std::string& s) { std::string t = s + "\n"; if (write(g_out, t.data(), t.size()) < 0) {} }
static std::string dstr(double d) { char b[64]; if (std::isnan(d)) return "\"nan\""; if (std::isinf(d)) return d > 0 ? "\"inf\"" : "\"-inf\""; snprintf(b, 64, "%.17g", d); return b; }
static std::string modelStr(const Model& m) { std::string s = "{"; for (size_t i = 0; i < g_vars.size(); i++) { if (i) s += ","; s += jstr(g_vars[i].name) + ":"; if (g_vars[i].sort == S_BV) s += std::to_string(i < m.u.size() ? m.u[i] : 0); else s += dstr(i < m.d.size() ? m.d[i] : 0); } if (g_warmMode) { if (!g_vars.empty()) s += ","; s += "\"__warm\":" + std::to_string(g_warmMode); } return s + "}"; }
static std::string where() { std::string s; for (int i = (int)g_stack.size() - 1, n = 0; i >= 0 && n < 6; i--, n++) { std::string f = demangle(g_stack[i]->f->F->getName().str()); if (f.size() > 120) f.resize(120); s += (n ? " < " : "") + f; } return s; }
[[noreturn]] static void finish() { if (g_warm) _exit(1); g_sh->instrs += g_instr; g_sh->live--; _exit(0); }
static void mergeModel(Model& m, const std::vector<E>& cs) {   // keep variables not mentioned in cs from the current path model
  std::set<uint32_t> in; for (E c : cs) { std::vector<E> v; collectVars(c, v); for (E x : v) if (x->op != O_RFUN) in.insert(x->c); }
  m.d.resize(g_vars.size()); m.u.resize(g_vars.size());
  for (size_t i = 0; i < g_vars.size(); i++) if (!in.count(i)) { if (i < g_model.d.size()) { m.d[i] = g_model.d[i]; m.u[i] = g_model.u[i]; } }
}
static void ensureModel() { g_model.d.resize(g_vars.size()); g_model.u.resize(g_vars.size()); }
static void violation(const std::string& kind, const std::string& label, const std::string& detail, const Model& m) {
  if (g_warm) _exit(1);
  g_sh->violations++;
  emit("{\"type\":\"violation\",\"entry\":" + jstr(g_entry) + ",\"kind\":" + jstr(kind) + ",\"label\":" + jstr(label) + ",\"detail\":" + jstr(detail) + ",\"where\":" + jstr(where()) + ",\"uncertain\":" + (g_uncertain ? "true" : "false") + ",\"model\":" + modelStr(m) + "}");
  if (g_sh->violations >= g_maxViol) g_sh->stop = 1;
}
[[noreturn]] static void inconclusive(const std::string& why) {
  if (g_warm) _exit(1);
  g_sh->inconclusive++; ensureModel();
  emit("{\"type\":\"inconclusive\",\"entry\":" + jstr(g_entry) + ",\"reason\":" + jstr(why) + ",\"where\":" + jstr(where()) + ",\"model\":" + modelStr(g_model) + "}");
  finish();
}
static void noteInconclusive(const std::string& why) { if (g_warm) _exit(1); g_sh->inconclusive++; ensureModel(); emit("{\"type\":\"inconclusive\",\"entry\":" + jstr(g_entry) + ",\"reason\":" + jstr(why) + ",\"where\":" + jstr(where()) + ",\"model\":" + modelStr(g_model) + "}"); }
[[noreturn]] static void endPath(const char* st) {
  if (g_warm) _exit(1);
  g_sh->okPaths++;
  ensureModel();
  bool sample = g_sh->samples.fetch_add(1) < 40 && g_modelOk;
  if (sample) {
    Evaluator ev(g_model); bool ok = true; for (E c : g_pc) if (!ev.evb(c)) ok = false;
    if (ok) {
      std::string s = "{\"type\":\"sample\",\"entry\":" + jstr(g_entry) + ",\"status\":" + jstr(st) + ",\"model\":" + modelStr(g_model) + ",\"reach\":[";
      for (size_t i = 0; i < g_reach.size(); i++) s += (i ? "," : "") + jstr(g_reach[i]);
      s += "],\"obs\":{"; std::map<std::string, int> cnt;
      for (size_t i = 0; i < g_obs.size(); i++) { double d; if (g_obs[i].second.e) { EV v = ev.ev(g_obs[i].second.e); d = g_obs[i].second.e->sort == S_REAL || g_obs[i].second.e->sort == S_FP ? v.d : (double)v.u; } else memcpy(&d, &g_obs[i].second.b, 8);
        std::string n = g_obs[i].first; int k = cnt[n]++; if (k) n += "#" + std::to_string(k); s += (i ? "," : "") + jstr(n) + ":" + dstr(d); }
      emit(s + "}}");
    }
  }
  if (!g_reach.empty() && g_sh->witness == 0) {           // vacuity witness: the path condition itself is satisfiable according to the solver
    Model m; SatR r = S->query(g_pc, &m, 0, false); if (r == R_SAT) g_sh->witness++;
  }
  finish();
}
static void deadlineCheck() { static int n = 0; if (g_sh->stop) finish(); if ((++n & 15) == 0 && nowSec() * 1000 > g_sh->deadline_ms) inconclusive("time budget of the check exhausted"); }

// ------------------------------------------------------------------ forking
static void addPc(E c) { if (c->op == O_TRUE) return; if (c->op == O_AND) { addPc(c->k[0]); addPc(c->k[1]); return; } g_pc.push_back(c); long n = g_pc.size(); if (n > g_sh->maxPathCond) g_sh->maxPathCond = n; }
static bool modelSays(E c, bool& val) { if (!g_modelOk) return false; ensureModel(); Evaluator ev(g_model); val = ev.evb(c); return true; }
// returns truth value taken on this path; forks when both sides are possible
static bool branch(E c) {
  if (c->op == O_TRUE) return true; if (c->op == O_FALSE) return false;
  deadlineCheck();
  E nc = S->normCmp(c); if (nc->op == O_TRUE) return true; if (nc->op == O_FALSE) return false;
  for (E p : g_pc) { if (p == c || p == nc) return true; } E notc = mkNot(c); for (E p : g_pc) if (p == notc) return false;
  bool mv; bool have = modelSays(c, mv);
  Model mT, mF; bool feasT = false, feasF = false; bool unk = false;
  auto test = [&](E g, Model& m) { std::vector<E> cs = sliceFor(g_pc, g); cs.push_back(g); SatR r = S->query(cs, &m, 600000); if (r == R_SAT) { mergeModel(m, cs); return true; } if (r == R_UNK) { unk = true; return true; } return false; };
  bool unkT = false, unkF = false;
  if (have && mv) { feasT = true; mT = g_model; } else { feasT = test(c, mT); unkT = unk; unk = false; }
  if (have && !mv) { feasF = true; mF = g_model; } else { feasF = test(notc, mF); unkF = unk; unk = false; }
  if (!feasT && !feasF) { if (!g_warm) g_sh->assumeKilled++; finish(); }
  if (!feasF) { if (!have) { if (!unkT) { g_model = mT; g_modelOk = true; } } return true; }
  if (!feasT) { if (!have) { if (!unkF) { g_model = mF; g_modelOk = true; } } return false; }
  // both: fork
  if (g_sh->paths >= g_maxPaths) inconclusive("path bound exceeded");
  g_sh->forks++; g_sh->paths++;
  while (waitpid(-1, nullptr, WNOHANG) > 0) {}
  bool par = false; long l = g_sh->live; while (l < g_maxProcs) { if (g_sh->live.compare_exchange_weak(l, l + 1)) { par = true; break; } }
  bool parentSide = have ? mv : true;
  pid_t pid = fork();
  if (pid < 0) inconclusive("fork failed");
  if (pid == 0) { g_instr = 0; bool side = !parentSide; addPc(side ? c : notc); g_model = side ? mT : mF; bool u = side ? unkT : unkF; g_modelOk = !u; if (u) g_uncertain = true; return side; }
  if (!par) { int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {} if (!WIFEXITED(st) || WEXITSTATUS(st)) { g_sh->inconclusive++; emit("{\"type\":\"inconclusive\",\"entry\":" + jstr(g_entry) + ",\"reason\":\"path process died\",\"where\":\"\",\"model\":{}}"); } else {} g_sh->live++; }
  addPc(parentSide ? c : notc); g_model = parentSide ? mT : mF; bool u = parentSide ? unkT : unkF; g_modelOk = !u; if (u) g_uncertain = true;
  if (g_sh->stop) finish();
  return parentSide;
}
static void assumeC(E c) {
  if (c->op == O_TRUE) return; if (c->op == O_FALSE) { if (!g_warm) g_sh->assumeKilled++; finish(); }
  bool mv; if (modelSays(c, mv) && mv) { addPc(c); return; }
  std::vector<E> cs = sliceFor(g_pc, c); cs.push_back(c); Model m; SatR r = S->query(cs, &m);
  if (r == R_UNSAT) { if (!g_warm) g_sh->assumeKilled++; finish(); }
  addPc(c); if (r == R_SAT) { mergeModel(m, cs); g_model = m; g_modelOk = true; } else { g_modelOk = false; g_uncertain = true; }
}
static E firstIte(E e) { std::unordered_set<uint32_t> seen; std::vector<E> st{e}; while (!st.empty()) { E x = st.back(); st.pop_back(); if (!seen.insert(x->id).second) continue; if (x->op == O_VITE && x->k[0]->sort == S_BOOL) { E c = x->k[0]; std::vector<E> vs; collectVars(c, vs); bool real = false; for (E v : vs) if (v->sort != S_BV) real = true; if (real) return x; } for (int i = 0; i < 3; i++) if (x->k[i] && x->k[i]->sort == S_BV) st.push_back(x->k[i]); } return nullptr; }
static E substIte(E e, E cond, bool val, std::unordered_map<uint32_t, E>& mm) {
  auto it = mm.find(e->id); if (it != mm.end()) return it->second; E r = e; auto S2 = [&](int i) { return substIte(e->k[i], cond, val, mm); };
  switch (e->op) {
    case O_VITE: r = e->k[0] == cond ? S2(val ? 1 : 2) : mkIte(e->k[0], S2(1), S2(2)); break;
    case O_VADD: case O_VSUB: case O_VMUL: case O_UDIV: case O_SDIV: case O_UREM: case O_SREM: case O_VAND: case O_VOR: case O_VXOR: case O_SHL: case O_LSHR: case O_ASHR: r = mkV(e->op, S2(0), S2(1)); break;
    case O_ZEXT: r = mkZext(S2(0), e->w); break; case O_SEXT: r = mkSext(S2(0), e->w); break; case O_EXTRACT: r = mkExtract(S2(0), (int)e->c, e->w); break; case O_CONCAT: r = mkConcat(S2(0), S2(1)); break; default: break; }
  mm[e->id] = r; return r; }
static uint64_t concretize(Val v, int w) {
  if (!v.e) return v.b;
  E e = v.e; if (e->sort == S_BOOL) e = boolToBV(e, w); if (e->sort != S_BV) inconclusive("concretising a symbolic double");
  // a value selected by conditions: decide the conditions, one at a time, instead of asking for a model
  for (int guard = 0; guard < 400 && e->op != O_VCONST; guard++) { E ite = firstIte(e); if (!ite) break; bool t = branch(ite->k[0]); std::unordered_map<uint32_t, E> mm; e = substIte(e, ite->k[0], t, mm); }
  if (e->op == O_VCONST) return e->c;
  for (;;) {
    if (!g_modelOk) { Model m; SatR r = S->query(g_pc, &m); if (r != R_SAT) inconclusive("no model to concretise an integer"); g_model = m; g_modelOk = true; }
    ensureModel(); Evaluator ev(g_model); uint64_t x = ev.ev(e).u;
    if (branch(mkCmp(O_EQ, e, mkBV(x, e->w)))) return x;
  }
}

// ------------------------------------------------------------------ goals
static Val mkD(double d) { Val v; memcpy(&v.b, &d, 8); v.e = nullptr; return v; }
static double asD(Val v) { double d; memcpy(&d, &v.b, 8); return d; }
// --snap: a double that is the rounded value of a fraction with a small denominator stands for that fraction
static bool g_snap = false;
static E snapR(double d) {
  double a = std::fabs(d); if (!g_snap || !(a > 1e-6 && a < 1e6) || a * 4096 == std::floor(a * 4096)) return mkRd(d);
  for (int q = 3; q <= 720; q++) { double p = std::round(a * q); if (p > 0 && std::fabs(p / q - a) <= a * 2.3e-16) { mpq_class r((long)p, q); r.canonicalize(); if (d < 0) r = -r; return mkR(r); } }
  return mkRd(d); }
static E toR(Val v) { if (v.e) return v.e; return snapR(asD(v)); }
static void goalBool(E c, const std::string& label, const std::string& kind) {
  g_sh->goals++;
  if (c->op == O_TRUE) { g_sh->goalsConcrete++; return; }
  ensureModel();
  E bad = mkNot(c);
  if (bad->op == O_TRUE) { violation(kind, label, "assertion is false on this path", g_model); finish(); }
  Model m; std::vector<E> cs = sliceFor(g_pc, bad); cs.push_back(bad);
  SatR r = S->query(cs, &m);
  if (r == R_SAT) { mergeModel(m, cs); violation(kind, label, "solver model", m); assumeC(c); }
  else if (r == R_UNK) { noteInconclusive("solver gave no answer for " + label); }
  else g_sh->goalsSolver++;
}
static bool sampleDisagree(E a, E b, double tol, Model& out) {
  // a fast search for a counterexample; any hit is replayed natively before it is reported
  std::vector<E> cs = g_pc; E d = mkRop(O_RSUB, a, b);
  std::vector<E> all = sliceFor(g_pc, d);
  for (int t = 0; t < 12; t++) {
    Model m; std::vector<E> cs2 = all; 
    bool ok;
    if (t == 0 && g_modelOk) { ensureModel(); m = g_model; ok = true; }
    else { E triv = mkRcmp(O_REQ, d, d); (void)triv; std::vector<E> v; collectVars(d, v); std::vector<E> q = all; 
      // bring the variables of d into the sampled set
      for (E x : v) if (x->op == O_RVAR && g_vars[x->c].lo > -1e300) q.push_back(mkRcmp(O_RLE, mkRd(g_vars[x->c].lo), x));
      ok = S->guess(q, m, 40, g_modelOk ? &g_model : nullptr); if (ok) mergeModel(m, q); }
    if (!ok) continue;
    Evaluator ev(m); double x = ev.ev(a).d, y = ev.ev(b).d; double sc = std::max(1.0, std::max(std::fabs(x), std::fabs(y)));
    double th = tol > 0 ? tol * 1.5 : 1e-6 * sc;
    if (!(std::fabs(x - y) <= th)) {
      if (std::isfinite(x) && std::isfinite(y)) { EvaluatorMP mp(m); mpf_class df = abs(mp.ev(a) - mp.ev(b)); bool pcok = true; for (E c : all) if (!mp.evb(c)) { pcok = false; break; } if (mp.bad || !pcok || df <= th) continue; }
      out = m; return true; }
  }
  return false;
}
static void goalEq(Val va, Val vb, double tol, const std::string& label) {
  g_sh->goals++;
  if (!va.e && !vb.e) {
    double x = asD(va), y = asD(vb); double sc = std::max(1.0, std::max(std::fabs(x), std::fabs(y)));
    double th = tol > 0 ? tol : 1e-9 * sc; ensureModel();
    if (!(std::fabs(x - y) <= th)) { violation("eq", label, "values " + std::to_string(x) + " and " + std::to_string(y), g_model); finish(); }
    g_sh->goalsConcrete++; return;
  }
  if ((!va.e && !std::isfinite(asD(va))) || (!vb.e && !std::isfinite(asD(vb)))) { ensureModel(); violation("eq", label, "non-finite value", g_model); return; }
  if ((va.e && va.e->sort == S_FP) || (vb.e && vb.e->sort == S_FP)) {
    E a = va.e ? va.e : mkFd(asD(va)), b = vb.e ? vb.e : mkFd(asD(vb)); g_sh->goals--; goalBool(mkFcmp(O_FEQ, a, b), label, "eq"); return; }
  E a = toR(va), b = toR(vb);
  if (a == b) { g_sh->goalsSyntactic++; return; }
  Model m;
  if (sampleDisagree(a, b, tol, m)) { violation("eq", label, "model found", m); return; }
  E d = mkRop(O_RSUB, a, b);
  bool proved = false;
  try {
    FracP f = S->poly.expand(d); Poly n = f->n; std::map<int,int> den = f->den;
    Poly rd = S->poly.reduce(n);
    g_sh->polyTerms += n.size();
    if (rd.empty()) n.clear(), den.clear();
    if (tol > 0) {
      SatR r = S->lraNear(n, den, tol);
      if (r == R_UNSAT) proved = true;
    }
    if (!proved) {
      // negated goal, in sum-of-monomials form, decided by the solver under the path condition
      E goal = mkRcmp(O_REQ, S->poly.toExpr(tol > 0 ? n : rd), mkRd(0));
      if (tol > 0) { E z = S->poly.toExpr(n); E D = mkRd(1); for (auto& x : den) for (int i = 0; i < x.second; i++) D = mkRop(O_RMUL, D, S->poly.toExpr(S->poly.factors[x.first])); E q = mkRop(O_RDIV, z, D); goal = mkAnd(mkRcmp(O_RLE, q, mkRd(tol)), mkRcmp(O_RLE, mkRd(-tol), q)); }
      E bad = mkNot(goal);
      if (bad->op == O_FALSE) { z3::solver s(S->ctx); s.add(S->tr(bad)); g_sh->queries++; if (s.check() == z3::unsat) { g_sh->qunsat++; proved = true; } }
      else { std::vector<E> cs = sliceFor(g_pc, bad); cs.push_back(bad); SatR r = S->query(cs, &m); if (r == R_UNSAT) proved = true; else if (r == R_SAT) { mergeModel(m, cs); violation("eq", label, "solver model", m); return; } }
    }
    // cross-check of the normaliser: give small goals to the solver un-normalised as well
    if (proved && tol <= 0 && g_checkRaw && g_sh->goalsRaw < 200 && dagSize(d, 60) <= 60) {
      E rawbad = mkNot(mkRcmp(O_REQ, a, b)); std::vector<E> cs{rawbad}; z3::expr_vector sd(S->ctx); S->sides(cs, sd);
      g_sh->goalsRaw++; z3::solver s(S->ctx, "QF_NRA"); z3::params p(S->ctx); p.set("rlimit", 400000u); s.set(p); s.add(S->tr(rawbad)); for (unsigned i = 0; i < sd.size(); i++) s.add(sd[i]);
      for (E c : sliceFor(g_pc, rawbad)) s.add(S->tr(c));
      double t0 = nowSec(); z3::check_result r = s.check(); g_sh->solver_us += (long)((nowSec() - t0) * 1e6); g_sh->queries++;
      if (r == z3::unsat) g_sh->rawAgree++, g_sh->qunsat++; else if (r == z3::sat) noteInconclusive("normaliser and solver disagree on " + label); else g_sh->qunk++;
    }
  } catch (PolyLimit&) {
    std::vector<E> cs = sliceFor(g_pc, d); cs.push_back(tol > 0 ? mkOr(mkRcmp(O_RLT, mkRd(tol), d), mkRcmp(O_RLT, d, mkRd(-tol))) : mkNot(mkRcmp(O_REQ, a, b)));
    SatR r = S->query(cs, &m); if (r == R_UNSAT) proved = true; else if (r == R_SAT) { mergeModel(m, cs); violation("eq", label, "solver model", m); return; }
  }
  if (proved) g_sh->goalsSolver++; else noteInconclusive("no verdict for " + label);
}

// ------------------------------------------------------------------ memory
static const uint64_t ARENA = 0x200000000000ull, ARENA_SZ = 8ull << 30; static uint64_t g_brk = ARENA; static uint32_t* g_shadow; static std::vector<Obj*> g_objs;
static std::unordered_map<uint64_t, Function*> g_fnAddr; static std::unordered_map<const GlobalValue*, uint64_t> g_gaddr;
static void memInit() {
  void* p = mmap((void*)ARENA, ARENA_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0); if (p != (void*)ARENA) { perror("mmap arena"); exit(3); }
  g_shadow = (uint32_t*)mmap(nullptr, ARENA_SZ / 16 * 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); g_objs.push_back(nullptr);
}
static Obj* allocObj(uint64_t size, uint8_t kind) {
  uint64_t n = (size + 15) & ~15ull; if (n == 0) n = 16;
  if (g_brk + n + 64 > ARENA + ARENA_SZ || size > (1ull << 31)) inconclusive("memory bound exceeded");
  Obj* o = new Obj{g_brk, size, false, kind, nullptr}; uint32_t id = g_objs.size(); g_objs.push_back(o);
  for (uint64_t a = 0; a < n; a += 16) g_shadow[(g_brk - ARENA + a) >> 4] = id;
  if (kind < 2) memset((void*)g_brk, 0xFE, n);
  g_brk += n + 16; return o;
}
static Obj* findObj(uint64_t a) { if (a < ARENA || a >= ARENA + ARENA_SZ) return nullptr; uint32_t id = g_shadow[(a - ARENA) >> 4]; return id ? g_objs[id] : nullptr; }
[[noreturn]] static void memError(const std::string& what, uint64_t a, uint64_t sz) {
  ensureModel(); std::ostringstream s; s << what << " of " << sz << " bytes"; Obj* o = findObj(a); if (o) s << " at offset " << (int64_t)(a - o->base) << " of a " << o->size << "-byte " << (o->kind == 0 ? "heap" : o->kind == 1 ? "stack" : "global") << " object" << (o->freed ? " (freed)" : ""); else s << " at invalid address " << a;
  violation("memory", what, s.str(), g_model); finish();
}
static Obj* access(uint64_t a, uint64_t sz, const char* what) { Obj* o = findObj(a); if (!o || o->freed || a + sz > o->base + o->size || o->kind == 3) memError(what, a, sz); return o; }
static E byteOf(const Cell& c, int i) { E e = c.e; if (e->sort == S_BOOL) e = boolToBV(e, 8 * c.sz); if (e->sort != S_BV) inconclusive("partial access to a symbolic double"); return mkExtract(e, 8 * i, 8); }
static void clearCells(Obj* o, uint32_t off, uint32_t sz) {
  if (!o->sym || o->sym->empty()) return; auto& m = *o->sym;
  auto it = m.lower_bound(off >= 8 ? off - 7 : 0);
  while (it != m.end() && it->first < off + sz) {
    uint32_t s = it->first, e = s + it->second.sz; if (e <= off) { ++it; continue; }
    if (s >= off && e <= off + sz) { it = m.erase(it); continue; }
    Cell c = it->second; it = m.erase(it);
    for (uint32_t b = s; b < e; b++) if (b < off || b >= off + sz) m[b] = Cell{byteOf(c, b - s), 1};
    it = m.lower_bound(off >= 8 ? off - 7 : 0); 
    bool any = false; for (auto jt = it; jt != m.end() && jt->first < off + sz; ++jt) if (jt->first + jt->second.sz > off) any = true; if (!any) break;
  }
}
static Val loadMem(uint64_t a, uint32_t sz, TK tk, int w) {
  Obj* o = access(a, sz, "out-of-bounds or stale read"); uint32_t off = a - o->base;
  if (o->sym && !o->sym->empty()) {
    auto& m = *o->sym; auto it = m.find(off);
    if (it != m.end() && it->second.sz == sz) { E e = it->second.e; if (tk == T_INT && w < (int)sz * 8 && e->sort == S_BV) { e = mkExtract(e, 0, w); if (w == 1) e = mkCmp(O_EQ, e, mkBV(1, 1)); } else if (tk == T_INT && w == 1 && e->sort == S_BV) e = mkNot(mkCmp(O_EQ, e, mkBV(0, e->w))); return Val{0, e}; }
    bool any = false; for (auto jt = m.lower_bound(off >= 8 ? off - 7 : 0); jt != m.end() && jt->first < off + sz; ++jt) if (jt->first + jt->second.sz > off) { any = true; break; }
    if (any) {
      E r = nullptr;
      for (uint32_t b = 0; b < sz; b++) {
        E by = nullptr; auto jt = m.upper_bound(off + b); if (jt != m.begin()) { --jt; if (jt->first <= off + b && off + b < jt->first + jt->second.sz) by = byteOf(jt->second, off + b - jt->first); }
        if (!by) by = mkBV(*(uint8_t*)(a + b), 8);
        r = r ? mkConcat(by, r) : by;
      }
      if (r->op == O_VCONST) return Val{r->c, nullptr};
      if (tk == T_INT && w < (int)sz * 8) r = mkExtract(r, 0, w); if (tk == T_INT && w == 1) r = mkCmp(O_EQ, r, mkBV(1, 1));
      if (tk == T_DBL || tk == T_FLT) inconclusive("double assembled from symbolic bytes");
      return Val{0, r};
    }
  }
  uint64_t v = 0; memcpy(&v, (void*)a, sz); if (tk == T_INT && w < 64) v &= maskw(w); return Val{v, nullptr};
}
static void storeMem(uint64_t a, uint32_t sz, Val v) {
  Obj* o = access(a, sz, "out-of-bounds or stale write"); uint32_t off = a - o->base;
  if (o->sym) clearCells(o, off, sz);
  if (v.e) { E e = v.e; if (e->sort == S_BOOL) e = boolToBV(e, sz * 8); else if (e->sort == S_BV && e->w < (int)sz * 8) e = mkZext(e, sz * 8); if (!o->sym) o->sym = new std::map<uint32_t, Cell>; (*o->sym)[off] = Cell{e, (uint8_t)sz}; }
  else memcpy((void*)a, &v.b, sz);
}
static void copyMem(uint64_t d, uint64_t s, uint64_t n) {
  if (!n) return; Obj* so = access(s, n, "out-of-bounds or stale read (copy)"); Obj* dob = access(d, n, "out-of-bounds or stale write (copy)");
  uint32_t so_ = s - so->base, do_ = d - dob->base; std::vector<std::pair<uint32_t, Cell>> cells;
  if (so->sym && !so->sym->empty()) { auto& m = *so->sym; for (auto it = m.lower_bound(so_ >= 8 ? so_ - 7 : 0); it != m.end() && it->first < so_ + n; ++it) { uint32_t b = it->first, e = b + it->second.sz; if (e <= so_) continue;
      if (b >= so_ && e <= so_ + n) cells.emplace_back(b - so_, it->second); else for (uint32_t x = b; x < e; x++) if (x >= so_ && x < so_ + n) cells.emplace_back(x - so_, Cell{byteOf(it->second, x - b), 1}); } }
  if (dob->sym) clearCells(dob, do_, n);
  memmove((void*)d, (void*)s, n);
  if (!cells.empty()) { if (!dob->sym) dob->sym = new std::map<uint32_t, Cell>; for (auto& c : cells) (*dob->sym)[do_ + c.first] = c.second; }
}
static std::string cstr(uint64_t a) { std::string s; for (;;) { Obj* o = access(a, 1, "string read"); (void)o; char c = *(char*)a++; if (!c) break; s += c; if (s.size() > 4000) break; } return s; }

// ------------------------------------------------------------------ lowering
static void leavesOf(Type* T, uint32_t base, std::vector<Leaf>& out) {
  if (auto* st = dyn_cast<StructType>(T)) { auto* sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) leavesOf(st->getElementType(i), base + (uint32_t)sl->getElementOffset(i).getFixedValue(), out); return; }
  if (auto* at = dyn_cast<ArrayType>(T)) { uint64_t es = DL->getTypeAllocSize(at->getElementType()); for (uint64_t i = 0; i < at->getNumElements(); i++) leavesOf(at->getElementType(), base + i * es, out); return; }
  if (auto* vt = dyn_cast<FixedVectorType>(T)) { uint64_t bits = DL->getTypeSizeInBits(vt->getElementType()); for (unsigned i = 0; i < vt->getNumElements(); i++) leavesOf(vt->getElementType(), base + i * bits / 8, out); return; }
  Leaf l; l.off = base; l.w = 0; l.tk = T_BAD;
  if (T->isIntegerTy()) { l.tk = T->getIntegerBitWidth() <= 64 ? T_INT : T_BAD; l.w = T->getIntegerBitWidth(); } else if (T->isPointerTy()) { l.tk = T_PTR; l.w = 64; } else if (T->isDoubleTy()) { l.tk = T_DBL; l.w = 64; } else if (T->isFloatTy()) { l.tk = T_FLT; l.w = 32; } else if (T->isX86_FP80Ty()) { l.tk = T_LDBL; l.w = 80; }
  out.push_back(l);
}
static std::vector<Leaf>* leafCache(Type* T) { static std::map<Type*, std::vector<Leaf>*> c; auto& p = c[T]; if (!p) { p = new std::vector<Leaf>; leavesOf(T, 0, *p); } return p; }
static int leafBytes(const Leaf& l) { return l.tk == T_LDBL ? 16 : (l.w + 7) / 8; }
static uint64_t gaddr(const GlobalValue* g);
static void constVals(const Constant* C, std::vector<Val>& out) {
  Type* T = C->getType();
  if (isa<UndefValue>(C)) { for (auto& l : *leafCache(T)) { Val v{0, nullptr}; if (l.tk == T_DBL) v.b = 0xFEFEFEFEFEFEFEFEull; (void)l; out.push_back(v); } return; }
  if (isa<ConstantAggregateZero>(C) || isa<ConstantPointerNull>(C) || isa<ConstantTokenNone>(C)) { for (size_t i = 0; i < leafCache(T)->size(); i++) out.push_back(Val{0, nullptr}); return; }
  if (auto* ci = dyn_cast<ConstantInt>(C)) { if (ci->getBitWidth() > 64) { out.push_back(Val{ci->getValue().getLoBits(64).getZExtValue(), nullptr}); } else out.push_back(Val{ci->getZExtValue(), nullptr}); return; }
  if (auto* cf = dyn_cast<ConstantFP>(C)) { if (T->isDoubleTy()) out.push_back(Val{cf->getValueAPF().bitcastToAPInt().getZExtValue(), nullptr}); else if (T->isFloatTy()) out.push_back(Val{cf->getValueAPF().bitcastToAPInt().getZExtValue(), nullptr}); else { bool li; APFloat f = cf->getValueAPF(); f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li); out.push_back(Val{f.bitcastToAPInt().getZExtValue(), nullptr}); } return; }
  if (auto* cd = dyn_cast<ConstantDataSequential>(C)) { for (unsigned i = 0; i < cd->getNumElements(); i++) constVals(cd->getElementAsConstant(i), out); return; }
  if (isa<ConstantAggregate>(C)) { for (unsigned i = 0; i < C->getNumOperands(); i++) constVals(cast<Constant>(C->getOperand(i)), out); return; }
  if (auto* ga = dyn_cast<GlobalAlias>(C)) { constVals(ga->getAliasee(), out); return; }
  if (auto* gv = dyn_cast<GlobalValue>(C)) { out.push_back(Val{gaddr(gv), nullptr}); return; }
  if (auto* ce = dyn_cast<ConstantExpr>(C)) {
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: { APInt off(64, 0); cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off); std::vector<Val> b; constVals(cast<Constant>(ce->getOperand(0)), b); out.push_back(Val{b[0].b + off.getSExtValue(), nullptr}); return; }
      case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: { std::vector<Val> b; constVals(cast<Constant>(ce->getOperand(0)), b); out.push_back(b[0]); return; }
      case Instruction::Trunc: { std::vector<Val> b; constVals(cast<Constant>(ce->getOperand(0)), b); out.push_back(Val{b[0].b & maskw(T->getIntegerBitWidth()), nullptr}); return; }
      case Instruction::Sub: case Instruction::Add: { std::vector<Val> a, b; constVals(cast<Constant>(ce->getOperand(0)), a); constVals(cast<Constant>(ce->getOperand(1)), b); out.push_back(Val{ce->getOpcode() == Instruction::Sub ? a[0].b - b[0].b : a[0].b + b[0].b, nullptr}); return; }
      case Instruction::ICmp: { std::vector<Val> a, b; constVals(cast<Constant>(ce->getOperand(0)), a); constVals(cast<Constant>(ce->getOperand(1)), b); auto p = ce->getPredicate(); bool r = p == CmpInst::ICMP_EQ ? a[0].b == b[0].b : p == CmpInst::ICMP_NE ? a[0].b != b[0].b : p == CmpInst::ICMP_ULT ? a[0].b < b[0].b : a[0].b > b[0].b; out.push_back(Val{r, nullptr}); return; }
      default: break;
    }
  }
  std::string s; raw_string_ostream os(s); C->print(os); inconclusive("constant not supported: " + s);
}
static std::set<const GlobalVariable*> g_inited;
static void initGlobal(const GlobalVariable* gv, Obj* o) {
  if (!gv->hasInitializer()) return; if (!g_inited.insert(gv).second) return;
  std::vector<Val> vs; constVals(gv->getInitializer(), vs); auto* lv = leafCache(gv->getValueType());
  for (size_t i = 0; i < lv->size() && i < vs.size(); i++) { int n = leafBytes((*lv)[i]); if (n > 8) { memset((void*)(o->base + (*lv)[i].off), 0, n); n = 8; } memcpy((void*)(o->base + (*lv)[i].off), &vs[i].b, n); }
}
static uint64_t gaddr(const GlobalValue* g) {
  auto it = g_gaddr.find(g); if (it != g_gaddr.end()) return it->second;
  if (auto* al = dyn_cast<GlobalAlias>(g)) { std::vector<Val> v; constVals(al->getAliasee(), v); return g_gaddr[g] = v[0].b; }
  if (auto* f = dyn_cast<Function>(g)) { Obj* o = allocObj(16, 3); g_fnAddr[o->base] = const_cast<Function*>(f); return g_gaddr[g] = o->base; }
  auto* gv = cast<GlobalVariable>(g); uint64_t sz = gv->getValueType()->isSized() ? DL->getTypeAllocSize(gv->getValueType()).getFixedValue() : 8; if (!gv->hasInitializer() && sz < 256) sz = 256;
  Obj* o = allocObj(sz, 2); g_gaddr[g] = o->base; initGlobal(gv, o); return o->base;
}
static std::unordered_map<Function*, LFunc*> g_lf; static int g_nfn = 0;
enum { BI_NONE = -1 };
static int builtinId(const std::string& n);
static LFunc* lower(Function* F) {
  auto it = g_lf.find(F); if (it != g_lf.end()) return it->second;
  LFunc* L = new LFunc; g_lf[F] = L; L->F = F; L->id = g_nfn++;
  std::unordered_map<const Value*, int> slot; int n = 0; std::unordered_map<const BasicBlock*, int> bix; int bi = 0;
  auto width = [&](Type* T) { return T->isVoidTy() || T->isLabelTy() || T->isTokenTy() || T->isMetadataTy() ? 0 : (int)leafCache(T)->size(); };
  for (auto& A : F->args()) { slot[&A] = n; L->args.push_back(n); int k = width(A.getType()); L->argn.push_back(k); n += k; }
  for (auto& B : *F) { bix[&B] = bi++; for (auto& I : B) { int k = width(I.getType()); if (k) { slot[&I] = n; n += k; } } }
  L->nregs = n; L->retn = width(F->getReturnType());
  auto opnd = [&](const Value* V) -> int {
    auto jt = slot.find(V); if (jt != slot.end()) return jt->second;
    if (auto* C = dyn_cast<Constant>(V)) { int s = L->nregs + (int)L->consts.size(); std::vector<Val> vs; constVals(C, vs); for (auto& v : vs) L->consts.push_back(v); slot[V] = s; return s; }
    return -1;   // metadata, labels, inline asm
  };
  L->blocks.resize(bi);
  for (auto& B : *F) {
    LBlock& LB = L->blocks[bix[&B]];
    for (auto& I : B) {
      if (auto* P = dyn_cast<PHINode>(&I)) { for (unsigned i = 0; i < P->getNumIncomingValues(); i++) LB.phi[bix[P->getIncomingBlock(i)]].push_back(Copy{slot[P], opnd(P->getIncomingValue(i)), width(P->getType())}); 
        // duplicate edges (switch) give duplicate entries: harmless
        continue; }
      if (isa<DbgInfoIntrinsic>(&I)) continue;
      LI l; l.opc = I.getOpcode(); l.I = &I; Type* T = I.getType(); l.nl = width(T); if (l.nl) l.dst = slot[&I];
      if (l.nl) { l.leaves = leafCache(T); l.tk = (*l.leaves)[0].tk; l.w = (*l.leaves)[0].w; }
      if (I.getNumOperands() && width(I.getOperand(0)->getType())) { auto* sl = leafCache(I.getOperand(0)->getType()); l.stk = (*sl)[0].tk; l.sw = (*sl)[0].w; }
      switch (I.getOpcode()) {
        case Instruction::Br: { auto& b = cast<BranchInst>(I); l.b0 = bix[b.getSuccessor(0)]; if (b.isConditional()) { l.o.push_back(opnd(b.getCondition())); l.b1 = bix[b.getSuccessor(1)]; } break; }
        case Instruction::Switch: { auto& s = cast<SwitchInst>(I); l.o.push_back(opnd(s.getCondition())); l.b0 = bix[s.getDefaultDest()]; for (auto& c : s.cases()) l.cases.emplace_back(c.getCaseValue()->getZExtValue(), bix[c.getCaseSuccessor()]); break; }
        case Instruction::GetElementPtr: { auto& g = cast<GetElementPtrInst>(I); l.o.push_back(opnd(g.getPointerOperand())); int64_t off = 0;
          for (gep_type_iterator gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) { Value* ix = gi.getOperand();
            if (StructType* st = gi.getStructTypeOrNull()) { off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()).getFixedValue(); continue; }
            int64_t sc = DL->getTypeAllocSize(gi.getIndexedType()).getFixedValue();
            if (auto* ci = dyn_cast<ConstantInt>(ix)) off += ci->getSExtValue() * sc; else { l.gep.emplace_back(opnd(ix), sc); l.geps_w.push_back(ix->getType()->getScalarSizeInBits()); } }
          l.imm = off; break; }
        case Instruction::Alloca: { auto& a = cast<AllocaInst>(I); l.imm = DL->getTypeAllocSize(a.getAllocatedType()).getFixedValue(); l.o.push_back(opnd(a.getArraySize())); break; }
        case Instruction::ICmp: case Instruction::FCmp: l.pred = cast<CmpInst>(I).getPredicate(); l.o = {opnd(I.getOperand(0)), opnd(I.getOperand(1))}; break;
        case Instruction::ExtractValue: { auto& x = cast<ExtractValueInst>(I); Type* t = x.getAggregateOperand()->getType(); int off = 0; for (unsigned ix : x.indices()) { if (auto* st = dyn_cast<StructType>(t)) { for (unsigned i = 0; i < ix; i++) off += width(st->getElementType(i)); t = st->getElementType(ix); } else { t = cast<ArrayType>(t)->getElementType(); off += ix * width(t); } } l.imm = off; l.o.push_back(opnd(x.getAggregateOperand())); break; }
        case Instruction::InsertValue: { auto& x = cast<InsertValueInst>(I); Type* t = T; int off = 0; for (unsigned ix : x.indices()) { if (auto* st = dyn_cast<StructType>(t)) { for (unsigned i = 0; i < ix; i++) off += width(st->getElementType(i)); t = st->getElementType(ix); } else { t = cast<ArrayType>(t)->getElementType(); off += ix * width(t); } } l.imm = off; l.o = {opnd(x.getAggregateOperand()), opnd(x.getInsertedValueOperand())}; l.b0 = width(x.getInsertedValueOperand()->getType()); break; }
        case Instruction::ShuffleVector: { auto& x = cast<ShuffleVectorInst>(I); l.o = {opnd(x.getOperand(0)), opnd(x.getOperand(1))}; l.b0 = width(x.getOperand(0)->getType()); for (int m : x.getShuffleMask()) l.cases.emplace_back(0, m); break; }
        case Instruction::Call: case Instruction::Invoke: {
          auto& c = cast<CallBase>(I); l.callee = dyn_cast<Function>(c.getCalledOperand()->stripPointerCastsAndAliases());
          for (unsigned i = 0; i < c.arg_size(); i++) l.o.push_back(opnd(c.getArgOperand(i)));
          if (!l.callee) l.o.push_back(opnd(c.getCalledOperand()));
          if (l.callee) { std::string nm = l.callee->getName().str(); if (l.callee->isDeclaration() || nm.rfind("__sym_", 0) == 0) l.bi = builtinId(nm); }
          if (auto* iv = dyn_cast<InvokeInst>(&I)) { l.b0 = bix[iv->getNormalDest()]; l.b1 = bix[iv->getUnwindDest()]; }
          l.imm = c.arg_size(); break; }
        case Instruction::Store: { l.leaves = leafCache(I.getOperand(0)->getType()); l.nl = l.leaves->size(); l.o = {opnd(I.getOperand(0)), opnd(I.getOperand(1))}; break; }
        default: for (auto& U : I.operands()) l.o.push_back(opnd(U.get())); break;
      }
      LB.ins.push_back(std::move(l));
    }
  }
  return L;
}
#include "interp.inc"
