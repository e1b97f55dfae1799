#include "solver.h"
#include <chrono>
#include <cmath>
#include <unordered_set>
#include <random>
#include <cstdlib>
#include <unistd.h>
Shared* g_sh; int g_maxProcs = 8; unsigned g_rlimit = 20000000; uint64_t g_seed = 1;
double nowSec() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

z3::expr Solver::var(const char* pfx, E e, z3::sort s) { std::string n = std::string(pfx) + std::to_string(e->op == O_RFUN || e->op == O_RDIV ? e->id : e->c); return ctx.constant(n.c_str(), s); }
z3::expr Solver::tr(E e0) {
  // iterative post-order to survive deep DAGs
  std::vector<E> st{e0};
  while (!st.empty()) {
    E e = st.back(); if (memo.count(e->id)) { st.pop_back(); continue; }
    bool ready = true; if (e->op != O_RFUN && e->op != O_RDIV) for (int i = 0; i < 3; i++) if (e->k[i] && !memo.count(e->k[i]->id)) { st.push_back(e->k[i]); ready = false; }
    if (!ready) continue;
    st.pop_back();
    auto K = [&](int i) { return z3::expr(ctx, memo[e->k[i]->id]); };
    z3::expr r(ctx);
    switch (e->op) {
      case O_TRUE: r = ctx.bool_val(true); break; case O_FALSE: r = ctx.bool_val(false); break;
      case O_NOT: r = !K(0); break; case O_AND: r = K(0) && K(1); break; case O_OR: r = K(0) || K(1); break; case O_BEQ: r = K(0) == K(1); break;
      case O_EQ: r = K(0) == K(1); break; case O_ULT: r = z3::ult(K(0), K(1)); break; case O_ULE: r = z3::ule(K(0), K(1)); break;
      case O_SLT: r = z3::slt(K(0), K(1)); break; case O_SLE: r = z3::sle(K(0), K(1)); break;
      case O_RLT: r = K(0) < K(1); break; case O_RLE: r = K(0) <= K(1); break; case O_REQ: r = K(0) == K(1); break;
      case O_FLT: r = K(0) < K(1); break; case O_FLE: r = K(0) <= K(1); break;
      case O_FEQ: r = z3::expr(ctx, Z3_mk_fpa_eq(ctx, K(0), K(1))); break; case O_FISNAN: r = z3::expr(ctx, Z3_mk_fpa_is_nan(ctx, K(0))); break;
      case O_VCONST: r = ctx.bv_val((uint64_t)e->c, e->w); break; case O_VVAR: r = var("v", e, ctx.bv_sort(e->w)); break;
      case O_VADD: r = K(0) + K(1); break; case O_VSUB: r = K(0) - K(1); break; case O_VMUL: r = K(0) * K(1); break;
      case O_UDIV: r = z3::udiv(K(0), K(1)); break; case O_SDIV: r = K(0) / K(1); break; case O_UREM: r = z3::urem(K(0), K(1)); break; case O_SREM: r = z3::srem(K(0), K(1)); break;
      case O_VAND: r = K(0) & K(1); break; case O_VOR: r = K(0) | K(1); break; case O_VXOR: r = K(0) ^ K(1); break;
      case O_SHL: r = z3::shl(K(0), K(1)); break; case O_LSHR: r = z3::lshr(K(0), K(1)); break; case O_ASHR: r = z3::ashr(K(0), K(1)); break;
      case O_ZEXT: r = z3::zext(K(0), e->w - e->k[0]->w); break; case O_SEXT: r = z3::sext(K(0), e->w - e->k[0]->w); break;
      case O_EXTRACT: r = K(0).extract(e->c + e->w - 1, e->c); break; case O_CONCAT: r = z3::concat(K(0), K(1)); break;
      case O_VITE: case O_RITE: case O_FITE: r = z3::ite(K(0), K(1), K(2)); break;
      case O_RCONST: r = ctx.real_val(e->q->get_str().c_str()); break; case O_RVAR: r = var("r", e, ctx.real_sort()); break;
      case O_RADD: r = K(0) + K(1); break; case O_RSUB: r = K(0) - K(1); break; case O_RMUL: r = K(0) * K(1); break;
      case O_RDIV: r = var("q", e, ctx.real_sort()); break; case O_RFUN: r = var("f", e, ctx.real_sort()); break;
      case O_RUINT: r = z3::to_real(z3::expr(ctx, Z3_mk_bv2int(ctx, K(0), false))); break; case O_RSINT: r = z3::to_real(z3::expr(ctx, Z3_mk_bv2int(ctx, K(0), true))); break;
      case O_FCONST: { z3::expr b = ctx.bv_val((uint64_t)e->c, 64); r = z3::expr(ctx, Z3_mk_fpa_to_fp_bv(ctx, b, ctx.fpa_sort(11, 53))); break; }
      case O_FVAR: r = var("d", e, ctx.fpa_sort(11, 53)); break;
      case O_FADD: r = z3::expr(ctx, Z3_mk_fpa_add(ctx, Z3_mk_fpa_rne(ctx), K(0), K(1))); break; case O_FSUB: r = z3::expr(ctx, Z3_mk_fpa_sub(ctx, Z3_mk_fpa_rne(ctx), K(0), K(1))); break;
      case O_FMUL: r = z3::expr(ctx, Z3_mk_fpa_mul(ctx, Z3_mk_fpa_rne(ctx), K(0), K(1))); break; case O_FDIV: r = z3::expr(ctx, Z3_mk_fpa_div(ctx, Z3_mk_fpa_rne(ctx), K(0), K(1))); break;
      case O_FNEG: r = z3::expr(ctx, Z3_mk_fpa_neg(ctx, K(0))); break; case O_FABS: r = z3::expr(ctx, Z3_mk_fpa_abs(ctx, K(0))); break;
      case O_FUINT: r = z3::expr(ctx, Z3_mk_fpa_to_fp_unsigned(ctx, Z3_mk_fpa_rne(ctx), K(0), ctx.fpa_sort(11, 53))); break;
      case O_FSINT: r = z3::expr(ctx, Z3_mk_fpa_to_fp_signed(ctx, Z3_mk_fpa_rne(ctx), K(0), ctx.fpa_sort(11, 53))); break;
      case O_FTOI: r = z3::expr(ctx, e->c ? Z3_mk_fpa_to_sbv(ctx, Z3_mk_fpa_rtz(ctx), K(0), e->w) : Z3_mk_fpa_to_ubv(ctx, Z3_mk_fpa_rtz(ctx), K(0), e->w)); break;
      default: abort();
    }
    keep.push_back(r); memo[e->id] = (Z3_ast)r;
  }
  return z3::expr(ctx, memo[e0->id]);
}
// definitional side constraints for divisions, roots, sin/cos reachable from cs
void Solver::sides(const std::vector<E>& cs, z3::expr_vector& out) {
  std::unordered_set<uint32_t> seen; std::vector<E> st(cs);
  while (!st.empty()) {
    E x = st.back(); st.pop_back(); if (!seen.insert(x->id).second) continue;
    for (int i = 0; i < 3; i++) if (x->k[i]) st.push_back(x->k[i]);
    if (x->op == O_RDIV) { z3::expr q = tr(x), a = tr(x->k[0]), b = tr(x->k[1]); out.push_back(q * b == a); out.push_back(b != 0); }
    if (x->op == O_RFUN) {
      z3::expr r = tr(x), a = tr(x->k[0]);
      switch (x->c & 255) {
        case F_ROOT2: out.push_back(r >= 0); out.push_back(r * r == a); break;
        case F_ROOT3: out.push_back(r >= 0); out.push_back(r * r * r == a); break;
        case F_ROOT6: out.push_back(r >= 0); out.push_back(r * r * r * r * r * r == a); break;
        case F_SIN: case F_COS: { E o = mkRfun((x->c & 255) == F_SIN ? F_COS : F_SIN, x->k[0]); z3::expr s = tr(o); out.push_back(r * r + s * s == 1); break; }
        default: break;
      }
    }
  }
}
static bool hasRite(E e) { static std::unordered_map<uint32_t, bool> memo; auto it = memo.find(e->id); if (it != memo.end()) return it->second; bool r = e->op == O_RITE; for (int i = 0; i < 3 && !r; i++) if (e->k[i]) r = hasRite(e->k[i]); memo[e->id] = r; return r; }
E Solver::normCmp(E c) {
  if ((c->op == O_AND || c->op == O_OR || (c->op == O_NOT && (c->k[0]->op == O_AND || c->k[0]->op == O_OR))) && hasRite(c)) return c;   // expanding an ite may fork: only at the top level
  if (c->op == O_AND) return mkAnd(normCmp(c->k[0]), normCmp(c->k[1])); if (c->op == O_OR) return mkOr(normCmp(c->k[0]), normCmp(c->k[1])); if (c->op == O_NOT && (c->k[0]->op == O_AND || c->k[0]->op == O_OR)) return mkNot(normCmp(c->k[0]));
  bool neg = false; E x = c; if (x->op == O_NOT) { neg = true; x = x->k[0]; }
  // an index chosen by real comparisons: decide those (as for a real ite) instead of mixing integers into real arithmetic
  if (x->op == O_EQ || x->op == O_ULT || x->op == O_ULE || x->op == O_SLT || x->op == O_SLE) {
    auto chain = [](E t) { int n = 0; for (; t->op == O_VITE; n++) { if (n > 16) return -1; E d = t->k[0]; while (d->op == O_NOT) d = d->k[0]; if (d->op != O_RLT && d->op != O_RLE && d->op != O_REQ) return -1; if (t->k[1]->op != O_VCONST && t->k[2]->op != O_VCONST) return -1; t = t->k[1]->op == O_VCONST ? t->k[2] : t->k[1]; } return t->op == O_VCONST ? n : -1; };
    int a = chain(x->k[0]), b = chain(x->k[1]); if (a < 0 || b < 0 || a + b == 0 || !poly.split) return c;
    auto leaf = [&](E t) { while (t->op == O_VITE) t = poly.split(t->k[0]) ? t->k[1] : t->k[2]; return t; };
    E l = leaf(x->k[0]), r = leaf(x->k[1]), y = mkCmp(x->op, l, r); return neg ? mkNot(y) : y; }
  if (x->op != O_RLT && x->op != O_RLE && x->op != O_REQ) return c;
  try {
    FracP f = poly.expand(mkRop(O_RSUB, x->k[0], x->k[1]));
    Poly n = f->n; if (n.size() > 300) return c;
    if (x->op == O_REQ) n = poly.reduce(n);
    else for (auto& d : f->den) if (d.second & 1) n = poly.mul(n, poly.factors[d.first]);
    if (n.size() > 300) return c;
    E r = mkRcmp(x->op, poly.toExpr(n), mkRd(0));
    return neg ? mkNot(r) : r;
  } catch (PolyLimit&) { return c; }
}
static std::mt19937_64 rng(12345);
bool Solver::guess(const std::vector<E>& cs, Model& m, int tries, const Model* base) {
  std::vector<E> vs; { std::unordered_set<uint32_t> seen; for (E c : cs) { std::vector<E> v; collectVars(c, v); for (E x : v) if (x->op != O_RFUN && seen.insert(x->id).second) vs.push_back(x); } }
  for (int t = 0; t < tries; t++) {
    Model c; c.d.assign(g_vars.size(), 0); c.u.assign(g_vars.size(), 0);
    if (base) { for (size_t i = 0; i < base->d.size() && i < c.d.size(); i++) { c.d[i] = base->d[i]; c.u[i] = base->u[i]; } }
    for (E v : vs) { auto& in = g_vars[v->c];
      if (base && t % 2 == 1 && rng() % 3) continue;
      if (in.sort == S_BV) { uint64_t span = in.ihi - in.ilo; c.u[v->c] = in.ilo + (span == ~0ull ? rng() : rng() % (span + 1)); }
      else { double lo = std::max(in.lo, -1e3), hi = std::min(in.hi, 1e3); if (lo > hi) { lo = in.lo; hi = in.hi; } double f = (rng() % 4097) / 4096.0; c.d[v->c] = lo + f * (hi - lo); } }
    Evaluator ev(c); bool ok = true; for (E x : cs) if (!ev.evb(x)) { ok = false; break; }
    if (ok) { m = c; g_sh->guesses++; return true; }
  }
  return false;
}
static double z3num(const z3::expr& v) {
  std::string s;
  if (v.is_numeral()) { std::string t; if (v.is_numeral(t)) { mpq_class q; if (q.set_str(t, 10) == 0) { q.canonicalize(); return q.get_d(); } s = t; } }
  if (v.is_algebraic()) s = v.get_decimal_string(20);
  return atof(s.c_str());
}
SatR Solver::query(const std::vector<E>& cs0, Model* m, unsigned rl, bool allowGuess) {
  std::vector<E> cs; bool hasReal = false, hasBV = false, hasFP = false;
  // normalising may decide an ite (and fork): what was decided belongs to the constraints of this query
  struct Back { std::vector<E>& v; size_t n; ~Back() { v.resize(n); } } back{splits, splits.size()};
  for (E c : cs0) { if (c->op == O_TRUE) continue; if (c->op == O_FALSE) return R_UNSAT; E n = normCmp(c); if (n->op == O_FALSE) { g_sh->queries++; g_sh->qunsat++; return R_UNSAT; } if (n->op != O_TRUE) cs.push_back(n); }
  for (size_t i = back.n; i < splits.size(); i++) { E n = normCmp(splits[i]); if (n->op == O_FALSE) { g_sh->queries++; g_sh->qunsat++; return R_UNSAT; } if (n->op != O_TRUE) cs.push_back(n); }
  std::vector<E> vs; { std::unordered_set<uint32_t> seen; for (E c : cs) { std::vector<E> v; collectVars(c, v); for (E x : v) if (seen.insert(x->id).second) vs.push_back(x); } }
  for (E v : vs) { if (v->sort == S_REAL) hasReal = true; if (v->sort == S_BV) hasBV = true; if (v->sort == S_FP) hasFP = true; }
  if (allowGuess && m && guess(cs, *m, hasReal || hasFP ? 60 : 20, nullptr)) return R_SAT;
  double t0 = nowSec(); g_sh->queries++;
  SatR res = R_UNK;
  // cheap refutation: the same constraints as linear arithmetic over monomials
  if (hasReal && !hasFP) try {
    z3::solver s(ctx, "QF_LRA"); z3::params p(ctx); p.set("rlimit", 2000000u); s.set(p); std::map<Mono, z3::expr> mv; int fresh = 0;
    auto lin = [&](E t) { FracP f = poly.expand(t); if (!f->den.empty() || f->n.size() > 300) throw PolyLimit(); z3::expr_vector v(ctx); for (auto& t : f->n) { z3::expr c = ctx.real_val(t.second.get_str().c_str()); if (t.first.empty()) { v.push_back(c); continue; } auto it = mv.find(t.first); if (it == mv.end()) { z3::expr x = ctx.real_const(("mono" + std::to_string(mv.size())).c_str()); it = mv.emplace(t.first, x).first; Poly one; one.emplace_back(t.first, 1); double lo, hi; if (poly.boundPoly(one, lo, hi) && std::isfinite(lo) && std::isfinite(hi)) { s.add(x >= ctx.real_val(mpq_class(lo).get_str().c_str())); s.add(x <= ctx.real_val(mpq_class(hi).get_str().c_str())); } } v.push_back(c * it->second); } if (v.size() == 0) return ctx.real_val(0); return z3::sum(v); };
    std::function<z3::expr(E)> ab = [&](E c) -> z3::expr { switch (c->op) { case O_TRUE: return ctx.bool_val(true); case O_FALSE: return ctx.bool_val(false); case O_NOT: return !ab(c->k[0]); case O_AND: return ab(c->k[0]) && ab(c->k[1]); case O_OR: return ab(c->k[0]) || ab(c->k[1]);
        case O_RLT: case O_RLE: case O_REQ: if (!hasRite(c)) try { z3::expr l = lin(mkRop(O_RSUB, c->k[0], c->k[1])); return c->op == O_RLT ? l < 0 : c->op == O_RLE ? l <= 0 : l == 0; } catch (PolyLimit&) { } default: return ctx.bool_const(("fresh" + std::to_string(c->id)).c_str()); } };
    auto keep = poly.split; for (E c : cs) s.add(ab(c));
    z3::check_result r = s.check(); if (r == z3::unsat) { res = R_UNSAT; g_sh->qunsat++; g_sh->solver_us += (long)((nowSec() - t0) * 1e6); return res; }
  } catch (PolyLimit&) { } catch (z3::exception&) { }
  try {
    z3::expr_vector sd(ctx); sides(cs, sd);
    for (int attempt = 0; attempt < 2 && res == R_UNK; attempt++) {
      z3::solver s = hasFP ? z3::solver(ctx) : (hasReal && !hasBV) ? (attempt == 0 ? z3::solver(ctx, "QF_NRA") : z3::solver(ctx)) : (attempt == 0) ? z3::solver(ctx, z3::solver::simple()) : !hasReal ? z3::solver(ctx, "QF_BV") : z3::solver(ctx);
      z3::params p(ctx); p.set("rlimit", rl ? rl : g_rlimit); if (hasReal) p.set("timeout", rl ? 8000u : 60000u); s.set(p);
      for (E c : cs) s.add(tr(c)); for (unsigned i = 0; i < sd.size(); i++) s.add(sd[i]);
      z3::check_result r = s.check();
      if (r == z3::unsat) res = R_UNSAT;
      else if (r == z3::sat) {
        res = R_SAT;
        if (m) {
          m->d.assign(g_vars.size(), 0); m->u.assign(g_vars.size(), 0);
          for (size_t i = 0; i < g_vars.size(); i++) { auto& in = g_vars[i]; if (in.sort == S_BV) m->u[i] = in.ilo; else { double lo = in.lo, hi = in.hi; m->d[i] = lo > -1e300 && hi < 1e300 ? lo + 0.375 * (hi - lo) : lo > -1e300 ? lo : hi < 1e300 ? hi : 0; } }
          z3::model mo = s.get_model();
          for (E v : vs) { if (v->op == O_RFUN) continue; z3::expr x = mo.eval(tr(v), true);
            if (v->sort == S_BV) { uint64_t u = 0; x.is_numeral_u64(u); m->u[v->c] = u; }
            else if (v->sort == S_REAL) m->d[v->c] = z3num(x);
            else { z3::expr b(ctx, Z3_mk_fpa_to_ieee_bv(ctx, x)); b = b.simplify(); uint64_t u = 0; b.is_numeral_u64(u); double d; memcpy(&d, &u, 8); m->d[v->c] = d; } }
        }
      }
    }
  } catch (z3::exception& ex) { res = R_UNK; if (getenv("SYMX_DEBUG")) fprintf(stderr, "z3 exception: %s\n", ex.msg()); }
  g_sh->solver_us += (long)((nowSec() - t0) * 1e6);
  if (res == R_SAT) g_sh->qsat++; else if (res == R_UNSAT) g_sh->qunsat++; else g_sh->qunk++;
  if (getenv("SYMX_DEBUG") && nowSec() - t0 > 1) { fprintf(stderr, "slow query %.1fs res=%d n=%zu\n", nowSec() - t0, res, cs.size()); for (E c : cs) fprintf(stderr, "   %s\n", exprStr(c, 5).substr(0, 300).c_str()); }
  return res;
}
SatR Solver::lraNear(const Poly& n, const std::map<int, int>& den, double tol) {
  double dmin = 1;
  for (auto& f : den) { double lo, hi; if (!poly.boundPoly(poly.factors[f.first], lo, hi)) return R_UNK; double m = lo > 0 ? lo : hi < 0 ? -hi : 0; if (m <= 0) return R_UNK; dmin *= std::pow(m, f.second); }
  dmin *= 1 - 1e-9;
  double t0 = nowSec(); g_sh->queries++;
  z3::solver s(ctx, "QF_LRA"); z3::params p(ctx); p.set("rlimit", g_rlimit); s.set(p);
  z3::expr_vector terms(ctx); int i = 0;
  for (auto& t : n) {
    Poly one; one.emplace_back(t.first, 1); double lo, hi; if (!poly.boundPoly(one, lo, hi)) return R_UNK;
    z3::expr c = ctx.real_val(t.second.get_str().c_str());
    if (t.first.empty()) { terms.push_back(c); continue; }
    z3::expr mvar = ctx.real_const(("m" + std::to_string(i++)).c_str());
    s.add(mvar >= ctx.real_val(mpq_class(lo).get_str().c_str())); s.add(mvar <= ctx.real_val(mpq_class(hi).get_str().c_str()));
    terms.push_back(c * mvar);
  }
  if (terms.size() == 0) terms.push_back(ctx.real_val(0));
  z3::expr sum = z3::sum(terms); z3::expr T = ctx.real_val(mpq_class(tol * dmin).get_str().c_str());
  s.add(sum > T || sum < -T);
  z3::check_result r = s.check();
  g_sh->solver_us += (long)((nowSec() - t0) * 1e6);
  SatR res = r == z3::unsat ? R_UNSAT : r == z3::sat ? R_SAT : R_UNK;
  if (res == R_SAT) g_sh->qsat++; else if (res == R_UNSAT) g_sh->qunsat++; else g_sh->qunk++;
  return res;
}
std::vector<E> sliceFor(const std::vector<E>& pc, E goal) {
  static std::unordered_map<uint32_t, std::vector<uint32_t>> vm;
  auto vars = [&](E e) -> const std::vector<uint32_t>& { auto it = vm.find(e->id); if (it != vm.end()) return it->second; std::vector<E> v; collectVars(e, v); std::vector<uint32_t> r; for (E x : v) if (x->op != O_RFUN) r.push_back(x->c); return vm[e->id] = r; };
  std::unordered_set<uint32_t> S; for (auto v : vars(goal)) S.insert(v);
  std::vector<char> in(pc.size(), 0); bool ch = true;
  while (ch) { ch = false; for (size_t i = 0; i < pc.size(); i++) if (!in[i]) { bool hit = false; for (auto v : vars(pc[i])) if (S.count(v)) { hit = true; break; } if (hit) { in[i] = 1; ch = true; for (auto v : vars(pc[i])) S.insert(v); } } }
  std::vector<E> r; for (size_t i = 0; i < pc.size(); i++) if (in[i]) r.push_back(pc[i]); return r;
}
