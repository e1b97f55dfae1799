#include "poly.h"
#include <algorithm>
#include <cmath>
static Mono monoMul(const Mono& a, const Mono& b) {
  if (a.empty()) return b; if (b.empty()) return a;
  Mono r; r.reserve(a.size() + b.size()); size_t i = 0, j = 0;
  while (i < a.size() || j < b.size()) {
    if (j >= b.size() || (i < a.size() && a[i] < b[j])) { r.push_back(a[i]); r.push_back(a[i + 1]); i += 2; }
    else if (i >= a.size() || b[j] < a[i]) { r.push_back(b[j]); r.push_back(b[j + 1]); j += 2; }
    else { r.push_back(a[i]); r.push_back(a[i + 1] + b[j + 1]); i += 2; j += 2; }
  }
  return r;
}
struct MH { size_t operator()(const Mono& m) const { uint64_t h = 1469598103934665603ull; for (auto c : m) { h ^= c; h *= 1099511628211ull; h ^= h >> 29; } return h; } };
Poly PolyCtx::add(const Poly& a, const Poly& b, int sign) {
  Poly r; r.reserve(a.size() + b.size()); size_t i = 0, j = 0;
  while (i < a.size() || j < b.size()) {
    if (j >= b.size() || (i < a.size() && a[i].first < b[j].first)) r.push_back(a[i++]);
    else if (i >= a.size() || b[j].first < a[i].first) { r.push_back(b[j]); if (sign < 0) r.back().second = -r.back().second; j++; }
    else { mpq_class c = sign > 0 ? mpq_class(a[i].second + b[j].second) : mpq_class(a[i].second - b[j].second); if (c != 0) r.emplace_back(a[i].first, c); i++; j++; }
  }
  return r;
}
Poly PolyCtx::scale(const Poly& a, const mpq_class& c) { if (c == 0) return {}; Poly r = a; for (auto& t : r) t.second *= c; return r; }
Poly PolyCtx::mul(const Poly& a, const Poly& b) {
  if (a.empty() || b.empty()) return {};
  if (a.size() == 1 && a[0].first.empty()) return scale(b, a[0].second);
  if (b.size() == 1 && b[0].first.empty()) return scale(a, b[0].second);
  if ((double)a.size() * b.size() > 3e8) throw PolyLimit();
  std::unordered_map<Mono, mpq_class, MH> acc; acc.reserve(std::min<size_t>(a.size() * b.size(), 1 << 20));
  for (auto& x : a) for (auto& y : b) { Mono m = monoMul(x.first, y.first); acc[m] += x.second * y.second; if (acc.size() > maxTerms) throw PolyLimit(); }
  Poly r; r.reserve(acc.size()); for (auto& t : acc) if (t.second != 0) r.emplace_back(t.first, t.second);
  std::sort(r.begin(), r.end(), [](auto& x, auto& y) { return x.first < y.first; });
  return r;
}
Poly PolyCtx::powp(const Poly& a, int k) { Poly r; r.emplace_back(Mono(), 1); for (int i = 0; i < k; i++) r = mul(r, a); return r; }
int PolyCtx::factorId(const Poly& p0, mpq_class& lead) {
  lead = p0.back().second; Poly p = scale(p0, 1 / lead);
  for (size_t i = 0; i < factors.size(); i++) if (factors[i] == p) return i;
  factors.push_back(p); return factors.size() - 1;
}
FracP PolyCtx::addF(const Frac& a, const Frac& b, int sign) {
  if (a.den == b.den) { auto r = std::make_shared<Frac>(); r->n = add(a.n, b.n, sign); r->den = a.den; if (r->n.empty()) r->den.clear(); cancel(*r); return r; }
  if (a.n.empty()) { auto r = std::make_shared<Frac>(b); if (sign < 0) r->n = scale(r->n, -1); return r; }
  if (b.n.empty()) return std::make_shared<Frac>(a);
  std::map<int, int> d = a.den; for (auto& f : b.den) d[f.first] = std::max(d[f.first], f.second);
  auto lift = [&](const Frac& x) { Poly n = x.n; for (auto& f : d) { auto it = x.den.find(f.first); int have = it == x.den.end() ? 0 : it->second; for (int i = have; i < f.second; i++) n = mul(n, factors[f.first]); } return n; };
  auto r = std::make_shared<Frac>(); r->n = add(lift(a), lift(b), sign); r->den = d; if (r->n.empty()) r->den.clear(); cancel(*r); return r;
}
// exact division by a denominator factor (lexicographic order on exponents, which is compatible with multiplication)
static bool lexLess(const Mono& a, const Mono& b) { size_t i = 0, j = 0; while (i < a.size() && j < b.size()) { if (a[i] != b[j]) return a[i] > b[j]; if (a[i + 1] != b[j + 1]) return a[i + 1] < b[j + 1]; i += 2; j += 2; } return i >= a.size() && j < b.size(); }
static bool monoDiv(const Mono& a, const Mono& b, Mono& r) { r.clear(); size_t i = 0; for (size_t j = 0; j < b.size(); j += 2) { while (i < a.size() && a[i] < b[j]) { r.push_back(a[i]); r.push_back(a[i + 1]); i += 2; } if (i >= a.size() || a[i] != b[j] || a[i + 1] < b[j + 1]) return false; if (a[i + 1] > b[j + 1]) { r.push_back(a[i]); r.push_back(a[i + 1] - b[j + 1]); } i += 2; } while (i < a.size()) { r.push_back(a[i]); r.push_back(a[i + 1]); i += 2; } return true; }
static bool divExact(const Poly& n, const Poly& d, Poly& q) {
  if (d.empty() || n.size() < d.size() || n.size() > 20000) return false;
  size_t dM = 0, dm = 0, nM = 0, nm = 0; for (size_t i = 1; i < d.size(); i++) { if (lexLess(d[dM].first, d[i].first)) dM = i; if (lexLess(d[i].first, d[dm].first)) dm = i; } for (size_t i = 1; i < n.size(); i++) { if (lexLess(n[nM].first, n[i].first)) nM = i; if (lexLess(n[i].first, n[nm].first)) nm = i; }
  Mono m; if (!monoDiv(n[nM].first, d[dM].first, m) || !monoDiv(n[nm].first, d[dm].first, m)) return false;
  struct G { bool operator()(const Mono& a, const Mono& b) const { return lexLess(b, a); } }; std::map<Mono, mpq_class, G> rem; for (auto& t : n) rem.emplace(t.first, t.second);
  q.clear(); size_t ops = 0; while (!rem.empty()) { auto it = rem.begin(); if (!monoDiv(it->first, d[dM].first, m)) return false; mpq_class c = it->second / d[dM].second; q.emplace_back(m, c); if ((ops += d.size()) > 400000) return false; for (auto& t : d) { Mono k = monoMul(m, t.first); auto jt = rem.find(k); if (jt == rem.end()) rem.emplace(k, -c * t.second); else { jt->second -= c * t.second; if (jt->second == 0) rem.erase(jt); } } }
  std::sort(q.begin(), q.end(), [](auto& x, auto& y) { return x.first < y.first; }); return true; }
void PolyCtx::cancel(Frac& f) { for (auto it = f.den.begin(); it != f.den.end();) { Poly q; while (it->second > 0 && divExact(f.n, factors[it->first], q)) { f.n = q; it->second--; } if (it->second == 0) it = f.den.erase(it); else ++it; } }
// accumulates factors of b^exp : constant c, denominators-to-be in fac (positive part) and those of 1/.. in facNum
void PolyCtx::factorize(E b, std::map<int, int>& fac, Poly&, std::map<int, int>& facNum, mpq_class& c, int exp) {
  Poly dummy;
  if (b->op == O_RMUL) { factorize(b->k[0], fac, dummy, facNum, c, exp); factorize(b->k[1], fac, dummy, facNum, c, exp); return; }
  if (b->op == O_RDIV) { factorize(b->k[0], fac, dummy, facNum, c, exp); factorize(b->k[1], facNum, dummy, fac, c, -exp); return; }
  if (b->op == O_RCONST) { mpq_class q = *b->q; if (exp > 0) c *= q; else c /= q; return; }
  FracP f = expand(b);
  if (f->n.empty()) throw PolyLimit();
  for (auto& d : f->den) facNum[d.first] += d.second;
  Poly n = f->n;
  // common monomial content -> single-atom factors
  Mono g = n[0].first;
  for (auto& t : n) { Mono h; size_t i = 0, j = 0; const Mono& m = t.first;
    while (i < g.size() && j < m.size()) { if (g[i] < m[j]) i += 2; else if (m[j] < g[i]) j += 2; else { h.push_back(g[i]); h.push_back(std::min(g[i + 1], m[j + 1])); i += 2; j += 2; } }
    g = h; if (g.empty()) break; }
  if (!g.empty()) {
    for (auto& t : n) { Mono m; size_t i = 0; for (size_t j = 0; j < t.first.size(); j += 2) { uint32_t e = t.first[j + 1]; if (i < g.size() && g[i] == t.first[j]) { e -= g[i + 1]; i += 2; } if (e) { m.push_back(t.first[j]); m.push_back(e); } } t.first = m; }
    std::sort(n.begin(), n.end(), [](auto& x, auto& y) { return x.first < y.first; });
    for (size_t i = 0; i < g.size(); i += 2) { Poly a; Mono m; m.push_back(g[i]); m.push_back(1); a.emplace_back(m, 1); mpq_class l; int id = factorId(a, l); fac[id] += g[i + 1]; }
  }
  if (n.size() == 1 && n[0].first.empty()) { if (exp > 0) c *= n[0].second; else c /= n[0].second; return; }
  mpq_class l; int id = factorId(n, l); if (exp > 0) c *= l; else c /= l; fac[id] += 1;
}
FracP PolyCtx::expand(E e) {
  if (e->op == O_RCONST) { auto r = std::make_shared<Frac>(); if (*e->q != 0) r->n.emplace_back(Mono(), *e->q); return r; }
  auto it = memo.find(e->id); if (it != memo.end()) return it->second;
  FracP res;
  switch (e->op) {
    case O_RADD: res = addF(*expand(e->k[0]), *expand(e->k[1]), 1); break;
    case O_RSUB: res = addF(*expand(e->k[0]), *expand(e->k[1]), -1); break;
    case O_RMUL: { FracP a = expand(e->k[0]), b = expand(e->k[1]); auto r = std::make_shared<Frac>(); r->n = mul(a->n, b->n);
      if (!r->n.empty()) { r->den = a->den; for (auto& f : b->den) r->den[f.first] += f.second; cancel(*r); } res = r; break; }
    case O_RDIV: {
      FracP a = expand(e->k[0]); std::map<int, int> fac, facNum; mpq_class c = 1; Poly d;
      factorize(e->k[1], fac, d, facNum, c, 1);
      auto r = std::make_shared<Frac>(); r->n = scale(a->n, 1 / c); r->den = a->den;
      for (auto& f : fac) r->den[f.first] += f.second;
      for (auto& f : facNum) { int k = f.second; auto jt = r->den.find(f.first); if (jt != r->den.end()) { int t = std::min(k, jt->second); jt->second -= t; k -= t; if (!jt->second) r->den.erase(jt); }
        for (int i = 0; i < k; i++) r->n = mul(r->n, factors[f.first]); }
      if (r->n.empty()) r->den.clear();
      cancel(*r); res = r; break; }
    case O_RITE: res = split(e->k[0]) ? expand(e->k[1]) : expand(e->k[2]); break;
    default: { auto r = std::make_shared<Frac>(); Mono m; m.push_back(e->id); m.push_back(1); r->n.emplace_back(m, 1); atoms[e->id] = e; res = r; }
  }
  memo[e->id] = res; return res;
}
Poly PolyCtx::reduce(Poly p) {
  for (;;) {
    uint32_t best = 0; int n = 0; uint32_t maxk = 0; bool found = false;
    for (auto& t : p) for (size_t i = 0; i < t.first.size(); i += 2) {
      E a = atoms[t.first[i]]; if (a->op != O_RFUN) continue; int deg = 0;
      switch (a->c & 255) { case F_ROOT2: deg = 2; break; case F_ROOT3: deg = 3; break; case F_ROOT6: deg = 6; break; case F_SIN: deg = 2; break; default: deg = 0; }
      if (!deg || (int)t.first[i + 1] < deg) continue;
      if (!found || t.first[i] > best) { found = true; best = t.first[i]; n = deg; maxk = 0; }
      if (t.first[i] == best) maxk = std::max(maxk, (uint32_t)t.first[i + 1] / n);
    }
    if (!found) return p;
    E a = atoms[best]; Poly N, D; D.emplace_back(Mono(), 1);
    if ((a->c & 255) == F_SIN) { E c = mkRfun(F_COS, a->k[0]); atoms[c->id] = c; Mono m; m.push_back(c->id); m.push_back(2); N.emplace_back(Mono(), 1); N.emplace_back(m, -1); }
    else { FracP f = expand(a->k[0]); N = f->n; for (auto& d : f->den) for (int i = 0; i < d.second; i++) D = mul(D, factors[d.first]); }
    std::vector<Poly> bucket(maxk + 1);
    std::vector<std::unordered_map<Mono, mpq_class, MH>> acc(maxk + 1);
    for (auto& t : p) { uint32_t k = 0; Mono m; for (size_t i = 0; i < t.first.size(); i += 2) { uint32_t ex = t.first[i + 1]; if (t.first[i] == best) { k = ex / n; ex %= n; } if (ex) { m.push_back(t.first[i]); m.push_back(ex); } } acc[k][m] += t.second; }
    Poly r;
    for (uint32_t k = 0; k <= maxk; k++) { Poly q; for (auto& t : acc[k]) if (t.second != 0) q.emplace_back(t.first, t.second); std::sort(q.begin(), q.end(), [](auto& x, auto& y) { return x.first < y.first; });
      q = mul(q, powp(N, k)); q = mul(q, powp(D, maxk - k)); r = add(r, q, 1); }
    p = r;
  }
}
E PolyCtx::toExpr(const Poly& p) {
  E s = mkRd(0);
  for (auto& t : p) { E m = mkR(t.second); for (size_t i = 0; i < t.first.size(); i += 2) for (uint32_t j = 0; j < t.first[i + 1]; j++) m = mkRop(O_RMUL, m, atoms[t.first[i]]); s = mkRop(O_RADD, s, m); }
  return s;
}
static void imul(double a, double b, double c, double d, double& lo, double& hi) {
  double p[4] = {a * c, a * d, b * c, b * d}; lo = *std::min_element(p, p + 4); hi = *std::max_element(p, p + 4);
  double w = 1e-14 * std::max(std::fabs(lo), std::fabs(hi)); lo -= w; hi += w;
}
bool PolyCtx::bound(E e, double& lo, double& hi) {
  double a, b, c, d;
  switch (e->op) {
    case O_RCONST: lo = hi = e->q->get_d(); { double w = 1e-15 * std::fabs(lo); lo -= w; hi += w; } return true;
    case O_RVAR: lo = g_vars[e->c].lo; hi = g_vars[e->c].hi; return lo > -1e300 && hi < 1e300;
    case O_RADD: case O_RSUB: case O_RMUL: case O_RDIV:
      if (!bound(e->k[0], a, b) || !bound(e->k[1], c, d)) return false;
      if (e->op == O_RADD) { lo = a + c; hi = b + d; } else if (e->op == O_RSUB) { lo = a - d; hi = b - c; }
      else if (e->op == O_RMUL) imul(a, b, c, d, lo, hi);
      else { if (c <= 0 && d >= 0) return false; imul(a, b, 1 / d, 1 / c, lo, hi); }
      { double w = 1e-14 * std::max(std::fabs(lo), std::fabs(hi)); lo -= w; hi += w; } return true;
    case O_RITE: if (!bound(e->k[1], a, b) || !bound(e->k[2], c, d)) return false; lo = std::min(a, c); hi = std::max(b, d); return true;
    case O_RFUN: switch (e->c & 255) { case F_SIN: case F_COS: lo = -1; hi = 1; return true;
      case F_ROOT2: case F_ROOT3: case F_ROOT6: { if (!bound(e->k[0], a, b)) return false; double ex = (e->c & 255) == F_ROOT2 ? 0.5 : (e->c & 255) == F_ROOT3 ? 1.0 / 3 : 1.0 / 6;
        lo = a > 0 ? std::pow(a, ex) * (1 - 1e-13) : 0; hi = b > 0 ? std::pow(b, ex) * (1 + 1e-13) : 0; return true; } default: return false; }
    case O_RUINT: lo = 0; hi = (double)maskw(e->k[0]->w); return true;
    default: return false;
  }
}
bool PolyCtx::boundPoly(const Poly& p, double& lo, double& hi) {
  lo = hi = 0;
  for (auto& t : p) { double l = 1, h = 1; for (size_t i = 0; i < t.first.size(); i += 2) { double a, b; if (!bound(atoms[t.first[i]], a, b)) return false; uint32_t k = t.first[i + 1];
      double pl, ph; if (k % 2 == 0) { double m1 = std::max(std::fabs(a), std::fabs(b)), m0 = (a <= 0 && b >= 0) ? 0 : std::min(std::fabs(a), std::fabs(b)); pl = std::pow(m0, k); ph = std::pow(m1, k); } else { pl = std::pow(a, k); ph = std::pow(b, k); }
      double x, y; imul(l, h, pl, ph, x, y); l = x; h = y; }
    double c = t.second.get_d(), x, y; imul(l, h, c, c, x, y); lo += x; hi += y; }
  double w = 1e-12 * std::max(std::fabs(lo), std::fabs(hi)); lo -= w; hi += w; return true;
}
