#include "expr.h"
#include <cmath>
#include <cassert>
#include <unordered_set>
#include <algorithm>
#include <set>
std::vector<VarInfo> g_vars;
uint32_t g_nexpr = 0;
uint64_t maskw(int w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }

struct Key { Op op; uint16_t w; uint64_t c; E k[3]; const mpq_class* q;
  bool operator==(const Key& o) const { return op == o.op && w == o.w && c == o.c && k[0] == o.k[0] && k[1] == o.k[1] && k[2] == o.k[2] && (q == o.q || (q && o.q && *q == *o.q)); } };
struct KeyH { size_t operator()(const Key& x) const {
  uint64_t h = x.op * 0x9E3779B97F4A7C15ull + x.w; auto mix = [&](uint64_t v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); };
  mix(x.c); for (int i = 0; i < 3; i++) mix(x.k[i] ? x.k[i]->id + 1 : 0);
  if (x.q) { mix(mpz_get_ui(x.q->get_num_mpz_t()) * 31 + mpz_get_ui(x.q->get_den_mpz_t())); mix(sgn(*x.q) + 2); }
  return h; } };
static std::unordered_map<Key, E, KeyH> tab;
static E mk(Op op, Sort s, int w, uint64_t c, E a = nullptr, E b = nullptr, E d = nullptr, const mpq_class* q = nullptr) {
  Key k{op, (uint16_t)w, c, {a, b, d}, q};
  auto it = tab.find(k); if (it != tab.end()) return it->second;
  Expr* e = new Expr; e->op = op; e->sort = s; e->w = w; e->id = g_nexpr++; e->c = c; e->k[0] = a; e->k[1] = b; e->k[2] = d;
  if (q) { e->q = new mpq_class(*q); k.q = e->q; }
  tab.emplace(k, e); return e;
}
E mkTrue() { static E t = mk(O_TRUE, S_BOOL, 1, 0); return t; }
E mkFalse() { static E t = mk(O_FALSE, S_BOOL, 1, 0); return t; }
E mkBool(bool b) { return b ? mkTrue() : mkFalse(); }
E mkNot(E a) {
  if (a->op == O_TRUE) return mkFalse(); if (a->op == O_FALSE) return mkTrue();
  if (a->op == O_NOT) return a->k[0];
  if (a->op == O_RLT) return mkRcmp(O_RLE, a->k[1], a->k[0]);
  if (a->op == O_RLE) return mkRcmp(O_RLT, a->k[1], a->k[0]);
  if (a->op == O_ULT) return mkCmp(O_ULE, a->k[1], a->k[0]);
  if (a->op == O_ULE) return mkCmp(O_ULT, a->k[1], a->k[0]);
  if (a->op == O_SLT) return mkCmp(O_SLE, a->k[1], a->k[0]);
  if (a->op == O_SLE) return mkCmp(O_SLT, a->k[1], a->k[0]);
  return mk(O_NOT, S_BOOL, 1, 0, a);
}
E mkAnd(E a, E b) {
  if (a->op == O_FALSE || b->op == O_FALSE) return mkFalse();
  if (a->op == O_TRUE) return b; if (b->op == O_TRUE) return a; if (a == b) return a;
  if (mkNot(a) == b) return mkFalse();
  if (a->id > b->id) std::swap(a, b);
  return mk(O_AND, S_BOOL, 1, 0, a, b);
}
E mkOr(E a, E b) {
  if (a->op == O_TRUE || b->op == O_TRUE) return mkTrue();
  if (a->op == O_FALSE) return b; if (b->op == O_FALSE) return a; if (a == b) return a;
  if (mkNot(a) == b) return mkTrue();
  if (a->id > b->id) std::swap(a, b);
  return mk(O_OR, S_BOOL, 1, 0, a, b);
}
E mkBIte(E c, E a, E b) {
  if (c->op == O_TRUE) return a; if (c->op == O_FALSE) return b; if (a == b) return a;
  return mkOr(mkAnd(c, a), mkAnd(mkNot(c), b));
}
E mkBEq(E a, E b) {
  if (a == b) return mkTrue();
  if (a->op == O_TRUE) return b; if (b->op == O_TRUE) return a;
  if (a->op == O_FALSE) return mkNot(b); if (b->op == O_FALSE) return mkNot(a);
  if (mkNot(a) == b) return mkFalse();
  return mk(O_BEQ, S_BOOL, 1, 0, a, b);
}
E mkBV(uint64_t v, int w) { return mk(O_VCONST, S_BV, w, v & maskw(w)); }
E mkVVar(uint32_t i) { return mk(O_VVAR, S_BV, g_vars[i].w, i); }
E mkRVar(uint32_t i) { return mk(O_RVAR, S_REAL, 0, i); }
E mkFVar(uint32_t i) { return mk(O_FVAR, S_FP, 64, i); }
static int64_t sx(uint64_t v, int w) { if (w >= 64) return (int64_t)v; uint64_t m = 1ull << (w - 1); v &= maskw(w); return (int64_t)((v ^ m) - m); }
E mkV(Op op, E a, E b) {
  int w = a->w;
  if (a->op == O_VCONST && b->op == O_VCONST) {
    uint64_t x = a->c, y = b->c, r = 0; bool ok = true;
    switch (op) {
      case O_VADD: r = x + y; break; case O_VSUB: r = x - y; break; case O_VMUL: r = x * y; break;
      case O_UDIV: if (!y) ok = false; else r = x / y; break; case O_UREM: if (!y) ok = false; else r = x % y; break;
      case O_SDIV: if (!y || (sx(y, w) == -1)) { if (y) r = -x; else ok = false; } else r = sx(x, w) / sx(y, w); break;
      case O_SREM: if (!y) ok = false; else if (sx(y, w) == -1) r = 0; else r = sx(x, w) % sx(y, w); break;
      case O_VAND: r = x & y; break; case O_VOR: r = x | y; break; case O_VXOR: r = x ^ y; break;
      case O_SHL: r = y >= (uint64_t)w ? 0 : x << y; break; case O_LSHR: r = y >= (uint64_t)w ? 0 : x >> y; break;
      case O_ASHR: r = sx(x, w) >> (y >= (uint64_t)w ? 63 : y); break;
      default: ok = false;
    }
    if (ok) return mkBV(r, w);
  }
  bool ca = a->op == O_VCONST, cb = b->op == O_VCONST;
  switch (op) {
    case O_VADD: if (ca && !a->c) return b; if (cb && !b->c) return a;
      if (ca) { std::swap(a, b); std::swap(ca, cb); }
      if (cb && a->op == O_VADD && a->k[1]->op == O_VCONST) return mkV(O_VADD, a->k[0], mkBV(a->k[1]->c + b->c, w));
      break;
    case O_VSUB: if (cb && !b->c) return a; if (a == b) return mkBV(0, w);
      if (cb) return mkV(O_VADD, a, mkBV(-b->c, w)); break;
    case O_VMUL: if (ca) { std::swap(a, b); std::swap(ca, cb); } if (cb && !b->c) return b; if (cb && b->c == 1) return a; break;
    case O_VAND: if (ca) { std::swap(a, b); std::swap(ca, cb); } if (cb && !b->c) return b; if (cb && b->c == maskw(w)) return a; if (a == b) return a;
      if (cb && a->op == O_ZEXT && (b->c & maskw(a->k[0]->w)) == maskw(a->k[0]->w)) return a; break;
    case O_VOR: if (ca) { std::swap(a, b); std::swap(ca, cb); } if (cb && !b->c) return a; if (cb && b->c == maskw(w)) return b; if (a == b) return a; break;
    case O_VXOR: if (ca) { std::swap(a, b); std::swap(ca, cb); } if (cb && !b->c) return a; if (a == b) return mkBV(0, w);
      if (cb && a->op == O_VITE && a->k[1]->op == O_VCONST && a->k[2]->op == O_VCONST) return mkIte(a->k[0], mkBV(a->k[1]->c ^ b->c, w), mkBV(a->k[2]->c ^ b->c, w));
      break;
    case O_SHL: case O_LSHR: case O_ASHR: if (cb && !b->c) return a;
      if (op == O_LSHR && cb && a->op == O_ZEXT && b->c >= a->k[0]->w) return mkBV(0, w); break;
    case O_UDIV: if (cb && b->c == 1) return a; break;
    default: break;
  }
  return mk(op, S_BV, w, 0, a, b);
}
E mkZext(E a, int w) {
  if (a->sort == S_BOOL) return boolToBV(a, w);
  if (a->w == w) return a;
  if (a->op == O_VCONST) return mkBV(a->c, w);
  if (a->op == O_ZEXT) return mkZext(a->k[0], w);
  if (a->op == O_VITE && a->k[1]->op == O_VCONST && a->k[2]->op == O_VCONST) return mkIte(a->k[0], mkZext(a->k[1], w), mkZext(a->k[2], w));
  return mk(O_ZEXT, S_BV, w, 0, a);
}
E mkSext(E a, int w) {
  if (a->sort == S_BOOL) return mkIte(a, mkBV(~0ull, w), mkBV(0, w));
  if (a->w == w) return a;
  if (a->op == O_VCONST) return mkBV(sx(a->c, a->w), w);
  if (a->op == O_ZEXT) return mkZext(a->k[0], w);
  return mk(O_SEXT, S_BV, w, 0, a);
}
E mkExtract(E a, int lo, int w) {
  if (lo == 0 && a->w == w) return a;
  if (a->op == O_VCONST) return mkBV(a->c >> lo, w);
  if (a->op == O_ZEXT) {
    if (lo + w <= a->k[0]->w) return mkExtract(a->k[0], lo, w);
    if (lo >= a->k[0]->w) return mkBV(0, w);
    if (lo == 0) return mkZext(a->k[0], w);
  }
  if (a->op == O_SEXT && lo + w <= a->k[0]->w) return mkExtract(a->k[0], lo, w);
  if (a->op == O_EXTRACT) return mkExtract(a->k[0], lo + a->c, w);
  if (a->op == O_CONCAT) {
    int lw = a->k[1]->w;
    if (lo + w <= lw) return mkExtract(a->k[1], lo, w);
    if (lo >= lw) return mkExtract(a->k[0], lo - lw, w);
  }
  if (a->op == O_VITE && a->k[1]->op == O_VCONST && a->k[2]->op == O_VCONST) return mkIte(a->k[0], mkExtract(a->k[1], lo, w), mkExtract(a->k[2], lo, w));
  if (lo == 0 && (a->op == O_VADD || a->op == O_VSUB || a->op == O_VMUL || a->op == O_VAND || a->op == O_VOR || a->op == O_VXOR))
    return mkV(a->op, mkExtract(a->k[0], 0, w), mkExtract(a->k[1], 0, w));
  return mk(O_EXTRACT, S_BV, w, lo, a);
}
E mkConcat(E hi, E lo) {
  int w = hi->w + lo->w;
  if (hi->op == O_VCONST && lo->op == O_VCONST) return mkBV((hi->c << lo->w) | lo->c, w);
  if (hi->op == O_VCONST && hi->c == 0) return mkZext(lo, w);
  if (hi->op == O_EXTRACT && lo->op == O_EXTRACT && hi->k[0] == lo->k[0] && hi->c == lo->c + lo->w) return mkExtract(hi->k[0], lo->c, w);
  if (hi->op == O_EXTRACT && hi->k[0] == lo && (int)hi->c == lo->w) return mkExtract(lo, 0, w);
  return mk(O_CONCAT, S_BV, w, 0, hi, lo);
}
E boolToBV(E b, int w) { return mkIte(b, mkBV(1, w), mkBV(0, w)); }
E mkIte(E c, E a, E b) {
  if (c->op == O_TRUE) return a; if (c->op == O_FALSE) return b; if (a == b) return a;
  if (a->sort == S_BOOL) return mkBIte(c, a, b);
  if (c->op == O_NOT) return mkIte(c->k[0], b, a);
  Op op = a->sort == S_BV ? O_VITE : a->sort == S_REAL ? O_RITE : O_FITE;
  return mk(op, a->sort, a->w, 0, c, a, b);
}
E mkCmp(Op op, E a, E b) {
  if (a->sort == S_BOOL) { a = boolToBV(a, 1); } if (b->sort == S_BOOL) b = boolToBV(b, 1);
  int w = a->w;
  if (a->op == O_VCONST && b->op == O_VCONST) {
    switch (op) { case O_EQ: return mkBool(a->c == b->c); case O_ULT: return mkBool(a->c < b->c); case O_ULE: return mkBool(a->c <= b->c);
      case O_SLT: return mkBool(sx(a->c, w) < sx(b->c, w)); case O_SLE: return mkBool(sx(a->c, w) <= sx(b->c, w)); default: break; }
  }
  if (a == b) return mkBool(op == O_EQ || op == O_ULE || op == O_SLE);
  if (op == O_EQ && a->op == O_VCONST) std::swap(a, b);
  // ite with constant leaves against a constant
  auto iteK = [](E x) { return x->op == O_VITE && x->k[1]->op == O_VCONST && x->k[2]->op == O_VCONST; };
  if (iteK(a) && b->op == O_VCONST) return mkBIte(a->k[0], mkCmp(op, a->k[1], b), mkCmp(op, a->k[2], b));
  if (iteK(b) && a->op == O_VCONST) return mkBIte(b->k[0], mkCmp(op, a, b->k[1]), mkCmp(op, a, b->k[2]));
  if (b->op == O_VCONST && a->op == O_ZEXT) {
    int iw = a->k[0]->w;
    if (b->c > maskw(iw)) { if (op == O_EQ) return mkFalse(); if (op == O_ULT || op == O_ULE) return mkTrue();
      if (op == O_SLT || op == O_SLE) return mkBool(sx(b->c, w) > 0); }
    else if (op == O_EQ || op == O_ULT || op == O_ULE) return mkCmp(op, a->k[0], mkBV(b->c, iw));
    else return mkCmp(op == O_SLT ? O_ULT : O_ULE, a->k[0], mkBV(b->c, iw));
  }
  if (a->op == O_VCONST && b->op == O_ZEXT) {
    int iw = b->k[0]->w;
    if (a->c > maskw(iw)) { if (op == O_ULT || op == O_ULE) return mkFalse(); return mkBool(sx(a->c, w) < 0); }
    if (op == O_ULT || op == O_ULE) return mkCmp(op, mkBV(a->c, iw), b->k[0]);
    return mkCmp(op == O_SLT ? O_ULT : O_ULE, mkBV(a->c, iw), b->k[0]);
  }
  if (a->op == O_ZEXT && b->op == O_ZEXT && a->k[0]->w == b->k[0]->w) {
    Op o2 = op == O_SLT ? O_ULT : op == O_SLE ? O_ULE : op; return mkCmp(o2, a->k[0], b->k[0]);
  }
  if (op == O_ULT && b->op == O_VCONST && b->c == 0) return mkFalse();
  if (op == O_ULT && b->op == O_VCONST && b->c == 1) return mkCmp(O_EQ, a, mkBV(0, w));
  if (op == O_ULE && a->op == O_VCONST && a->c == 0) return mkTrue();
  if (op == O_EQ && a->op == O_VADD && a->k[1]->op == O_VCONST && b->op == O_VCONST) return mkCmp(O_EQ, a->k[0], mkBV(b->c - a->k[1]->c, w));
  if (op == O_EQ && b->op == O_VCONST && w == 1 && 0) return nullptr;
  if (op == O_EQ && a->id > b->id && b->op != O_VCONST) std::swap(a, b);
  return mk(op, S_BOOL, 1, 0, a, b);
}
E mkR(const mpq_class& q) { return mk(O_RCONST, S_REAL, 0, 0, nullptr, nullptr, nullptr, &q); }
E mkRd(double d) { mpq_class q(d); return mkR(q); }
E mkRneg(E a) { return mkRop(O_RMUL, a, mkRd(-1.0)); }
E mkRop(Op op, E a, E b) {
  bool ca = a->op == O_RCONST, cb = b->op == O_RCONST;
  if (ca && cb && !(op == O_RDIV && *b->q == 0)) {
    switch (op) { case O_RADD: return mkR(*a->q + *b->q); case O_RSUB: return mkR(*a->q - *b->q);
      case O_RMUL: return mkR(*a->q * *b->q); case O_RDIV: return mkR(*a->q / *b->q); default: break; }
  }
  switch (op) {
    case O_RADD: if (ca && *a->q == 0) return b; if (cb && *b->q == 0) return a; if (a->id > b->id) std::swap(a, b); break;
    case O_RSUB: if (cb && *b->q == 0) return a; if (a == b) return mkRd(0); if (ca && *a->q == 0) return mkRneg(b); break;
    case O_RMUL: if (cb) { std::swap(a, b); std::swap(ca, cb); } if (ca && *a->q == 0) return a; if (ca && *a->q == 1) return b;
      if (ca && b->op == O_RMUL && b->k[0]->op == O_RCONST) return mkRop(O_RMUL, mkR(*a->q * *b->k[0]->q), b->k[1]);
      if (!ca && a->id > b->id) std::swap(a, b); break;
    case O_RDIV: if (cb && *b->q == 1) return a; if (cb && *b->q != 0) return mkRop(O_RMUL, mkR(1 / *b->q), a); if (ca && *a->q == 0) return a;
      if (a == b) return mkRd(1); break;
    default: break;
  }
  return mk(op, S_REAL, 0, 0, a, b);
}
E mkRcmp(Op op, E a, E b) {
  if (a->op == O_RCONST && b->op == O_RCONST) {
    if (op == O_RLT) return mkBool(*a->q < *b->q); if (op == O_RLE) return mkBool(*a->q <= *b->q); return mkBool(*a->q == *b->q);
  }
  if (a == b) return mkBool(op != O_RLT);
  if (op == O_REQ && a->id > b->id) std::swap(a, b);
  return mk(op, S_BOOL, 1, 0, a, b);
}
E mkRint(E bv, bool sgn) {
  if (bv->op == O_VCONST) { mpz_class z; if (sgn) { int64_t v = sx(bv->c, bv->w); z = (long)v; } else z = (unsigned long)bv->c; return mkR(mpq_class(z)); }
  if (bv->op == O_VITE) return mkIte(bv->k[0], mkRint(bv->k[1], sgn), mkRint(bv->k[2], sgn));
  return mk(sgn ? O_RSINT : O_RUINT, S_REAL, 0, 0, bv);
}
E mkRfun(Fun f, E a, const char* name) {
  static std::unordered_map<std::string, uint64_t> ufs; static std::vector<std::string*> names;
  uint64_t c = f;
  if (f == F_UF) { std::string n(name); auto it = ufs.find(n); uint64_t id; if (it == ufs.end()) { id = ufs.size(); ufs[n] = id; names.push_back(new std::string(n)); } else id = it->second; c = f | (id + 1) << 8; 
    Expr* e = const_cast<Expr*>(mk(O_RFUN, S_REAL, 0, c, a)); e->fname = names[id]; return e; }
  return mk(O_RFUN, S_REAL, 0, c, a);
}
// --- FP
E mkFd(double d) { uint64_t b; memcpy(&b, &d, 8); return mk(O_FCONST, S_FP, 64, b); }
static double fd(E e) { double d; memcpy(&d, &e->c, 8); return d; }
E mkFop(Op op, E a, E b) {
  if (a->op == O_FCONST && b->op == O_FCONST) {
    double x = fd(a), y = fd(b);
    switch (op) { case O_FADD: return mkFd(x + y); case O_FSUB: return mkFd(x - y); case O_FMUL: return mkFd(x * y); case O_FDIV: return mkFd(x / y); default: break; }
  }
  return mk(op, S_FP, 64, 0, a, b);
}
E mkFun1(Op op, E a) { if (a->op == O_FCONST) return mkFd(op == O_FNEG ? -fd(a) : std::fabs(fd(a))); return mk(op, S_FP, 64, 0, a); }
E mkFcmp(Op op, E a, E b) {
  if (a->op == O_FCONST && (op == O_FISNAN || b->op == O_FCONST)) {
    double x = fd(a); if (op == O_FISNAN) return mkBool(x != x); double y = fd(b);
    return mkBool(op == O_FLT ? x < y : op == O_FLE ? x <= y : x == y);
  }
  return mk(op, S_BOOL, 1, 0, a, b);
}
E mkFint(E bv, bool sgn) { if (bv->op == O_VCONST) return mkFd(sgn ? (double)sx(bv->c, bv->w) : (double)bv->c); return mk(sgn ? O_FSINT : O_FUINT, S_FP, 64, 0, bv); }
E mkFtoi(E a, int w, bool sgn) { return mk(O_FTOI, S_BV, w, sgn, a); }

EV Evaluator::ev(E e) {
  switch (e->op) {
    case O_TRUE: return {0, 1}; case O_FALSE: return {0, 0}; case O_VCONST: return {0, e->c};
    case O_VVAR: return {0, e->c < m.u.size() ? m.u[e->c] : 0}; case O_RVAR: case O_FVAR: return {e->c < m.d.size() ? m.d[e->c] : 0, 0};
    case O_FCONST: return {fd(e), 0}; default: break;
  }
  auto it = memo.find(e->id); if (it != memo.end()) return it->second;
  EV r{0, 0}; int w = e->w;
  auto A = [&]() { return ev(e->k[0]); }; auto B = [&]() { return ev(e->k[1]); }; auto C = [&]() { return ev(e->k[2]); };
  switch (e->op) {
    case O_RCONST: r.d = e->q->get_d(); break;
    case O_NOT: r.u = !A().u; break; case O_AND: r.u = A().u && B().u; break; case O_OR: r.u = A().u || B().u; break;
    case O_BEQ: r.u = (A().u != 0) == (B().u != 0); break;
    case O_EQ: r.u = A().u == B().u; break; case O_ULT: r.u = A().u < B().u; break; case O_ULE: r.u = A().u <= B().u; break;
    case O_SLT: { int iw = e->k[0]->w; r.u = sx(A().u, iw) < sx(B().u, iw); break; }
    case O_SLE: { int iw = e->k[0]->w; r.u = sx(A().u, iw) <= sx(B().u, iw); break; }
    case O_RLT: case O_FLT: r.u = A().d < B().d; break; case O_RLE: case O_FLE: r.u = A().d <= B().d; break;
    case O_REQ: case O_FEQ: r.u = A().d == B().d; break; case O_FISNAN: { double x = A().d; r.u = x != x; break; }
    case O_VADD: r.u = A().u + B().u; break; case O_VSUB: r.u = A().u - B().u; break; case O_VMUL: r.u = A().u * B().u; break;
    case O_UDIV: { auto y = B().u; r.u = y ? A().u / y : ~0ull; break; } case O_UREM: { auto y = B().u; r.u = y ? A().u % y : A().u; break; }
    case O_SDIV: { int64_t x = sx(A().u, w), y = sx(B().u, w); r.u = y == 0 ? (x < 0 ? 1 : -1) : y == -1 ? -x : x / y; break; }
    case O_SREM: { int64_t x = sx(A().u, w), y = sx(B().u, w); r.u = y == 0 ? x : y == -1 ? 0 : x % y; break; }
    case O_VAND: r.u = A().u & B().u; break; case O_VOR: r.u = A().u | B().u; break; case O_VXOR: r.u = A().u ^ B().u; break;
    case O_SHL: { auto y = B().u; r.u = y >= (uint64_t)w ? 0 : A().u << y; break; }
    case O_LSHR: { auto y = B().u; r.u = y >= (uint64_t)w ? 0 : A().u >> y; break; }
    case O_ASHR: { auto y = B().u; r.u = sx(A().u, w) >> (y >= (uint64_t)w ? 63 : y); break; }
    case O_ZEXT: r.u = A().u; break; case O_SEXT: r.u = sx(A().u, e->k[0]->w); break;
    case O_EXTRACT: r.u = A().u >> e->c; break; case O_CONCAT: r.u = (A().u << e->k[1]->w) | B().u; break;
    case O_VITE: case O_RITE: case O_FITE: r = A().u ? B() : C(); break;
    case O_RADD: case O_FADD: r.d = A().d + B().d; break; case O_RSUB: case O_FSUB: r.d = A().d - B().d; break;
    case O_RMUL: case O_FMUL: r.d = A().d * B().d; break; case O_RDIV: case O_FDIV: r.d = A().d / B().d; break;
    case O_RUINT: case O_FUINT: r.d = (double)A().u; break; case O_RSINT: case O_FSINT: r.d = (double)sx(A().u, e->k[0]->w); break;
    case O_FNEG: r.d = -A().d; break; case O_FABS: r.d = std::fabs(A().d); break;
    case O_FTOI: { double d = A().d; r.u = e->c ? (uint64_t)(int64_t)d : (uint64_t)d; break; }
    case O_RFUN: { double x = A().d; switch (e->c & 255) { case F_ROOT2: r.d = std::sqrt(x); break; case F_ROOT3: r.d = std::cbrt(x); break; case F_ROOT6: r.d = std::pow(x, 1.0 / 6); break;
        case F_SIN: r.d = std::sin(x); break; case F_COS: r.d = std::cos(x); break;
        default: { const std::string& n = *e->fname; r.d = n == "acos" ? std::acos(x) : n == "exp" ? std::exp(x) : n == "log" ? std::log(x) : n == "atan" ? std::atan(x) : n == "asin" ? std::asin(x) : NAN; } } break; }
    default: break;
  }
  if (e->sort == S_BV) r.u &= maskw(w);
  memo[e->id] = r; return r;
}
static mpf_class mpRoot(const mpf_class& x, int k) { mpf_class z(0, 640); if (x <= 0) return z; if (k == 2) { mpf_sqrt(z.get_mpf_t(), x.get_mpf_t()); return z; } if (k == 6) { mpf_sqrt(z.get_mpf_t(), x.get_mpf_t()); return mpRoot(z, 3); }
  z = std::cbrt(x.get_d()); if (z <= 0) z = 1e-100; for (int i = 0; i < 60; i++) z = (2 * z + x / (z * z)) / 3; return z; }
mpf_class EvaluatorMP::ev(E e) {
  mpf_class r(0, 640);
  if (e->op == O_RCONST) { r = mpf_class(*e->q, 640); return r; }
  if (e->op == O_RVAR) { r = e->c < m.d.size() ? m.d[e->c] : 0; return r; }
  auto it = memo.find(e->id); if (it != memo.end()) return it->second;
  switch (e->op) {
    case O_RADD: r = ev(e->k[0]) + ev(e->k[1]); break; case O_RSUB: r = ev(e->k[0]) - ev(e->k[1]); break; case O_RMUL: r = ev(e->k[0]) * ev(e->k[1]); break;
    case O_RDIV: { mpf_class b = ev(e->k[1]); if (b == 0) bad = true; else r = ev(e->k[0]) / b; break; }
    case O_RITE: r = evb(e->k[0]) ? ev(e->k[1]) : ev(e->k[2]); break;
    case O_RFUN: if ((e->c & 255) <= F_ROOT6) { mpf_class x = ev(e->k[0]); if (x < 0) bad = true; r = mpRoot(x, (e->c & 255) == F_ROOT2 ? 2 : (e->c & 255) == F_ROOT3 ? 3 : 6); break; } // fall through
    default: { double d = dbl.ev(e).d; if (!(std::fabs(d) < 1e300)) bad = true; else r = d; }
  }
  memo.emplace(e->id, r); return r;
}
bool EvaluatorMP::evb(E e) {
  auto it = bmemo.find(e->id); if (it != bmemo.end()) return it->second; bool r;
  switch (e->op) {
    case O_NOT: r = !evb(e->k[0]); break; case O_AND: r = evb(e->k[0]) && evb(e->k[1]); break; case O_OR: r = evb(e->k[0]) || evb(e->k[1]); break; case O_BEQ: r = evb(e->k[0]) == evb(e->k[1]); break;
    case O_RLT: r = ev(e->k[0]) < ev(e->k[1]); break; case O_RLE: r = ev(e->k[0]) <= ev(e->k[1]); break; case O_REQ: r = ev(e->k[0]) == ev(e->k[1]); break;
    default: r = dbl.evb(e); }
  bmemo[e->id] = r; return r;
}
void collectVars(E e, std::vector<E>& out) {
  std::unordered_set<uint32_t> seen; std::vector<E> st{e};
  while (!st.empty()) { E x = st.back(); st.pop_back(); if (!seen.insert(x->id).second) continue;
    if (x->op == O_VVAR || x->op == O_RVAR || x->op == O_FVAR || x->op == O_RFUN) out.push_back(x);
    for (int i = 0; i < 3; i++) if (x->k[i]) st.push_back(x->k[i]); }
}
size_t dagSize(E e, size_t cap) {
  std::unordered_set<uint32_t> seen; std::vector<E> st{e};
  while (!st.empty()) { E x = st.back(); st.pop_back(); if (!seen.insert(x->id).second) continue; if (seen.size() > cap) return cap + 1;
    for (int i = 0; i < 3; i++) if (x->k[i]) st.push_back(x->k[i]); }
  return seen.size();
}
static const char* opn[] = {"true","false","not","and","or","bite","beq","=","ult","ule","slt","sle","<","<=","=r","f<","f<=","f=","isnan","c","v","bvadd","bvsub","bvmul","udiv","sdiv","urem","srem","bvand","bvor","bvxor","shl","lshr","ashr","zext","sext","extract","concat","ite","r","rv","+","-","*","/","rite","ruint","rsint","rfun","fc","fv","f+","f-","f*","f/","fneg","fabs","fite","fuint","fsint","ftoi"};
std::string exprStr(E e, int depth) {
  if (e->op == O_VCONST) return std::to_string(e->c);
  if (e->op == O_RCONST) return std::to_string(e->q->get_d());
  if (e->op == O_FCONST) return std::to_string(fd(e));
  if (e->op == O_VVAR || e->op == O_RVAR || e->op == O_FVAR) return g_vars[e->c].name;
  if (depth == 0) return "#" + std::to_string(e->id);
  std::string s = "(" + std::string(opn[e->op]);
  for (int i = 0; i < 3; i++) if (e->k[i]) s += " " + exprStr(e->k[i], depth - 1);
  return s + ")";
}
