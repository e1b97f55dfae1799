// ------------------------------------------------------------------ scalar semantics
static int64_t sx64(uint64_t v, int w) { if (w >= 64) return (int64_t)v; uint64_t m = 1ull << (w - 1); v &= maskw(w); return (int64_t)((v ^ m) - m); }
static E toBV(Val v, int w) { if (!v.e) return mkBV(v.b, w); if (v.e->sort == S_BOOL) return boolToBV(v.e, w); if (v.e->sort != S_BV) inconclusive("integer operation on a symbolic double"); return v.e; }
static E toBool(Val v) { if (!v.e) return mkBool(v.b & 1); if (v.e->sort == S_BOOL) return v.e; return mkNot(mkCmp(O_EQ, v.e, mkBV(0, v.e->w))); }
static Val fromE(E e) { if (e->op == O_VCONST) return Val{e->c, nullptr}; if (e->op == O_TRUE) return Val{1, nullptr}; if (e->op == O_FALSE) return Val{0, nullptr}; if (e->op == O_FCONST) return Val{e->c, nullptr}; return Val{0, e}; }
static Val fromR(E e) { return Val{0, e}; }
static float asF(Val v) { float f; uint32_t u = v.b; memcpy(&f, &u, 4); return f; }
static Val mkF(float f) { uint32_t u; memcpy(&u, &f, 4); return Val{u, nullptr}; }
static Val intBin(unsigned opc, Val a, Val b, int w) {
  if (!a.e && !b.e) {
    uint64_t x = a.b, y = b.b, r = 0;
    switch (opc) {
      case Instruction::Add: r = x + y; break; case Instruction::Sub: r = x - y; break; case Instruction::Mul: r = x * y; break;
      case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem:
        if ((y & maskw(w)) == 0) { ensureModel(); violation("memory", "integer division by zero", "", g_model); finish(); }
        if (opc == Instruction::UDiv) r = x / y; else if (opc == Instruction::URem) r = x % y;
        else { int64_t p = sx64(x, w), q = sx64(y, w); if (q == -1) r = opc == Instruction::SDiv ? -(uint64_t)p : 0; else r = opc == Instruction::SDiv ? p / q : p % q; } break;
      case Instruction::And: r = x & y; break; case Instruction::Or: r = x | y; break; case Instruction::Xor: r = x ^ y; break;
      case Instruction::Shl: r = y >= (uint64_t)w ? 0 : x << y; break; case Instruction::LShr: r = y >= (uint64_t)w ? 0 : x >> y; break; case Instruction::AShr: r = sx64(x, w) >> (y >= (uint64_t)w ? 63 : y); break;
    }
    return Val{r & maskw(w), nullptr};
  }
  if (w == 1) {
    E x = toBool(a), y = toBool(b);
    switch (opc) { case Instruction::And: case Instruction::Mul: return fromE(mkAnd(x, y)); case Instruction::Or: return fromE(mkOr(x, y)); case Instruction::Xor: case Instruction::Add: case Instruction::Sub: return fromE(mkNot(mkBEq(x, y))); default: inconclusive("i1 operation"); }
  }
  // masks on symbolic doubles moved through integer registers: sign-bit tricks
  if (((a.e && a.e->sort == S_REAL) || (b.e && b.e->sort == S_REAL)) && w == 64) {
    Val s = a.e && a.e->sort == S_REAL ? a : b, k = a.e && a.e->sort == S_REAL ? b : a;
    if (!k.e && opc == Instruction::Xor && k.b == 0x8000000000000000ull) return fromR(mkRneg(s.e));
    if (!k.e && opc == Instruction::And && k.b == 0x7FFFFFFFFFFFFFFFull) return fromR(mkIte(mkRcmp(O_RLT, s.e, mkRd(0)), mkRneg(s.e), s.e));
    inconclusive("integer operation on the bits of a symbolic double");
  }
  E x = toBV(a, w), y = toBV(b, w); Op o;
  switch (opc) {
    case Instruction::Add: o = O_VADD; break; case Instruction::Sub: o = O_VSUB; break; case Instruction::Mul: o = O_VMUL; break;
    case Instruction::UDiv: o = O_UDIV; break; case Instruction::URem: o = O_UREM; break; case Instruction::SDiv: o = O_SDIV; break; case Instruction::SRem: o = O_SREM; break;
    case Instruction::And: o = O_VAND; break; case Instruction::Or: o = O_VOR; break; case Instruction::Xor: o = O_VXOR; break;
    case Instruction::Shl: o = O_SHL; break; case Instruction::LShr: o = O_LSHR; break; default: o = O_ASHR; break;
  }
  if ((o == O_UDIV || o == O_UREM || o == O_SDIV || o == O_SREM) && y->op != O_VCONST) { if (branch(mkCmp(O_EQ, y, mkBV(0, w)))) { ensureModel(); violation("memory", "integer division by zero", "", g_model); finish(); } }
  return fromE(mkV(o, x, y));
}
static bool isFP(Val a) { return a.e && a.e->sort == S_FP; }
static E toFP(Val a) { return a.e ? a.e : mkFd(asD(a)); }
static void chkReal(Val a) { if (a.e && a.e->sort != S_REAL && a.e->sort != S_FP) inconclusive("floating-point operation on symbolic integer bits"); }
static Val fpBin(unsigned opc, Val a, Val b) {
  if (!a.e && !b.e) { double x = asD(a), y = asD(b); switch (opc) { case Instruction::FAdd: return mkD(x + y); case Instruction::FSub: return mkD(x - y); case Instruction::FMul: return mkD(x * y); case Instruction::FDiv: return mkD(x / y); default: return mkD(fmod(x, y)); } }
  chkReal(a); chkReal(b);
  if (isFP(a) || isFP(b)) { Op o = opc == Instruction::FAdd ? O_FADD : opc == Instruction::FSub ? O_FSUB : opc == Instruction::FMul ? O_FMUL : O_FDIV; return fromE(mkFop(o, toFP(a), toFP(b))); }
  for (int i = 0; i < 2; i++) { Val k = i ? b : a; if (!k.e) { double d = asD(k); if (std::isnan(d)) return mkD(NAN); if (std::isinf(d)) { if (opc == Instruction::FAdd) return mkD(d); if (opc == Instruction::FSub) return mkD(i ? -d : d); if (opc == Instruction::FDiv && i) return mkD(0.0); return mkD(NAN);   /* whatever depends on it is reported and then replayed natively */ } } }
  if (opc == Instruction::FDiv) {
    if (!b.e) { if (asD(b) == 0.0) return mkD(NAN); }
    else {
      if (g_divCheck) { if (branch(mkRcmp(O_REQ, b.e, mkRd(0)))) return mkD(NAN); }
      else g_sh->divAssumed++;
    }
  }
  if (opc == Instruction::FRem) inconclusive("fmod of a symbolic double");
  Op o = opc == Instruction::FAdd ? O_RADD : opc == Instruction::FSub ? O_RSUB : opc == Instruction::FMul ? O_RMUL : O_RDIV;
  E r = mkRop(o, toR(a), toR(b));
  if (r->op == O_RCONST) { double d = r->q->get_d(); mpq_class q(d); if (q == *r->q) return mkD(d); }
  return fromR(r);
}
static Val fneg(Val a) { if (!a.e) return mkD(-asD(a)); chkReal(a); if (isFP(a)) return fromE(mkFun1(O_FNEG, a.e)); return fromR(mkRneg(a.e)); }
static Val fabsV(Val a) { if (!a.e) return mkD(std::fabs(asD(a))); chkReal(a); if (isFP(a)) return fromE(mkFun1(O_FABS, a.e)); return fromR(mkIte(mkRcmp(O_RLT, a.e, mkRd(0)), mkRneg(a.e), a.e)); }
static Val fcmp(unsigned p, Val a, Val b) {
  if (!a.e && !b.e) {
    double x = asD(a), y = asD(b); bool un = std::isnan(x) || std::isnan(y), r = false;
    switch (p) { case CmpInst::FCMP_FALSE: r = false; break; case CmpInst::FCMP_TRUE: r = true; break; case CmpInst::FCMP_OEQ: r = x == y; break; case CmpInst::FCMP_OGT: r = x > y; break; case CmpInst::FCMP_OGE: r = x >= y; break; case CmpInst::FCMP_OLT: r = x < y; break; case CmpInst::FCMP_OLE: r = x <= y; break; case CmpInst::FCMP_ONE: r = !un && x != y; break; case CmpInst::FCMP_ORD: r = !un; break; case CmpInst::FCMP_UNO: r = un; break;
      case CmpInst::FCMP_UEQ: r = un || x == y; break; case CmpInst::FCMP_UGT: r = un || x > y; break; case CmpInst::FCMP_UGE: r = un || x >= y; break; case CmpInst::FCMP_ULT: r = un || x < y; break; case CmpInst::FCMP_ULE: r = un || x <= y; break; case CmpInst::FCMP_UNE: r = un || x != y; break; }
    return Val{r, nullptr};
  }
  chkReal(a); chkReal(b);
  if (isFP(a) || isFP(b)) {
    E x = toFP(a), y = toFP(b); E un = mkOr(mkFcmp(O_FISNAN, x, nullptr), mkFcmp(O_FISNAN, y, nullptr)); E r;
    switch (p) { case CmpInst::FCMP_OEQ: r = mkFcmp(O_FEQ, x, y); break; case CmpInst::FCMP_UEQ: r = mkOr(un, mkFcmp(O_FEQ, x, y)); break; case CmpInst::FCMP_OGT: r = mkFcmp(O_FLT, y, x); break; case CmpInst::FCMP_OGE: r = mkFcmp(O_FLE, y, x); break; case CmpInst::FCMP_OLT: r = mkFcmp(O_FLT, x, y); break; case CmpInst::FCMP_OLE: r = mkFcmp(O_FLE, x, y); break;
      case CmpInst::FCMP_UGT: r = mkNot(mkFcmp(O_FLE, x, y)); break; case CmpInst::FCMP_UGE: r = mkNot(mkFcmp(O_FLT, x, y)); break; case CmpInst::FCMP_ULT: r = mkNot(mkFcmp(O_FLE, y, x)); break; case CmpInst::FCMP_ULE: r = mkNot(mkFcmp(O_FLT, y, x)); break; case CmpInst::FCMP_UNE: r = mkNot(mkFcmp(O_FEQ, x, y)); break; case CmpInst::FCMP_ONE: r = mkAnd(mkNot(un), mkNot(mkFcmp(O_FEQ, x, y))); break; case CmpInst::FCMP_ORD: r = mkNot(un); break; default: r = un; }
    return fromE(r);
  }
  bool unordered = p & 8; unsigned base = p & 7;
  for (int i = 0; i < 2; i++) { Val k = i ? b : a; if (!k.e) { double d = asD(k); if (std::isnan(d)) return Val{unordered, nullptr}; if (std::isinf(d)) { double x = i ? 0 : d, y = i ? d : 0; bool r = base == 1 ? false : base == 2 ? x > y : base == 3 ? x >= y : base == 4 ? x < y : base == 5 ? x <= y : true; if (base == 0) r = false; if (base == 7) r = true; return Val{r, nullptr}; } } }
  E x = toR(a), y = toR(b);
  switch (base) { case 0: return Val{unordered && p == CmpInst::FCMP_UNO ? 0ull : 0ull, nullptr}; case 1: return fromE(mkRcmp(O_REQ, x, y)); case 2: return fromE(mkRcmp(O_RLT, y, x)); case 3: return fromE(mkRcmp(O_RLE, y, x)); case 4: return fromE(mkRcmp(O_RLT, x, y)); case 5: return fromE(mkRcmp(O_RLE, x, y)); case 6: return fromE(mkNot(mkRcmp(O_REQ, x, y))); default: return Val{1, nullptr}; }
}
static Val icmp(unsigned p, Val a, Val b, int w) {
  if (!a.e && !b.e) {
    uint64_t x = a.b & maskw(w), y = b.b & maskw(w); int64_t s = sx64(x, w), t = sx64(y, w); bool r = false;
    switch (p) { case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break; case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break; case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break; case CmpInst::ICMP_SGT: r = s > t; break; case CmpInst::ICMP_SGE: r = s >= t; break; case CmpInst::ICMP_SLT: r = s < t; break; case CmpInst::ICMP_SLE: r = s <= t; break; }
    return Val{r, nullptr};
  }
  E x, y; if (w == 1) { x = toBool(a); y = toBool(b); if (p == CmpInst::ICMP_EQ) return fromE(mkBEq(x, y)); if (p == CmpInst::ICMP_NE) return fromE(mkNot(mkBEq(x, y))); x = boolToBV(x, 1); y = boolToBV(y, 1); }
  else {
    if (a.e && a.e->sort == S_REAL) { // bit comparison of a double moved through an integer register
      if (!b.e && b.b == 0 && (p == CmpInst::ICMP_EQ || p == CmpInst::ICMP_NE)) { E r = mkRcmp(O_REQ, a.e, mkRd(0)); return fromE(p == CmpInst::ICMP_EQ ? r : mkNot(r)); } }
    x = toBV(a, w); y = toBV(b, w); }
  E r;
  switch (p) { case CmpInst::ICMP_EQ: r = mkCmp(O_EQ, x, y); break; case CmpInst::ICMP_NE: r = mkNot(mkCmp(O_EQ, x, y)); break; case CmpInst::ICMP_UGT: r = mkCmp(O_ULT, y, x); break; case CmpInst::ICMP_UGE: r = mkCmp(O_ULE, y, x); break; case CmpInst::ICMP_ULT: r = mkCmp(O_ULT, x, y); break; case CmpInst::ICMP_ULE: r = mkCmp(O_ULE, x, y); break; case CmpInst::ICMP_SGT: r = mkCmp(O_SLT, y, x); break; case CmpInst::ICMP_SGE: r = mkCmp(O_SLE, y, x); break; case CmpInst::ICMP_SLT: r = mkCmp(O_SLT, x, y); break; default: r = mkCmp(O_SLE, x, y); }
  return fromE(r);
}
static Val selectV(Val c, Val a, Val b, TK tk, int w) {
  if (!c.e) return (c.b & 1) ? a : b;
  if (!a.e && !b.e && a.b == b.b) return a; if (a.e && a.e == b.e) return a;
  E cc = toBool(c);
  if (tk == T_PTR) return branch(cc) ? a : b;
  bool real = tk == T_DBL || (a.e && a.e->sort == S_REAL) || (b.e && b.e->sort == S_REAL);
  if (tk == T_FLT) return branch(cc) ? a : b;
  if (real) {
    if (isFP(a) || isFP(b) || g_fp) return fromE(mkIte(cc, toFP(a), toFP(b)));
    if ((!a.e && !std::isfinite(asD(a))) || (!b.e && !std::isfinite(asD(b))) || (tk != T_DBL && (!a.e || !b.e))) return branch(cc) ? a : b;
    return fromR(mkIte(cc, toR(a), toR(b)));
  }
  if (w == 1) return fromE(mkBIte(cc, toBool(a), toBool(b)));
  return fromE(mkIte(cc, toBV(a, w), toBV(b, w)));
}
static Val castV(unsigned opc, Val a, int sw, int w, TK stk, TK tk) {
  switch (opc) {
    case Instruction::Trunc: if (!a.e) return Val{a.b & maskw(w), nullptr}; { if (a.e->sort == S_REAL) inconclusive("truncation of symbolic double bits"); E e = mkExtract(toBV(a, sw), 0, w); if (w == 1) return fromE(mkCmp(O_EQ, e, mkBV(1, 1))); return fromE(e); }
    case Instruction::ZExt: if (!a.e) return Val{a.b & maskw(sw), nullptr}; return fromE(mkZext(a.e, w));
    case Instruction::SExt: if (!a.e) return Val{(uint64_t)sx64(a.b, sw) & maskw(w), nullptr}; return fromE(mkSext(a.e, w));
    case Instruction::FPTrunc: if (!a.e) return tk == T_FLT ? (stk == T_DBL || stk == T_LDBL ? mkF((float)asD(a)) : a) : a; return a;
    case Instruction::FPExt: if (!a.e) return stk == T_FLT ? mkD((double)asF(a)) : a; return a;
    case Instruction::FPToUI: case Instruction::FPToSI: {
      if (!a.e) { double d = stk == T_FLT ? asF(a) : asD(a); uint64_t r; if (opc == Instruction::FPToSI) r = (uint64_t)(int64_t)d; else r = (uint64_t)d; return Val{r & maskw(w), nullptr}; }
      if (isFP(a)) return fromE(mkFtoi(a.e, w, opc == Instruction::FPToSI));
      if ((a.e->op == O_RUINT || a.e->op == O_RSINT)) { E b = a.e->k[0]; if (b->w == w) return fromE(b); if (b->w < w) return fromE(a.e->op == O_RUINT ? mkZext(b, w) : mkSext(b, w)); return fromE(mkExtract(b, 0, w)); }
      // a real term built only from integers (an index computed through double arithmetic): fix those integers on this path and evaluate exactly
      { std::vector<E> st{a.e}, ints; std::set<uint32_t> seen; bool pure = true; while (!st.empty()) { E x = st.back(); st.pop_back(); if (!seen.insert(x->id).second) continue; if (x->op == O_RUINT || x->op == O_RSINT) { ints.push_back(x); continue; } if (x->op == O_RVAR || x->op == O_RFUN) pure = false; for (int i = 0; i < 3; i++) if (x->k[i]) st.push_back(x->k[i]); }
        if (pure) { std::map<uint32_t, mpq_class> val; for (E x : ints) { uint64_t u = concretize(Val{0, x->k[0]}, x->k[0]->w); mpz_class z; if (x->op == O_RSINT && sx64(u, x->k[0]->w) < 0) { mpz_import(z.get_mpz_t(), 1, 1, 8, 0, 0, &(u = (uint64_t)-sx64(u, x->k[0]->w))); z = -z; } else mpz_import(z.get_mpz_t(), 1, 1, 8, 0, 0, &u); val[x->id] = mpq_class(z); }
          std::function<mpq_class(E)> ev = [&](E x) -> mpq_class { auto it = val.find(x->id); if (it != val.end()) return it->second; mpq_class r; switch (x->op) { case O_RCONST: r = *x->q; break; case O_RADD: r = ev(x->k[0]) + ev(x->k[1]); break; case O_RSUB: r = ev(x->k[0]) - ev(x->k[1]); break; case O_RMUL: r = ev(x->k[0]) * ev(x->k[1]); break; case O_RDIV: { mpq_class d = ev(x->k[1]); if (d == 0) inconclusive("division by zero in an index"); r = ev(x->k[0]) / d; break; } case O_RITE: r = branch(x->k[0]) ? ev(x->k[1]) : ev(x->k[2]); break; default: inconclusive("conversion of a symbolic double to an integer"); } val[x->id] = r; return r; };
          mpq_class q = ev(a.e); mpz_class z = q.get_num() / q.get_den(); int64_t v = (int64_t)mpz_get_si(z.get_mpz_t()); return Val{(uint64_t)v & maskw(w), nullptr}; } }
      inconclusive("conversion of a symbolic double to an integer"); }
    case Instruction::UIToFP: case Instruction::SIToFP: {
      bool sg = opc == Instruction::SIToFP; if (!a.e) { if (tk == T_FLT) return mkF(sg ? (float)sx64(a.b, sw) : (float)a.b); return mkD(sg ? (double)sx64(a.b, sw) : (double)a.b); }
      if (tk == T_FLT) { uint64_t x = concretize(a, sw); return mkF(sg ? (float)sx64(x, sw) : (float)x); }
      E e = toBV(a, sw); if (g_fp) return fromE(mkFint(e, sg)); return fromR(mkRint(e, sg)); }
    default: return a;   // bitcast, ptrtoint, inttoptr
  }
}
// ------------------------------------------------------------------ functions on doubles
// Functions of equal arguments are one term, however the arguments are written: an argument that equals (as a rational function) one seen before is replaced by it.
struct RArg { int f; std::string name; double fp; E x; };
static std::vector<RArg> g_rargs;
static bool hasIte(E e) { std::vector<E> st{e}; std::set<uint32_t> seen; while (!st.empty()) { E x = st.back(); st.pop_back(); if (!seen.insert(x->id).second) continue; if (x->op == O_RITE || x->sort != S_REAL) return true; if (x->op == O_RUINT || x->op == O_RSINT) continue; for (int i = 0; i < 3; i++) if (x->k[i]) st.push_back(x->k[i]); } return false; }
static double rfinger(E x) { static Model m; for (size_t i = m.d.size(); i < g_vars.size(); i++) { double t = std::fmod(0.61803398875 * (i + 1) + 0.1 * std::sin(i * 1.7 + 0.3), 1.0); m.d.push_back(0.7 + 0.8 * std::fabs(t)); m.u.push_back(3 + i * 7); } Evaluator ev(m); return ev.ev(x).d; }
static bool sameReal(E a, E b, int sign) { if (a == b && sign > 0) return true; try { PolyCtx c; c.maxTerms = 20000; c.split = [](E) -> bool { throw PolyLimit(); }; return c.reduce(c.expand(mkRop(sign > 0 ? O_RSUB : O_RADD, a, b))->n).empty(); } catch (PolyLimit&) { return false; } }
static bool near1(double a, double b) { return std::fabs(a - b) <= 1e-9 * (1 + std::fabs(a)); }
static Val rfun(Fun f, E x, const char* name = nullptr, bool odd = false, bool even = false) {
  std::string nm = name ? name : ""; if (dagSize(x, 3000) >= 3000 || hasIte(x)) return fromR(mkRfun(f, x, name)); double fp = rfinger(x); if (!std::isfinite(fp)) return fromR(mkRfun(f, x, name));
  for (auto& r : g_rargs) if (r.f == f && r.name == nm) { if (r.x == x) return fromR(mkRfun(f, x, name)); if (near1(fp, r.fp) && sameReal(x, r.x, 1)) return fromR(mkRfun(f, r.x, name)); if ((odd || even) && near1(fp, -r.fp) && sameReal(x, r.x, -1)) { E y = mkRfun(f, r.x, name); return fromR(odd ? mkRneg(y) : y); } }
  g_rargs.push_back({f, nm, fp, x}); return fromR(mkRfun(f, x, name)); }
static Val realRoot(Fun f, E x) {
  if (f != F_ROOT6 && x->op == O_RDIV && x->k[0]->op == O_RCONST && *x->k[0]->q == 1) return fromR(mkRop(O_RDIV, mkRd(1), realRoot(f, x->k[1]).e));
  if (f == F_ROOT3) {
    if (x->op == O_RMUL && x->k[0] == x->k[1]) { E y = realRoot(f, x->k[0]).e; return fromR(mkRop(O_RMUL, y, y)); }
    auto isSqrt = [](E e) { return e->op == O_RFUN && (e->c & 255) == F_ROOT2; };
    auto known = [](int g, E e) -> E { if (hasIte(e) || dagSize(e, 3000) >= 3000) return nullptr; double fp = rfinger(e); for (auto& r : g_rargs) if (r.f == g && (r.x == e || (near1(fp, r.fp) && sameReal(e, r.x, 1)))) return r.x; return nullptr; };
    if (isSqrt(x)) { if (E y = known(F_ROOT3, x->k[0])) return fromR(mkRop(O_RDIV, x, mkRfun(F_ROOT3, y))); }
    else if (E y = known(F_ROOT2, x)) { E z = realRoot(f, mkRfun(F_ROOT2, y)).e; return fromR(mkRop(O_RMUL, z, z)); } }
  return rfun(f, x); }
static Val powi(Val x, long n) { if (n == 0) return mkD(1.0); bool neg = n < 0; if (neg) n = -n; Val r = x; for (long i = 1; i < n; i++) r = fpBin(Instruction::FMul, r, x); return neg ? fpBin(Instruction::FDiv, mkD(1.0), r) : r; }
static Val mathFn(const std::string& n, Val a, Val b) {
  if (!a.e && !b.e) {
    double x = asD(a), y = asD(b);
    if (n == "sqrt") return mkD(std::sqrt(x)); if (n == "pow") return mkD(std::pow(x, y)); if (n == "sin") return mkD(std::sin(x)); if (n == "cos") return mkD(std::cos(x)); if (n == "tan") return mkD(std::tan(x)); if (n == "acos") return mkD(std::acos(x)); if (n == "asin") return mkD(std::asin(x)); if (n == "atan") return mkD(std::atan(x)); if (n == "atan2") return mkD(std::atan2(x, y)); if (n == "exp") return mkD(std::exp(x)); if (n == "log") return mkD(std::log(x)); if (n == "log10") return mkD(std::log10(x)); if (n == "floor") return mkD(std::floor(x)); if (n == "ceil") return mkD(std::ceil(x)); if (n == "round") return mkD(std::round(x)); if (n == "trunc") return mkD(std::trunc(x)); if (n == "rint" || n == "nearbyint") return mkD(std::nearbyint(x)); if (n == "fmod") return mkD(std::fmod(x, y)); if (n == "cbrt") return mkD(std::cbrt(x)); if (n == "hypot") return mkD(std::hypot(x, y)); if (n == "copysign") return mkD(std::copysign(x, y)); if (n == "fmin" || n == "minnum") return mkD(std::fmin(x, y)); if (n == "fmax" || n == "maxnum") return mkD(std::fmax(x, y));
    inconclusive("math function " + n);
  }
  if (isFP(a) || isFP(b)) inconclusive("math function " + n + " in IEEE mode");
  if (n == "fmin" || n == "minnum") return selectV(fcmp(CmpInst::FCMP_OLT, a, b), a, b, T_DBL, 64);
  if (n == "fmax" || n == "maxnum") return selectV(fcmp(CmpInst::FCMP_OLT, a, b), b, a, T_DBL, 64);
  if (n == "copysign") { Val m = fabsV(a); return selectV(fcmp(CmpInst::FCMP_OLT, b, mkD(0)), fneg(m), m, T_DBL, 64); }
  if (n == "hypot") return mathFn("sqrt", fpBin(Instruction::FAdd, fpBin(Instruction::FMul, a, a), fpBin(Instruction::FMul, b, b)), mkD(0));
  if (n == "sqrt") {
    if (g_rootCheck && branch(mkRcmp(O_RLT, a.e, mkRd(0)))) return mkD(NAN);
    E x = a.e; if (x->op == O_RMUL && x->k[0] == x->k[1]) return fabsV(fromR(x->k[0]));
    return realRoot(F_ROOT2, x); }
  if (n == "cbrt") return realRoot(F_ROOT3, a.e);
  if (n == "pow") {
    if (b.e) inconclusive("pow with symbolic exponent");
    double y = asD(b); if (y == 0) return mkD(1.0); if (!a.e) inconclusive("pow");
    if (y == std::floor(y) && std::fabs(y) <= 12) return powi(a, (long)y);
    for (int k : {2, 3, 6}) { double t = y * k; double rt = std::round(t); if (std::fabs(t - rt) < 1e-13 * std::max(1.0, std::fabs(t)) && std::fabs(rt) <= 40) { Val r = realRoot(k == 2 ? F_ROOT2 : k == 3 ? F_ROOT3 : F_ROOT6, a.e); return powi(r, (long)rt); } }
    inconclusive("pow with exponent " + std::to_string(y)); }
  if (n == "cos" && a.e->op == O_RFUN && (a.e->c & 255) == F_UF && *a.e->fname == "acos") return fromR(a.e->k[0]);
  if (n == "sin" && a.e->op == O_RFUN && (a.e->c & 255) == F_UF && *a.e->fname == "acos") { Val x = fromR(a.e->k[0]); return mathFn("sqrt", fpBin(Instruction::FSub, mkD(1), fpBin(Instruction::FMul, x, x)), mkD(0)); }
  if (n == "sin") return rfun(F_SIN, a.e, nullptr, true); if (n == "cos") return rfun(F_COS, a.e, nullptr, false, true);
  if (n == "tan") return fpBin(Instruction::FDiv, rfun(F_SIN, a.e, nullptr, true), rfun(F_COS, a.e, nullptr, false, true));
  if (n == "acos" || n == "asin" || n == "atan" || n == "exp" || n == "log") return rfun(F_UF, a.e, n.c_str());
  inconclusive("math function " + n + " of a symbolic value");
}
// ------------------------------------------------------------------ calls
static void pushFrame(Function* F, const std::vector<Val>& args, int retDst, int retN, bool inv, int nb, int ub) {
  LFunc* L = lower(F); { static std::unordered_map<Function*, int> ids; if (ids.empty()) { int i = 0; for (auto& f : *M) if (!f.isDeclaration()) ids[&f] = i++; } int id = ids[F]; if (id < (1 << 17)) g_sh->fnSeen[id] = 1; }
  if (g_stack.size() > 3000) { ensureModel(); violation("nontermination", "unbounded recursion", F->getName().str(), g_model); finish(); }
  auto fr = std::make_unique<Frame>(); fr->f = L; fr->blk = 0; fr->pc = 0; fr->regs.resize(L->nregs + L->consts.size());
  if (!L->consts.empty()) memcpy(&fr->regs[L->nregs], L->consts.data(), L->consts.size() * sizeof(Val));
  size_t k = 0; for (size_t i = 0; i < L->args.size(); i++) for (int j = 0; j < L->argn[i]; j++) fr->regs[L->args[i] + j] = k < args.size() ? args[k++] : Val{0, nullptr};
  if (F->isVarArg()) { // every variadic argument is passed in the overflow area, 8 bytes each
    Obj* o = allocObj(8 * (args.size() - std::min(k, args.size())) + 8, 1); fr->allocas.push_back(o); fr->va = o->base; for (size_t i = k; i < args.size(); i++) storeMem(o->base + 8 * (i - k), 8, args[i]); }
  fr->retDst = retDst; fr->retN = retN; fr->isInvoke = inv; fr->nb = nb; fr->ub = ub;
  g_stack.push_back(std::move(fr));
}
static void popFrame() { for (Obj* o : g_stack.back()->allocas) { o->freed = true; } g_stack.pop_back(); }
static void enterBlock(Frame& f, int nb) {
  LBlock& B = f.f->blocks[nb]; 
  if (!B.phi.empty()) { auto it = B.phi.find(f.blk); if (it != B.phi.end()) { static std::vector<Val> tmp; tmp.clear(); for (auto& c : it->second) for (int i = 0; i < c.n; i++) tmp.push_back(f.regs[c.src + i]); size_t k = 0; for (auto& c : it->second) for (int i = 0; i < c.n; i++) f.regs[c.dst + i] = tmp[k++]; } }
  f.blk = nb; f.pc = 0;
}
// ---- exceptions
static uint64_t g_excObj = 0, g_excType = 0; static std::vector<std::pair<uint64_t, uint64_t>> g_caught;
static std::string globalNameAt(uint64_t a) { for (auto& g : g_gaddr) if (g.second == a) return g.first->getName().str(); return ""; }
static const std::map<std::string, std::string>& stdBases() { static std::map<std::string, std::string> m = {{"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"}, {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"}, {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt8bad_cast", "_ZTISt9exception"}}; return m; }
static bool typeMatches(uint64_t thrown, uint64_t want) {
  if (!want || thrown == want) return true; std::string t = globalNameAt(thrown), w = globalNameAt(want);
  for (int i = 0; i < 10; i++) { auto it = stdBases().find(t); if (it == stdBases().end()) break; t = it->second; if (t == w) return true; }
  // user types: __si_class_type_info {vptr, name, base}
  if (auto* gv = M->getNamedGlobal(t)) if (gv->hasInitializer() && gv->getInitializer()->getNumOperands() == 3) { std::vector<Val> v; constVals(gv->getInitializer(), v); return typeMatches(v[2].b, want); }
  return false;
}
[[maybe_unused]] static void unwind(uint64_t obj, uint64_t ti) {
  g_excObj = obj; g_excType = ti;
  for (;;) {
    // current frame is one that was executing a call; look at how *it* was entered
    if (g_stack.size() <= 1) { ensureModel(); violation("exception", "uncaught exception", globalNameAt(ti), g_model); finish(); }
    bool inv = g_stack.back()->isInvoke; int ub = g_stack.back()->ub; popFrame();
    if (!inv) continue;
    Frame& f = *g_stack.back(); 
    // does the landing pad apply?
    enterBlock(f, ub); LI& lp = f.f->blocks[ub].ins[0];
    if (lp.opc != Instruction::LandingPad) inconclusive("landing pad expected");
    auto* L = cast<LandingPadInst>(lp.I); uint64_t sel = 0; bool hit = L->isCleanup();
    for (unsigned i = 0; i < L->getNumClauses(); i++) if (L->isCatch(i)) { std::vector<Val> v; constVals(L->getClause(i), v); if (typeMatches(ti, v[0].b)) { sel = v[0].b ? (v[0].b & 0x7fffffff) : 1; hit = true; break; } }
    if (!hit) continue;
    f.regs[lp.dst] = Val{obj, nullptr}; f.regs[lp.dst + 1] = Val{sel & 0xffffffff, nullptr}; f.pc = 1; return;
  }
}
static void doThrowFromBuiltin(bool isInvoke, int ub, uint64_t obj, uint64_t ti) {
  // the throwing call is in the current frame: emulate a callee frame so that unwind() sees the invoke
  auto fr = std::make_unique<Frame>(); fr->f = g_stack.back()->f; fr->isInvoke = isInvoke; fr->ub = ub; g_stack.push_back(std::move(fr)); unwind(obj, ti);
}
// ------------------------------------------------------------------ builtins
typedef std::function<void(Frame&, LI&, std::vector<Val>&, Val&)> BFn;
static std::vector<std::pair<std::string, BFn>> g_bi; static std::unordered_map<std::string, int> g_biIdx;
static bool g_threw = false;
static void reg(const std::string& n, BFn f) { g_biIdx[n] = g_bi.size(); g_bi.emplace_back(n, f); }
static int builtinId(const std::string& n) {
  auto it = g_biIdx.find(n); if (it != g_biIdx.end()) return it->second;
  if (n.rfind("llvm.", 0) == 0) { // match by prefix of intrinsic base name
    std::string b = n; for (;;) { auto p = b.rfind('.'); if (p == std::string::npos || p <= 4) break; b = b.substr(0, p); it = g_biIdx.find(b); if (it != g_biIdx.end()) return it->second; } }
  return -1;
}
static uint64_t P(Val v) { return concretize(v, 64); }
static long g_warmCount = 0;
#include "warm.h"
static std::string uniq(const std::string& n) { int k = g_nameCount[n]++; return k ? n + "#" + std::to_string(k) : n; }
static void newVarModel() { g_model.d.resize(g_vars.size()); g_model.u.resize(g_vars.size()); auto& in = g_vars.back(); size_t i = g_vars.size() - 1; if (in.sort == S_BV) g_model.u[i] = in.ilo; else { double lo = in.lo, hi = in.hi; double f = 0.25 + 0.5 * ((i * 2654435761u % 1000) / 1000.0); if (lo > -1e300 && hi < 1e300) { double v = lo + f * (hi - lo); if (std::fabs(v) < 1e6) { double r = std::round(v * 4096) / 4096; if (r >= lo && r <= hi) v = r; } g_model.d[i] = v; } else g_model.d[i] = lo > -1e300 ? lo + 1 + f : hi < 1e300 ? hi - 1 - f : f; } }
static void initBuiltins() {
  auto nop = [](Frame&, LI&, std::vector<Val>&, Val&) {};
  for (const char* n : {"llvm.lifetime.start", "llvm.lifetime.end", "llvm.dbg.declare", "llvm.dbg.value", "llvm.assume", "llvm.experimental.noalias.scope.decl", "llvm.stackrestore", "llvm.invariant.start", "llvm.prefetch", "llvm.donothing", "__cxa_atexit", "__cxa_guard_release", "__cxa_guard_abort", "__cxa_end_catch", "__cxa_free_exception", "llvm.va_end", "fflush", "llvm.dbg.label", "llvm.dbg.assign", "_ZNSt16invalid_argumentD1Ev", "_ZNSt12out_of_rangeD1Ev", "_ZNSt12length_errorD1Ev", "_ZNSt11logic_errorD2Ev", "_ZNSt9exceptionD2Ev", "_ZNSt9exceptionD1Ev", "_ZNSt13runtime_errorD1Ev"}) reg(n, nop);
  reg("llvm.va_start", [](Frame& f, LI&, std::vector<Val>& a, Val&) { uint64_t p = P(a[0]); storeMem(p, 4, Val{48, nullptr}); storeMem(p + 4, 4, Val{176, nullptr}); storeMem(p + 8, 8, Val{f.va, nullptr}); storeMem(p + 16, 8, Val{0, nullptr}); });
  reg("llvm.va_copy", [](Frame&, LI&, std::vector<Val>& a, Val&) { copyMem(P(a[0]), P(a[1]), 24); });
  auto ret0 = [](Frame&, LI&, std::vector<Val>&, Val& r) { r = Val{0, nullptr}; };
  for (const char* n : {"clock", "time", "printf", "puts", "putchar", "fprintf", "vfprintf", "llvm.stacksave", "llvm.is.constant", "fputs", "fwrite", "fclose", "__printf_chk"}) reg(n, ret0);
  reg("__cxa_guard_acquire", [](Frame&, LI&, std::vector<Val>& a, Val& r) { uint64_t p = P(a[0]); access(p, 1, "guard"); uint8_t* g = (uint8_t*)p; r = Val{(uint64_t)(*g == 0), nullptr}; *g = 1; });
  auto mal = [](Frame&, LI&, std::vector<Val>& a, Val& r) { r = Val{allocObj(P(a[0]), 0)->base, nullptr}; };
  for (const char* n : {"malloc", "_Znwm", "_Znam", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t", "__cxa_allocate_exception", "_ZnwmSt11align_val_t"}) reg(n, mal);
  reg("calloc", [](Frame&, LI&, std::vector<Val>& a, Val& r) { uint64_t n = P(a[0]) * P(a[1]); Obj* o = allocObj(n, 0); memset((void*)o->base, 0, n); r = Val{o->base, nullptr}; });
  reg("posix_memalign", [](Frame&, LI&, std::vector<Val>& a, Val& r) { Obj* o = allocObj(P(a[2]), 0); storeMem(P(a[0]), 8, Val{o->base, nullptr}); r = Val{0, nullptr}; });
  reg("aligned_alloc", [](Frame&, LI&, std::vector<Val>& a, Val& r) { r = Val{allocObj(P(a[1]), 0)->base, nullptr}; });
  auto fr = [](Frame&, LI&, std::vector<Val>& a, Val&) { uint64_t p = P(a[0]); if (!p) return; Obj* o = findObj(p); if (!o || o->base != p || o->kind != 0) memError("invalid free", p, 0); if (o->freed) memError("double free", p, 0); o->freed = true; };
  for (const char* n : {"free", "_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t"}) reg(n, fr);
  reg("realloc", [](Frame&, LI&, std::vector<Val>& a, Val& r) { uint64_t p = P(a[0]), n = P(a[1]); Obj* o = allocObj(n, 0); if (p) { Obj* q = findObj(p); if (!q || q->freed) memError("realloc of stale pointer", p, 0); copyMem(o->base, p, std::min(n, q->size)); q->freed = true; } r = Val{o->base, nullptr}; });
  auto cpy = [](Frame&, LI&, std::vector<Val>& a, Val& r) { uint64_t d = P(a[0]); copyMem(d, P(a[1]), P(a[2])); r = Val{d, nullptr}; };
  for (const char* n : {"llvm.memcpy", "llvm.memmove", "memcpy", "memmove", "llvm.memcpy.inline"}) reg(n, cpy);
  auto mset = [](Frame&, LI&, std::vector<Val>& a, Val& r) { uint64_t d = P(a[0]), n = P(a[2]); r = Val{d, nullptr}; if (!n) return; Obj* o = access(d, n, "out-of-bounds or stale write (memset)"); if (o->sym) clearCells(o, d - o->base, n); if (a[1].e) { for (uint64_t i = 0; i < n; i++) storeMem(d + i, 1, Val{0, mkExtract(toBV(a[1], 8), 0, 8)}); } else memset((void*)d, (int)a[1].b, n); };
  for (const char* n : {"llvm.memset", "memset"}) reg(n, mset);
  reg("abort", [](Frame&, LI&, std::vector<Val>&, Val&) { ensureModel(); if (g_expectFatal) { g_sh->fatalOk++; endPath("abort"); } violation("abort", "abort", "abort() called", g_model); finish(); });
  reg("_ZSt9terminatev", [](Frame&, LI&, std::vector<Val>&, Val&) { ensureModel(); violation("abort", "terminate", "std::terminate called", g_model); finish(); });
  reg("exit", [](Frame&, LI&, std::vector<Val>&, Val&) { if (g_expectFatal) { g_sh->fatalOk++; endPath("exit"); } ensureModel(); violation("abort", "exit", "exit() called", g_model); finish(); });
  reg("__assert_fail", [](Frame&, LI&, std::vector<Val>& a, Val&) { ensureModel(); if (g_expectFatal) { g_sh->fatalOk++; endPath("assert"); } violation("abort", "assert: " + cstr(P(a[0])), cstr(P(a[1])), g_model); finish(); });
  reg("__cxa_pure_virtual", [](Frame&, LI&, std::vector<Val>&, Val&) { ensureModel(); violation("abort", "pure virtual call", "", g_model); finish(); });
  reg("llvm.trap", [](Frame&, LI&, std::vector<Val>&, Val&) { ensureModel(); violation("abort", "trap", "", g_model); finish(); });
  reg("__cxa_throw", [](Frame&, LI& l, std::vector<Val>& a, Val&) { g_threw = true; doThrowFromBuiltin(l.opc == Instruction::Invoke, l.b1, P(a[0]), P(a[1])); });
  reg("__cxa_rethrow", [](Frame&, LI& l, std::vector<Val>&, Val&) { g_threw = true; auto c = g_caught.back(); doThrowFromBuiltin(l.opc == Instruction::Invoke, l.b1, c.first, c.second); });
  reg("__cxa_begin_catch", [](Frame&, LI&, std::vector<Val>& a, Val& r) { g_caught.emplace_back(a[0].b, g_excType); r = a[0]; });
  reg("__cxa_get_exception_ptr", [](Frame&, LI&, std::vector<Val>& a, Val& r) { r = a[0]; });
  reg("llvm.eh.typeid.for", [](Frame&, LI&, std::vector<Val>& a, Val& r) { r = Val{a[0].b & 0x7fffffff, nullptr}; });
  for (const char* n : {"_ZNSt16invalid_argumentC1EPKc", "_ZNSt12out_of_rangeC1EPKc", "_ZNSt12length_errorC1EPKc", "_ZNSt11logic_errorC2EPKc", "_ZNSt11logic_errorC1EPKc"}) reg(n, nop);
  auto expect = [](Frame&, LI&, std::vector<Val>& a, Val& r) { r = a[0]; };
  for (const char* n : {"llvm.expect", "llvm.launder.invariant.group", "llvm.strip.invariant.group", "llvm.annotation", "llvm.ssa.copy", "llvm.threadlocal.address"}) reg(n, expect);
  reg("llvm.objectsize", [](Frame&, LI&, std::vector<Val>&, Val& r) { r = Val{~0ull, nullptr}; });
  reg("__errno_location", [](Frame&, LI&, std::vector<Val>&, Val& r) { static uint64_t e = 0; if (!e) { Obj* o = allocObj(8, 0); memset((void*)o->base, 0, 8); e = o->base; } r = Val{e, nullptr}; });
  // dynamic_cast over single/multiple inheritance via the type_info graph in the module
  reg("__dynamic_cast", [](Frame&, LI&, std::vector<Val>& a, Val& r) {
    uint64_t p = P(a[0]), dst = P(a[2]); uint64_t vp = loadMem(p, 8, T_PTR, 64).b; uint64_t ti = loadMem(vp - 8, 8, T_PTR, 64).b; int64_t top = (int64_t)loadMem(vp - 16, 8, T_INT, 64).b;
    std::function<bool(uint64_t, int64_t, int64_t&)> find = [&](uint64_t t, int64_t off, int64_t& res) -> bool { if (t == dst) { res = off; return true; } std::string n = globalNameAt(t); auto* gv = M->getNamedGlobal(n); if (!gv || !gv->hasInitializer()) return false; std::vector<Val> v; constVals(gv->getInitializer(), v); if (v.size() == 2) return false; if (v.size() == 3) return find(v[2].b, off, res); uint64_t cnt = v[3].b; for (uint64_t i = 0; i < cnt; i++) { if (find(v[4 + 2 * i].b, off + (int64_t)(v[5 + 2 * i].b) / 256, res)) return true; } return false; };
    int64_t off; r = Val{find(ti, 0, off) ? p + top + off : 0, nullptr}; });
  reg("__cxa_throw_bad_array_new_length", [](Frame&, LI&, std::vector<Val>&, Val&) { ensureModel(); violation("exception", "bad_array_new_length", "", g_model); finish(); });
  // integer intrinsics
  auto ov = [](unsigned opc, bool sg) { return [opc, sg](Frame& f, LI& l, std::vector<Val>& a, Val& r) { int w = (*l.leaves)[0].w; r = intBin(opc, a[0], a[1], w); Val o{0, nullptr};
      if (!a[0].e && !a[1].e) { __int128 x = sg ? (__int128)sx64(a[0].b, w) : (__int128)(a[0].b & maskw(w)), y = sg ? (__int128)sx64(a[1].b, w) : (__int128)(a[1].b & maskw(w)); __int128 z = opc == Instruction::Add ? x + y : opc == Instruction::Sub ? x - y : x * y; __int128 t = sg ? (__int128)sx64((uint64_t)z, w) : (__int128)((uint64_t)z & maskw(w)); o.b = z != t; }
      else { int w2 = std::min(64, 2 * w); if (w2 < 2 * w && opc == Instruction::Mul) { a[0] = Val{concretize(a[0], w), nullptr}; a[1] = Val{concretize(a[1], w), nullptr}; unsigned __int128 z = (unsigned __int128)a[0].b * a[1].b; r = Val{(uint64_t)z, nullptr}; o.b = (z >> 64) != 0; }
        else { E x = toBV(a[0], w), y = toBV(a[1], w); if (w == 64) { E s = toBV(r, w); o = fromE(opc == Instruction::Add ? (sg ? mkBool(false) : mkCmp(O_ULT, s, x)) : (sg ? mkBool(false) : mkCmp(O_ULT, x, y))); if (sg) inconclusive("symbolic signed 64-bit overflow intrinsic"); }
          else { E X = sg ? mkSext(x, w2) : mkZext(x, w2), Y = sg ? mkSext(y, w2) : mkZext(y, w2); Op op = opc == Instruction::Add ? O_VADD : opc == Instruction::Sub ? O_VSUB : O_VMUL; E Z = mkV(op, X, Y); E T = mkExtract(Z, 0, w); o = fromE(mkNot(mkCmp(O_EQ, Z, sg ? mkSext(T, w2) : mkZext(T, w2)))); } } }
      f.regs[l.dst + 1] = o; }; };
  reg("llvm.uadd.with.overflow", ov(Instruction::Add, false)); reg("llvm.sadd.with.overflow", ov(Instruction::Add, true)); reg("llvm.usub.with.overflow", ov(Instruction::Sub, false)); reg("llvm.ssub.with.overflow", ov(Instruction::Sub, true)); reg("llvm.umul.with.overflow", ov(Instruction::Mul, false)); reg("llvm.smul.with.overflow", ov(Instruction::Mul, true));
  auto mm = [](unsigned pred) { return [pred](Frame& f, LI& l, std::vector<Val>& a, Val& r) { int n = l.nl; for (int i = 0; i < n; i++) { Val c = icmp(pred, a[i], a[n + i], l.w); Val v = selectV(c, a[i], a[n + i], T_INT, l.w); f.regs[l.dst + i] = v; if (i == 0) r = v; } }; };
  reg("llvm.umin", mm(CmpInst::ICMP_ULT)); reg("llvm.umax", mm(CmpInst::ICMP_UGT)); reg("llvm.smin", mm(CmpInst::ICMP_SLT)); reg("llvm.smax", mm(CmpInst::ICMP_SGT));
  reg("llvm.abs", [](Frame&, LI& l, std::vector<Val>& a, Val& r) { Val z{0, nullptr}; r = selectV(icmp(CmpInst::ICMP_SLT, a[0], z, l.w), intBin(Instruction::Sub, z, a[0], l.w), a[0], T_INT, l.w); });
  reg("llvm.usub.sat", [](Frame&, LI& l, std::vector<Val>& a, Val& r) { r = selectV(icmp(CmpInst::ICMP_ULT, a[0], a[1], l.w), Val{0, nullptr}, intBin(Instruction::Sub, a[0], a[1], l.w), T_INT, l.w); });
  reg("llvm.uadd.sat", [](Frame&, LI& l, std::vector<Val>& a, Val& r) { Val s = intBin(Instruction::Add, a[0], a[1], l.w); r = selectV(icmp(CmpInst::ICMP_ULT, s, a[0], l.w), Val{maskw(l.w), nullptr}, s, T_INT, l.w); });
  reg("llvm.fshl", [](Frame&, LI& l, std::vector<Val>& a, Val& r) { int w = l.w; uint64_t k = concretize(a[2], w) % w; if (!k) { r = a[0]; return; } r = intBin(Instruction::Or, intBin(Instruction::Shl, a[0], Val{k, nullptr}, w), intBin(Instruction::LShr, a[1], Val{w - k, nullptr}, w), w); });
  reg("llvm.fshr", [](Frame&, LI& l, std::vector<Val>& a, Val& r) { int w = l.w; uint64_t k = concretize(a[2], w) % w; if (!k) { r = a[1]; return; } r = intBin(Instruction::Or, intBin(Instruction::Shl, a[0], Val{w - k, nullptr}, w), intBin(Instruction::LShr, a[1], Val{k, nullptr}, w), w); });
  reg("llvm.ctlz", [](Frame&, LI& l, std::vector<Val>& a, Val& r) { uint64_t x = concretize(a[0], l.w); int n = 0; for (int i = l.w - 1; i >= 0 && !((x >> i) & 1); i--) n++; r = Val{(uint64_t)n, nullptr}; });
  reg("llvm.cttz", [](Frame&, LI& l, std::vector<Val>& a, Val& r) { uint64_t x = concretize(a[0], l.w); int n = 0; for (int i = 0; i < l.w && !((x >> i) & 1); i++) n++; r = Val{(uint64_t)n, nullptr}; });
  reg("llvm.ctpop", [](Frame&, LI& l, std::vector<Val>& a, Val& r) { r = Val{(uint64_t)__builtin_popcountll(concretize(a[0], l.w)), nullptr}; });
  reg("llvm.bswap", [](Frame&, LI& l, std::vector<Val>& a, Val& r) { uint64_t x = concretize(a[0], l.w); r = Val{__builtin_bswap64(x) >> (64 - l.w), nullptr}; });
  // floating point
  reg("llvm.fabs", [](Frame& f, LI& l, std::vector<Val>& a, Val& r) { for (int i = 0; i < l.nl; i++) { Val v; if (l.tk == T_FLT && !a[i].e) v = mkF(std::fabs(asF(a[i]))); else v = fabsV(a[i]); f.regs[l.dst + i] = v; if (!i) r = v; } });
  reg("fabs", [](Frame&, LI&, std::vector<Val>& a, Val& r) { r = fabsV(a[0]); });
  reg("llvm.fmuladd", [](Frame&, LI& l, std::vector<Val>& a, Val& r) { r = fpBin(Instruction::FAdd, fpBin(Instruction::FMul, a[0], a[1]), a[2]); }); g_biIdx["llvm.fma"] = g_biIdx["llvm.fmuladd"]; g_biIdx["fma"] = g_biIdx["llvm.fmuladd"];
  for (const char* n : {"sqrt", "pow", "sin", "cos", "tan", "acos", "asin", "atan", "atan2", "exp", "log", "log10", "floor", "ceil", "round", "trunc", "rint", "nearbyint", "fmod", "cbrt", "hypot", "copysign", "fmin", "fmax", "minnum", "maxnum"}) {
    std::string nm = n; auto fn = [nm](Frame& f, LI& l, std::vector<Val>& a, Val& r) { int nl = l.nl; for (int i = 0; i < nl; i++) { Val b = (int)a.size() >= 2 * nl ? a[nl + i] : mkD(0); 
        if (l.tk == T_FLT && !a[i].e) { Val t = mathFn(nm, mkD(asF(a[i])), (int)a.size() >= 2 * nl ? mkD(asF(b)) : b); f.regs[l.dst + i] = mkF((float)asD(t)); } else f.regs[l.dst + i] = mathFn(nm, a[i], b); } r = f.regs[l.dst]; };
    reg(nm, fn); reg("llvm." + nm, fn); reg(nm + "f", fn); }
  reg("llvm.powi", [](Frame&, LI&, std::vector<Val>& a, Val& r) { r = powi(a[0], (int32_t)concretize(a[1], 32)); });
  auto red = [](unsigned opc) { return [opc](Frame&, LI& l, std::vector<Val>& a, Val& r) { bool fp = opc == Instruction::FAdd || opc == Instruction::FMul; size_t i = 1; r = a[0]; for (; i < a.size(); i++) r = fp ? fpBin(opc, r, a[i]) : intBin(opc, r, a[i], l.w); }; };
  reg("llvm.vector.reduce.fadd", red(Instruction::FAdd)); reg("llvm.vector.reduce.fmul", red(Instruction::FMul)); reg("llvm.vector.reduce.add", red(Instruction::Add)); reg("llvm.vector.reduce.mul", red(Instruction::Mul)); reg("llvm.vector.reduce.or", red(Instruction::Or)); reg("llvm.vector.reduce.and", red(Instruction::And)); reg("llvm.vector.reduce.xor", red(Instruction::Xor));
  reg("llvm.is.fpclass", [](Frame&, LI&, std::vector<Val>& a, Val& r) { uint64_t m = P(a[1]); if (a[0].e) { if (isFP(a[0])) inconclusive("fpclass in IEEE mode"); r = Val{(m & 0x3fc) == 0x1f8 || (m & 0x1f8) == 0x1f8 ? 1ull : 0ull, nullptr}; if (m & 0x1f8 && (m & 0x1f8) != 0x1f8) inconclusive("fpclass"); return; } double d = asD(a[0]); bool b = false; if (std::isnan(d)) b = m & 3; else if (std::isinf(d)) b = m & (d < 0 ? 4 : 512); else if (d == 0) b = m & (std::signbit(d) ? 32 : 64); else b = m & (d < 0 ? 8 : 256); r = Val{b, nullptr}; });
  // ---- harness intrinsics
  reg("__sym_double", [](Frame&, LI&, std::vector<Val>& a, Val& r) { if (g_warm) { r = mkD(warmD(g_warm, g_warmCount++, asD(a[1]), asD(a[2]))); return; } std::string n = uniq(cstr(P(a[0]))); double lo = asD(a[1]), hi = asD(a[2]); uint32_t i = g_vars.size(); g_vars.push_back(VarInfo{n, g_fp ? S_FP : S_REAL, 0, lo, hi, 0, 0}); newVarModel(); E v = g_fp ? mkFVar(i) : mkRVar(i);
    if (g_fp) { assumeC(mkFcmp(O_FLE, mkFd(lo), v)); assumeC(mkFcmp(O_FLE, v, mkFd(hi))); } else { if (lo > -1e300) addPc(mkRcmp(O_RLE, mkRd(lo), v)); if (hi < 1e300) addPc(mkRcmp(O_RLE, v, mkRd(hi))); } r = Val{0, v}; });
  reg("__sym_u64", [](Frame&, LI&, std::vector<Val>& a, Val& r) { if (g_warm) { r = Val{warmU(g_warm, g_warmCount++, P(a[1]), P(a[2])), nullptr}; return; } std::string n = uniq(cstr(P(a[0]))); uint64_t lo = P(a[1]), hi = P(a[2]); int w = (int)P(a[3]); if (lo == hi) { r = Val{lo, nullptr}; uint32_t i = g_vars.size(); (void)i; g_vars.push_back(VarInfo{n, S_BV, w, 0, 0, lo, hi}); newVarModel(); return; } uint32_t i = g_vars.size(); g_vars.push_back(VarInfo{n, S_BV, w, 0, 0, lo, hi}); newVarModel(); E v = mkVVar(i); if (lo) addPc(mkCmp(O_ULE, mkBV(lo, w), v)); if (hi < maskw(w)) addPc(mkCmp(O_ULE, v, mkBV(hi, w))); r = Val{0, mkZext(v, 64)}; });
  reg("__sym_assume", [](Frame&, LI&, std::vector<Val>& a, Val&) { assumeC(toBool(a[0])); });
  reg("__sym_check", [](Frame&, LI&, std::vector<Val>& a, Val&) { if (!g_warm) goalBool(toBool(a[0]), cstr(P(a[1])), "check"); });
  reg("__sym_eq", [](Frame&, LI&, std::vector<Val>& a, Val&) { if (!g_warm) goalEq(a[0], a[1], 0, cstr(P(a[2]))); });
  reg("__sym_near", [](Frame&, LI&, std::vector<Val>& a, Val&) { if (!g_warm) goalEq(a[0], a[1], asD(a[2]), cstr(P(a[3]))); });
  reg("__sym_reach", [](Frame&, LI&, std::vector<Val>& a, Val&) { if (!g_warm) g_reach.push_back(cstr(P(a[0]))); });
  reg("__sym_observe", [](Frame&, LI&, std::vector<Val>& a, Val&) { if (!g_warm) g_obs.emplace_back(cstr(P(a[0])), a[1]); });
  reg("__sym_fatal", [](Frame&, LI&, std::vector<Val>& a, Val&) { ensureModel(); if (g_expectFatal) { g_sh->fatalOk++; endPath("fatal"); } violation("fatal", "fatal: " + cstr(P(a[0])), "", g_model); finish(); });
  reg("__sym_expect_fatal", [](Frame&, LI&, std::vector<Val>& a, Val&) { g_expectFatal = (int)P(a[0]); });
  auto fmt = [](std::vector<Val>& a, size_t fi) { std::string f = cstr(P(a[fi])), out; size_t k = fi + 1;
    for (size_t i = 0; i < f.size(); i++) { if (f[i] != '%') { out += f[i]; continue; } if (f[i + 1] == '%') { out += '%'; i++; continue; }
      std::string sp = "%"; size_t j = i + 1; while (j < f.size() && strchr("0123456789.+- #lhzq*", f[j])) { if (f[j] == '*') inconclusive("printf width"); sp += f[j++]; } if (j >= f.size() || k >= a.size()) inconclusive("printf format"); char c = f[j]; sp += c; char buf[512];
      if (c == 's') snprintf(buf, sizeof buf, sp.c_str(), cstr(P(a[k])).c_str()); else if (strchr("diuxXc", c)) { uint64_t v = P(a[k]); if (sp.find('l') != std::string::npos || sp.find('z') != std::string::npos) snprintf(buf, sizeof buf, sp.c_str(), (long)v); else snprintf(buf, sizeof buf, sp.c_str(), (int)v); } else if (strchr("eEfgG", c)) { if (a[k].e) { if (a[k].e->sort != S_REAL) inconclusive("printing a symbolic double"); extern std::unordered_map<uint32_t, E> g_txt; g_txt[a[k].e->id] = a[k].e; snprintf(buf, sizeof buf, "\x01" "D%u\x02", a[k].e->id); } else snprintf(buf, sizeof buf, sp.c_str(), asD(a[k])); } else inconclusive("printf conversion");
      out += buf; k++; i = j; } return out; };
  auto put = [](uint64_t d, const std::string& s, uint64_t cap) { if (!cap) return; uint64_t n = std::min<uint64_t>(s.size(), cap - 1); for (uint64_t i = 0; i < n; i++) storeMem(d + i, 1, Val{(uint8_t)s[i], nullptr}); storeMem(d + n, 1, Val{0, nullptr}); };
  reg("snprintf", [fmt, put](Frame&, LI&, std::vector<Val>& a, Val& r) { std::string s = fmt(a, 2); put(P(a[0]), s, P(a[1])); r = Val{s.size(), nullptr}; });
  reg("sprintf", [fmt, put](Frame&, LI&, std::vector<Val>& a, Val& r) { std::string s = fmt(a, 1); put(P(a[0]), s, ~0ull); r = Val{s.size(), nullptr}; });
  reg("__sym_live", [](Frame&, LI&, std::vector<Val>&, Val& r) { uint64_t n = 0; for (Obj* o : g_objs) if (o && o->kind == 0 && !o->freed) n += o->size; r = Val{n, nullptr}; });
  reg("__sym_opt", [](Frame&, LI&, std::vector<Val>& a, Val&) { std::string o = cstr(P(a[0])); uint64_t v = P(a[1]); if (o == "fp") g_fp = v; else if (o == "div") g_divCheck = v; else if (o == "root") g_rootCheck = v; else if (o == "raw") g_checkRaw = v; });
  reg("__sym_concretize", [](Frame&, LI&, std::vector<Val>& a, Val& r) { r = Val{concretize(a[0], 64), nullptr}; });
  reg("__sym_fork", [](Frame&, LI&, std::vector<Val>& a, Val& r) { r = Val{(uint64_t)branch(toBool(a[0])), nullptr}; });
  reg("__sym_warm", [](Frame&, LI&, std::vector<Val>&, Val& r) { r = Val{(uint64_t)(uint32_t)g_warm, nullptr}; });
  reg("__sym_mode", [](Frame&, LI&, std::vector<Val>&, Val& r) { r = Val{1, nullptr}; });
  reg("__sym_nosuch", [](Frame&, LI&, std::vector<Val>& a, Val&) { inconclusive("unsupported library call: " + cstr(P(a[0]))); });
  // decimal text of a number, as printf would give it; a symbolic value is written as a placeholder understood by __sym_strtod
  reg("__sym_fmt_double", [](Frame&, LI&, std::vector<Val>& a, Val& r) { uint64_t buf = P(a[0]); std::string s; if (a[1].e) { if (a[1].e->sort != S_REAL) inconclusive("formatting"); static std::vector<E> tab; s = "\x01" "D" + std::to_string(a[1].e->id) + "\x02"; extern std::unordered_map<uint32_t, E> g_txt; g_txt[a[1].e->id] = a[1].e; } else { char b[400]; int pc = (int)P(a[2]); snprintf(b, 400, (pc >> 16) == 0 ? "%.*g" : (pc >> 16) == 1 ? "%.*e" : (pc >> 16) == 2 ? "%.*f" : "%.*a", pc & 0xffff, asD(a[1])); s = b; } for (size_t i = 0; i <= s.size(); i++) storeMem(buf + i, 1, Val{(uint64_t)(uint8_t)s.c_str()[i], nullptr}); r = Val{s.size(), nullptr}; });
  reg("__sym_parse_double", [](Frame&, LI&, std::vector<Val>& a, Val& r) { // (const char* text) -> value of a placeholder or of a concrete decimal string
    extern std::unordered_map<uint32_t, E> g_txt; std::string s; for (uint64_t p = P(a[0]); s.size() < 400; p++) { Val v = loadMem(p, 1, T_INT, 8); char c = (char)concretize(v, 8); if (!c) break; s += c; } if (s.size() > 2 && s[0] == 1) { uint32_t id = strtoul(s.c_str() + 2, nullptr, 10); auto it = g_txt.find(id); if (it == g_txt.end()) inconclusive("text placeholder"); r = Val{0, it->second}; } else r = mkD(strtod(s.c_str(), nullptr)); });
  reg("__sym_is_sym", [](Frame&, LI&, std::vector<Val>& a, Val& r) { r = Val{(uint64_t)(a[0].e != nullptr), nullptr}; });
}
std::unordered_map<uint32_t, E> g_txt;
// ------------------------------------------------------------------ main loop
static void run() {
  size_t base = g_stack.size();
  std::vector<Val> args;
  while (g_stack.size() >= base) {
    Frame* fp = g_stack.back().get(); Frame& f = *fp; LI& l = f.f->blocks[f.blk].ins[f.pc++]; Val* R = f.regs.data();
    if ((++g_instr & 0xfff) == 0) { deadlineCheck(); if (g_instr > g_maxInstr) { ensureModel(); violation("nontermination", "step bound", "more than the step bound of instructions on one path", g_model); finish(); } }
    switch (l.opc) {
      case Instruction::Ret: {
        std::vector<Val> rv; if (!l.o.empty()) for (int i = 0; i < f.f->retn; i++) rv.push_back(R[l.o[0] + i]);
        int rd = f.retDst; bool inv = f.isInvoke; int nb = f.nb; popFrame(); if (g_stack.size() < base) return;
        Frame& c = *g_stack.back(); if (rd >= 0) for (size_t i = 0; i < rv.size(); i++) c.regs[rd + i] = rv[i]; if (inv) enterBlock(c, nb); break; }
      case Instruction::Br: if (l.o.empty()) enterBlock(f, l.b0); else { Val c = R[l.o[0]]; bool t = c.e ? branch(toBool(c)) : (c.b & 1); enterBlock(f, t ? l.b0 : l.b1); } break;
      case Instruction::Switch: { Val c = R[l.o[0]]; int w = l.sw; int d = l.b0; if (!c.e) { for (auto& k : l.cases) if (k.first == (c.b & maskw(w))) { d = k.second; break; } } else { E e = toBV(c, w); for (auto& k : l.cases) if (branch(mkCmp(O_EQ, e, mkBV(k.first, w)))) { d = k.second; break; } } enterBlock(f, d); break; }
      case Instruction::Unreachable: ensureModel(); violation("abort", "unreachable code", "", g_model); finish();
      case Instruction::Alloca: { uint64_t n = concretize(R[l.o[0]], 64); Obj* o = allocObj(l.imm * n, 1); f.allocas.push_back(o); R[l.dst] = Val{o->base, nullptr}; break; }
      case Instruction::Load: { uint64_t a = P(R[l.o[0]]); R = f.regs.data(); if (l.nl == 1) { Leaf& lf = (*l.leaves)[0]; if (lf.tk == T_BAD) inconclusive("load type"); if (lf.tk == T_LDBL) { inconclusive("long double"); } Val v = loadMem(a, leafBytes(lf), lf.tk, lf.w); if (lf.tk == T_PTR && v.e) v = Val{concretize(v, 64), nullptr}; f.regs[l.dst] = v; } else for (int i = 0; i < l.nl; i++) { Leaf& lf = (*l.leaves)[i]; f.regs[l.dst + i] = loadMem(a + lf.off, leafBytes(lf), lf.tk, lf.w); } break; }
      case Instruction::Store: { uint64_t a = P(R[l.o[1]]); for (int i = 0; i < l.nl; i++) { Leaf& lf = (*l.leaves)[i]; if (lf.tk == T_BAD || lf.tk == T_LDBL) inconclusive("store type"); storeMem(a + lf.off, leafBytes(lf), f.regs[l.o[0] + i]); } break; }
      case Instruction::GetElementPtr: {
        if (l.nl > 1) inconclusive("vector gep");
        Val b = R[l.o[0]]; if (b.e) b = Val{concretize(b, 64), nullptr}; uint64_t a = b.b + l.imm; E sym = nullptr;
        for (size_t i = 0; i < l.gep.size(); i++) { Val x = R[l.gep[i].first]; int w = l.geps_w[i]; if (x.e) { E t = mkV(O_VMUL, mkSext(toBV(x, w), 64), mkBV(l.gep[i].second, 64)); sym = sym ? mkV(O_VADD, sym, t) : t; } else a += sx64(x.b, w) * l.gep[i].second; }
        if (sym) { E t = mkV(O_VADD, sym, mkBV(a, 64)); f.regs[l.dst] = fromE(t); } else R[l.dst] = Val{a, nullptr}; break; }
      case Instruction::ICmp: for (int i = 0; i < l.nl; i++) { Val r = icmp(l.pred, R[l.o[0] + i], R[l.o[1] + i], l.sw); R[l.dst + i] = r; } break;
      case Instruction::FCmp: for (int i = 0; i < l.nl; i++) { if (l.stk == T_FLT) { Val a = R[l.o[0] + i], b = R[l.o[1] + i]; if (!a.e) a = mkD(asF(a)); if (!b.e) b = mkD(asF(b)); R[l.dst + i] = fcmp(l.pred, a, b); } else R[l.dst + i] = fcmp(l.pred, R[l.o[0] + i], R[l.o[1] + i]); } break;
      case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
        if (l.tk == T_BAD) inconclusive("wide integer"); for (int i = 0; i < l.nl; i++) { Val r = intBin(l.opc, R[l.o[0] + i], R[l.o[1] + i], l.w); R[l.dst + i] = r; } break;
      case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem:
        for (int i = 0; i < l.nl; i++) { Val a = R[l.o[0] + i], b = R[l.o[1] + i], r; if (l.tk == T_FLT && !a.e && !b.e) { float x = asF(a), y = asF(b); float z = l.opc == Instruction::FAdd ? x + y : l.opc == Instruction::FSub ? x - y : l.opc == Instruction::FMul ? x * y : l.opc == Instruction::FDiv ? x / y : fmodf(x, y); r = mkF(z); } else { if (l.tk == T_FLT) { if (!a.e) a = mkD(asF(a)); if (!b.e) b = mkD(asF(b)); } r = fpBin(l.opc, a, b); } R[l.dst + i] = r; } break;
      case Instruction::FNeg: for (int i = 0; i < l.nl; i++) { if (l.tk == T_FLT && !R[l.o[0] + i].e) R[l.dst + i] = mkF(-asF(R[l.o[0] + i])); else R[l.dst + i] = fneg(R[l.o[0] + i]); } break;
      case Instruction::Select: { bool vecc = l.I->getOperand(0)->getType()->isVectorTy(); for (int i = 0; i < l.nl; i++) { Leaf& lf = (*l.leaves)[i]; Val r = selectV(R[l.o[0] + (vecc ? i : 0)], R[l.o[1] + i], R[l.o[2] + i], lf.tk, lf.w); f.regs[l.dst + i] = r; } break; }
      case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::FPTrunc: case Instruction::FPExt: case Instruction::FPToUI: case Instruction::FPToSI: case Instruction::UIToFP: case Instruction::SIToFP: case Instruction::PtrToInt: case Instruction::IntToPtr:
        if (l.tk == T_BAD || l.stk == T_BAD) inconclusive("wide integer cast"); for (int i = 0; i < l.nl; i++) { Val r = castV(l.opc, R[l.o[0] + i], l.sw, l.w, l.stk, l.tk); f.regs[l.dst + i] = r; } break;
      case Instruction::BitCast: { int sn = leafCache(l.I->getOperand(0)->getType())->size(); if (sn == l.nl) { for (int i = 0; i < l.nl; i++) R[l.dst + i] = R[l.o[0] + i]; } else { // reinterpret through bytes
          static uint64_t tmp = 0; if (!tmp) tmp = allocObj(256, 0)->base; auto* sl = leafCache(l.I->getOperand(0)->getType()); for (size_t i = 0; i < sl->size(); i++) storeMem(tmp + (*sl)[i].off, leafBytes((*sl)[i]), R[l.o[0] + i]); for (int i = 0; i < l.nl; i++) { Leaf& lf = (*l.leaves)[i]; R[l.dst + i] = loadMem(tmp + lf.off, leafBytes(lf), lf.tk, lf.w); } } break; }
      case Instruction::Freeze: for (int i = 0; i < l.nl; i++) R[l.dst + i] = R[l.o[0] + i]; break;
      case Instruction::ExtractValue: for (int i = 0; i < l.nl; i++) R[l.dst + i] = R[l.o[0] + l.imm + i]; break;
      case Instruction::InsertValue: for (int i = 0; i < l.nl; i++) R[l.dst + i] = R[l.o[0] + i]; for (int i = 0; i < l.b0; i++) R[l.dst + l.imm + i] = R[l.o[1] + i]; break;
      case Instruction::ExtractElement: { uint64_t k = concretize(R[l.o[1]], 64); R = f.regs.data(); R[l.dst] = R[l.o[0] + k]; break; }
      case Instruction::InsertElement: { uint64_t k = concretize(R[l.o[2]], 64); R = f.regs.data(); Val v = R[l.o[1]]; for (int i = 0; i < l.nl; i++) R[l.dst + i] = R[l.o[0] + i]; R[l.dst + k] = v; break; }
      case Instruction::ShuffleVector: { static std::vector<Val> t; t.clear(); for (auto& c : l.cases) { int m = c.second; t.push_back(m < 0 ? Val{0, nullptr} : m < l.b0 ? R[l.o[0] + m] : R[l.o[1] + m - l.b0]); } for (int i = 0; i < l.nl; i++) R[l.dst + i] = t[i]; break; }
      case Instruction::LandingPad: break;   // filled in by unwind()
      case Instruction::Resume: { uint64_t obj = R[l.o[0]].b; uint64_t ti = g_excType; auto fr = std::make_unique<Frame>(); fr->f = f.f; fr->isInvoke = false; g_stack.push_back(std::move(fr)); unwind(obj, ti); break; }
      case Instruction::Fence: break;
      case Instruction::AtomicRMW: { auto* ai = cast<AtomicRMWInst>(l.I); uint64_t a = P(R[l.o[0]]); Val o = loadMem(a, (l.w + 7) / 8, T_INT, l.w); Val n = ai->getOperation() == AtomicRMWInst::Add ? intBin(Instruction::Add, o, R[l.o[1]], l.w) : ai->getOperation() == AtomicRMWInst::Sub ? intBin(Instruction::Sub, o, R[l.o[1]], l.w) : R[l.o[1]]; storeMem(a, (l.w + 7) / 8, n); f.regs[l.dst] = o; break; }
      case Instruction::Call: case Instruction::Invoke: {
        Function* F = l.callee; int na = (int)l.imm; bool inv = l.opc == Instruction::Invoke;
        if (!F) { if (l.o[na] < 0) { // inline asm: only empty barriers occur
            break; }
          uint64_t a = P(f.regs[l.o[na]]); auto it = g_fnAddr.find(a); if (it == g_fnAddr.end()) memError("call through an invalid pointer", a, 0); F = it->second; }
        args.clear(); auto* cb = cast<CallBase>(l.I);
        for (int i = 0; i < na; i++) { if (l.o[i] < 0) { args.push_back(Val{0, nullptr}); continue; } 
          if (cb->isByValArgument(i)) { Type* bt = cb->getParamByValType(i); uint64_t n = DL->getTypeAllocSize(bt).getFixedValue(); Obj* o = allocObj(n, 1); f.allocas.push_back(o); copyMem(o->base, P(f.regs[l.o[i]]), n); args.push_back(Val{o->base, nullptr}); continue; }
          int k = leafCache(cb->getArgOperand(i)->getType())->size(); for (int j = 0; j < k; j++) args.push_back(f.regs[l.o[i] + j]); }
        int bi = l.callee ? l.bi : (F->isDeclaration() ? builtinId(F->getName().str()) : -1);
        if (bi >= 0) {
          Val r{0, nullptr}; g_threw = false; std::vector<Val> a2 = args; g_bi[bi].second(f, l, a2, r);
          if (g_threw) break;
          if (l.dst >= 0 && l.nl >= 1) f.regs[l.dst] = r;
          if (inv) enterBlock(f, l.b0); break; }
        if (F->isDeclaration()) inconclusive("call to external function " + demangle(F->getName().str()));
        pushFrame(F, args, l.dst, l.nl, inv, l.b0, l.b1); break; }
      default: inconclusive(std::string("instruction ") + l.I->getOpcodeName());
    }
  }
}
static void callVoid(Function* F) { pushFrame(F, {}, -1, 0, false, -1, -1); run(); }

// runs the entry once on concrete values; if that ends normally the process that did it goes on with the symbolic run
static void warmUp(Function* F) {
  for (int mode = 1; mode <= 12; mode++) {
    int p[2]; if (pipe(p)) return; pid_t pid = fork(); if (pid < 0) return;
    if (pid == 0) {
      close(p[0]); bool fp = g_fp, dc = g_divCheck, rc = g_rootCheck, raw = g_checkRaw; uint64_t mi = g_maxInstr, i0 = g_instr; g_maxInstr = i0 + 20000000; g_warm = mode; g_warmCount = 0;
      callVoid(F);
      if (auto* R = M->getFunction("symx_reset")) callVoid(R);
      g_warm = 0; g_warmMode = mode; g_sh->warm = mode; g_maxInstr = mi; g_instr = i0; g_fp = fp; g_divCheck = dc; g_rootCheck = rc; g_checkRaw = raw; g_expectFatal = 0;
      if (write(p[1], "k", 1) != 1) _exit(1); close(p[1]); return; }
    close(p[1]); char c; ssize_t n = read(p[0], &c, 1); close(p[0]); if (n == 1) _exit(0);   // the child has taken over
    int st; waitpid(pid, &st, 0); }
}

int main(int argc, char** argv) {
  std::vector<std::string> files; std::string out = "/dev/stdout"; double budget = 600;
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--entry") g_entry = nx(); else if (a == "--nowarm") g_warmOn = false; else if (a == "--out") out = nx(); else if (a == "--procs") g_maxProcs = atoi(nx().c_str()); else if (a == "--budget") budget = atof(nx().c_str()); else if (a == "--rlimit") g_rlimit = strtoul(nx().c_str(), nullptr, 10); else if (a == "--max-paths") g_maxPaths = atol(nx().c_str()); else if (a == "--max-instr") g_maxInstr = strtoull(nx().c_str(), nullptr, 10); else if (a == "--snap") g_snap = true; else if (a == "--list") { SMDiagnostic e; auto m = parseIRFile(argv[i + 1], e, g_ctx); if (!m) return 3; for (auto& f : *m) if (!f.isDeclaration() && f.getName().starts_with("H_")) printf("%s\n", f.getName().str().c_str()); return 0; } else files.push_back(a); }
  g_debug = getenv("SYMX_DEBUG") != nullptr;
  SMDiagnostic err; for (auto& fn : files) { auto m = parseIRFile(fn, err, g_ctx); if (!m) { err.print("symx", errs()); return 3; } if (!M) M = std::move(m); else if (Linker::linkModules(*M, std::move(m))) { fprintf(stderr, "link failed\n"); return 3; } }
  DL = &M->getDataLayout(); g_out = open(out.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
  g_sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  g_sh->live = 1; g_sh->paths = 1; double t0 = nowSec(); g_sh->deadline_ms = (long)((t0 + budget) * 1000);
  Function* F = M->getFunction(g_entry); if (!F || F->isDeclaration()) { fprintf(stderr, "no entry %s\n", g_entry.c_str()); return 3; }
  int pfd[2]; if (pipe(pfd)) return 3; prctl(PR_SET_CHILD_SUBREAPER, 1);
  memInit(); initBuiltins();
  std::vector<std::string> fnames;
  // lower every function lazily; ids are stable only within this process tree, so assign them up front
  { for (auto& f : *M) if (!f.isDeclaration()) { fnames.push_back(f.getName().str()); } }
  pid_t root = fork();
  if (root == 0) {
    close(pfd[0]); setpgid(0, 0);
    S = new Solver; S->poly.split = [](E c) { bool r = branch(c); S->splits.push_back(r ? c : mkNot(c)); return r; };
    // fixed numbering: map by name order
    { std::unordered_map<std::string, int> ix; for (size_t i = 0; i < fnames.size(); i++) ix[fnames[i]] = i; 
      for (auto& f : *M) if (!f.isDeclaration()) { (void)f; } }
    for (auto& g : M->globals()) gaddr(&g);
    if (auto* gc = M->getNamedGlobal("llvm.global_ctors")) if (gc->hasInitializer()) if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer())) { std::vector<std::pair<uint64_t, Function*>> fs; for (auto& op : ca->operands()) { auto* cs = cast<ConstantStruct>(op); fs.emplace_back(cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())); } std::stable_sort(fs.begin(), fs.end(), [](auto& a, auto& b) { return a.first < b.first; }); for (auto& x : fs) if (x.second) callVoid(x.second); }
    if (g_warmOn) warmUp(F);
    callVoid(F); endPath("ok");
  }
  close(pfd[1]); char c;
  double hard = budget + 60; fd_set rs; bool killed = false;
  for (;;) { FD_ZERO(&rs); FD_SET(pfd[0], &rs); timeval tv{1, 0}; int r = select(pfd[0] + 1, &rs, nullptr, nullptr, &tv); if (r > 0) { if (read(pfd[0], &c, 1) == 0) break; }
    int st; pid_t w; while ((w = waitpid(-1, &st, WNOHANG)) > 0) { if (!WIFEXITED(st) || WEXITSTATUS(st)) { g_sh->inconclusive++; emit("{\"type\":\"inconclusive\",\"entry\":" + jstr(g_entry) + ",\"reason\":\"path process died (signal " + std::to_string(WIFSIGNALED(st) ? WTERMSIG(st) : 0) + ")\",\"where\":\"\",\"model\":{}}"); } }
    if (nowSec() - t0 > hard) { kill(-root, SIGKILL); killed = true; break; } }
  { int st; pid_t w; while ((w = waitpid(-1, &st, 0)) > 0) { if (!killed && (!WIFEXITED(st) || WEXITSTATUS(st))) { g_sh->inconclusive++; emit("{\"type\":\"inconclusive\",\"entry\":" + jstr(g_entry) + ",\"reason\":\"path process died (signal " + std::to_string(WIFSIGNALED(st) ? WTERMSIG(st) : 0) + ")\",\"where\":\"\",\"model\":{}}"); } } }
  if (killed) { g_sh->inconclusive++; emit("{\"type\":\"inconclusive\",\"entry\":" + jstr(g_entry) + ",\"reason\":\"hard time limit\",\"where\":\"\",\"model\":{}}"); }
  std::ostringstream s; auto L = [&](const char* n, std::atomic<long>& v) { s << ",\"" << n << "\":" << v.load(); };
  s << "{\"type\":\"summary\",\"entry\":" << jstr(g_entry); L("paths", g_sh->paths); L("ok_paths", g_sh->okPaths); L("assume_killed", g_sh->assumeKilled); L("fatal_expected", g_sh->fatalOk); L("warm", g_sh->warm); L("forks", g_sh->forks); L("queries", g_sh->queries); L("sat", g_sh->qsat); L("unsat", g_sh->qunsat); L("unknown", g_sh->qunk); L("solver_us", g_sh->solver_us); L("instructions", g_sh->instrs); L("goals", g_sh->goals); L("goals_concrete", g_sh->goalsConcrete); L("goals_solver", g_sh->goalsSolver); L("goals_syntactic", g_sh->goalsSyntactic); L("raw_crosschecks", g_sh->goalsRaw); L("raw_agree", g_sh->rawAgree); L("poly_terms", g_sh->polyTerms); L("max_path_condition", g_sh->maxPathCond); L("model_guesses", g_sh->guesses); L("violations", g_sh->violations); L("inconclusive", g_sh->inconclusive); L("divisions_assumed_nonzero", g_sh->divAssumed); L("witness", g_sh->witness); L("stopped", g_sh->stop);
  s << ",\"wall\":" << (nowSec() - t0) << ",\"functions\":[";
  bool first = true; { size_t i = 0; for (auto& f : *M) if (!f.isDeclaration()) { if (i < (1 << 17) && g_sh->fnSeen[i]) { std::string n = demangle(f.getName().str()); if (n.find("nla3d") != std::string::npos && n.find("std::") != 0 && n.find("Eigen::") != 0) { s << (first ? "" : ",") << jstr(n); first = false; } } i++; } }
  s << "]}"; emit(s.str());
  return 0;
}
