// Hash-consed symbolic terms.  Sorts: Bool, BV(w<=64), Real (exact), FP (IEEE double).
#pragma once
#include <cstdint>
#include <cstring>
#include <gmpxx.h>
#include <string>
#include <vector>
#include <unordered_map>
#include <functional>

enum Sort : uint8_t { S_BOOL, S_BV, S_REAL, S_FP };
enum Op : uint8_t {
  // Bool
  O_TRUE, O_FALSE, O_NOT, O_AND, O_OR, O_BITE, O_BEQ,
  O_EQ, O_ULT, O_ULE, O_SLT, O_SLE,          // over BV
  O_RLT, O_RLE, O_REQ,                       // over Real
  O_FLT, O_FLE, O_FEQ, O_FISNAN,             // over FP
  // BV
  O_VCONST, O_VVAR, O_VADD, O_VSUB, O_VMUL, O_UDIV, O_SDIV, O_UREM, O_SREM,
  O_VAND, O_VOR, O_VXOR, O_SHL, O_LSHR, O_ASHR, O_ZEXT, O_SEXT, O_EXTRACT, O_CONCAT, O_VITE,
  // Real
  O_RCONST, O_RVAR, O_RADD, O_RSUB, O_RMUL, O_RDIV, O_RITE, O_RUINT, O_RSINT, O_RFUN,
  // FP
  O_FCONST, O_FVAR, O_FADD, O_FSUB, O_FMUL, O_FDIV, O_FNEG, O_FABS, O_FITE, O_FUINT, O_FSINT, O_FTOI
};
enum Fun : uint8_t { F_ROOT2, F_ROOT3, F_ROOT6, F_SIN, F_COS, F_UF };

struct Expr {
  Op op; Sort sort; uint16_t w; uint32_t id;
  uint64_t c = 0;          // VCONST value / FCONST bits / var index / extract lo / fun kind
  const Expr* k[3] = {nullptr, nullptr, nullptr};
  const mpq_class* q = nullptr;
  const std::string* fname = nullptr;
};
typedef const Expr* E;

struct VarInfo { std::string name; Sort sort; int w; double lo, hi; uint64_t ilo, ihi; };
extern std::vector<VarInfo> g_vars;           // input variables
extern uint32_t g_nexpr;

uint64_t maskw(int w);
E mkTrue(); E mkFalse(); E mkBool(bool b);
E mkNot(E a); E mkAnd(E a, E b); E mkOr(E a, E b); E mkBIte(E c, E a, E b); E mkBEq(E a, E b);
E mkBV(uint64_t v, int w);
E mkVVar(uint32_t idx); E mkRVar(uint32_t idx); E mkFVar(uint32_t idx);
E mkV(Op op, E a, E b);
E mkZext(E a, int w); E mkSext(E a, int w); E mkExtract(E a, int lo, int w); E mkConcat(E hi, E lo);
E mkIte(E c, E a, E b);           // dispatches on sort
E mkCmp(Op op, E a, E b);         // EQ ULT ULE SLT SLE
E mkR(const mpq_class& q); E mkRd(double d);
E mkRop(Op op, E a, E b);         // RADD RSUB RMUL RDIV
E mkRcmp(Op op, E a, E b);        // RLT RLE REQ
E mkRneg(E a);
E mkRint(E bv, bool sgn);
E mkRfun(Fun f, E a, const char* name = nullptr);
E mkFd(double d); E mkFop(Op op, E a, E b); E mkFun1(Op op, E a); E mkFcmp(Op op, E a, E b); E mkFint(E bv, bool sgn);
E mkFtoi(E a, int w, bool sgn);
E boolToBV(E b, int w);

struct Model {            // values for input variables
  std::vector<double> d;  // reals / fp
  std::vector<uint64_t> u;
};
struct EV { double d; uint64_t u; };
struct Evaluator {
  const Model& m; std::unordered_map<uint32_t, EV> memo;
  Evaluator(const Model& mm) : m(mm) {}
  EV ev(E e);
  bool evb(E e) { return ev(e).u != 0; }
};
// the same in 640-bit arithmetic: separates genuine disagreement of real terms from cancellation in doubles
struct EvaluatorMP {
  const Model& m; Evaluator dbl; std::unordered_map<uint32_t, mpf_class> memo; std::unordered_map<uint32_t, bool> bmemo; bool bad = false;
  EvaluatorMP(const Model& mm) : m(mm), dbl(mm) {}
  mpf_class ev(E e); bool evb(E e);
};
void collectVars(E e, std::vector<E>& vars);   // O_*VAR and O_RFUN leaves (closed transitively)
size_t dagSize(E e, size_t cap);
std::string exprStr(E e, int depth = 6);
