// Rational-function normal form over exact rationals (used to present real-arithmetic goals to the SMT solver).
#pragma once
#include "expr.h"
#include <map>
#include <memory>
#include <string>
typedef std::u32string Mono;                       // sorted (atom<<0, exp) packed as two u32 per entry
typedef std::vector<std::pair<Mono, mpq_class>> Poly;   // sorted by Mono, no zero coefficients
struct Frac { Poly n; std::map<int, int> den; };   // n / prod factors[i]^e
typedef std::shared_ptr<const Frac> FracP;
struct PolyLimit {};
struct PolyCtx {
  size_t maxTerms = 400000;
  std::function<bool(E)> split;                    // decide an ite condition on the current path (may fork)
  std::unordered_map<uint32_t, FracP> memo;
  std::vector<Poly> factors;
  std::unordered_map<uint32_t, E> atoms;           // atom id -> expr
  FracP expand(E e);
  Poly reduce(Poly p);                             // eliminate powers of root/sin atoms (up to a nonzero factor)
  static Poly add(const Poly& a, const Poly& b, int sign);
  Poly mul(const Poly& a, const Poly& b);
  static Poly scale(const Poly& a, const mpq_class& c);
  Poly powp(const Poly& a, int k);
  int factorId(const Poly& p, mpq_class& lead);
  E toExpr(const Poly& p);                         // back to a term (sum of monomials)
  bool bound(E e, double& lo, double& hi);         // sound interval from the boxes of the inputs
  bool boundPoly(const Poly& p, double& lo, double& hi);
private:
  void factorize(E b, std::map<int, int>& fac, Poly& numer, std::map<int,int>& facNum, mpq_class& c, int exp);
  void cancel(Frac& f);
  FracP addF(const Frac& a, const Frac& b, int sign);
};
