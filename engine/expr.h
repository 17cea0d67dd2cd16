// Hash-consed symbolic expression DAG shared by the interpreter and the solver
// layer.  Integers are bit-vectors, doubles are either IEEE (FP mode) or exact
// reals (real mode).
#pragma once
#include <cstdint>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>
#include <gmpxx.h>

typedef unsigned __int128 u128;
typedef __int128 i128;

enum class SK : uint8_t { Bool, BV, FP, Real };
struct Sort {
  SK k;
  uint16_t w;  // BV width, FP width (32/64)
  bool operator==(const Sort& o) const { return k == o.k && w == o.w; }
};

enum class Op : uint8_t {
  // leaves
  Var, Const,
  // bool
  Not, And, Or, Xor, IteOp, Eq,
  // bit-vectors
  BAdd, BSub, BMul, BUDiv, BSDiv, BURem, BSRem, BAnd, BOr, BXor, BShl, BLShr, BAShr,
  BUlt, BUle, BSlt, BSle, ZExt, SExt, Extract, Concat,
  // IEEE
  FAdd, FSub, FMul, FDiv, FRem, FNeg, FAbs, FSqrt, FRound /*aux: mode*/, FEq, FLt, FLe, FIsNaN, FIsInf,
  FToF, FToS, FToU, SToF, UToF, FFromBits, FToBits, FUF,
  // reals
  RAdd, RMul, RInv, RSqrt, RUF, REq, RLt, RLe, RFloor, RFromS, RBits,
};

struct Expr;
typedef const Expr* E;

struct Expr {
  Op op;
  Sort s;
  uint32_t id;
  uint32_t aux = 0;       // Extract low, FRound mode, ...
  std::vector<E> k;
  u128 c = 0;             // constant payload for BV/Bool/FP
  mpq_class q;            // constant payload for Real
  std::string name;       // Var / UF
  std::vector<uint32_t> vars;  // ids of the variables it depends on (sorted)
};

struct ExprPool {
  std::vector<std::unique_ptr<Expr>> all;
  std::unordered_multimap<size_t, E> table;
  std::vector<E> variables;
  void reset();
  E intern(Expr&& x);
};
extern ExprPool P;

const Sort SBool{SK::Bool, 1};
inline Sort SBV(unsigned w) { return Sort{SK::BV, (uint16_t)w}; }
inline Sort SFP(unsigned w) { return Sort{SK::FP, (uint16_t)w}; }
const Sort SReal{SK::Real, 64};

inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline i128 sextc(u128 v, unsigned w) {
  if (w >= 128) return (i128)v;
  u128 m = (u128)1 << (w - 1);
  v &= maskw(w);
  return (i128)((v ^ m)) - (i128)m;
}

E mkVar(const std::string& name, Sort s);
E mkBool(bool b);
E mkBV(u128 c, unsigned w);
E mkFPc(u128 bits, unsigned w);
E mkRealc(const mpq_class& q);
inline bool isC(E e) { return e->op == Op::Const; }

E mkNot(E a);
E mkAnd(E a, E b);
E mkOr(E a, E b);
E mkXor(E a, E b);
E mkIte(E c, E a, E b);
E mkEq(E a, E b);
E mkBin(Op op, E a, E b);              // BV arithmetic & comparisons
E mkZExt(E a, unsigned w);
E mkSExt(E a, unsigned w);
E mkExtract(E a, unsigned lo, unsigned w);
E mkConcat(E hi, E lo);
E mkF(Op op, Sort s, std::vector<E> k, uint32_t aux = 0, const std::string& name = "");

E rAdd(E a, E b);
E rSub(E a, E b);
E rNeg(E a);
E rMul(E a, E b);
E rInv(E a);
E rDiv(E a, E b);
E rSqrt(E a);
E rUF(const std::string& name, std::vector<E> args);
E rCmp(Op op, E a, E b);               // REq, RLt, RLe
E rFloor(E a);
E rNorm(E a);                          // polynomial normal form
E rDiff(E a, E var);

// numeric evaluation under an assignment of the variables (by variable id)
struct NumVal { u128 c = 0; double d = 0; };
struct Env { std::unordered_map<uint32_t, NumVal> v; };
struct Evaluator {
  const Env& env;
  std::unordered_map<uint32_t, NumVal> memo;
  double slack;                        // tolerance for real comparisons
  explicit Evaluator(const Env& e, double sl = 0) : env(e), slack(sl) {}
  NumVal eval(E e);
};
double evalUF(const std::string& n, const std::vector<double>& a);
double bitsToD(u128 c, unsigned w);
u128 dToBits(double d, unsigned w);
bool mpqExactDouble(const mpq_class& q, double& d);
std::string toStr(E e, int depth = 6);
