#include "expr.h"
#include <algorithm>
#include <cmath>
#include <cstring>
#include <functional>
#include <stdexcept>
#include <boost/math/special_functions/digamma.hpp>
#include <boost/math/special_functions/gamma.hpp>
#include <boost/math/special_functions/erf.hpp>
#include <boost/math/special_functions/gamma.hpp>

ExprPool P;

void polyReset();

void ExprPool::reset() {
  table.clear();
  all.clear();
  variables.clear();
  polyReset();
}

static size_t hmix(size_t h, size_t v) { return h ^ (v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2)); }

E ExprPool::intern(Expr&& x) {
  size_t h = (size_t)x.op;
  h = hmix(h, (size_t)x.s.k * 131 + x.s.w);
  h = hmix(h, x.aux);
  for (E e : x.k) h = hmix(h, e->id);
  h = hmix(h, (size_t)x.c);
  h = hmix(h, (size_t)(x.c >> 64));
  if (x.op == Op::Const && x.s.k == SK::Real) {
    h = hmix(h, mpz_get_ui(x.q.get_num_mpz_t()));
    h = hmix(h, mpz_get_ui(x.q.get_den_mpz_t()));
  }
  if (!x.name.empty()) h = hmix(h, std::hash<std::string>()(x.name));
  auto r = table.equal_range(h);
  for (auto it = r.first; it != r.second; ++it) {
    E e = it->second;
    if (e->op == x.op && e->s == x.s && e->aux == x.aux && e->c == x.c && e->k == x.k && e->name == x.name &&
        (!(x.op == Op::Const && x.s.k == SK::Real) || e->q == x.q))
      return e;
  }
  x.id = all.size();
  if (x.op == Op::Var) {
    x.vars.push_back(x.id);
  } else if (x.k.size() == 1) {
    x.vars = x.k[0]->vars;
  } else if (x.k.size() > 1) {
    std::vector<uint32_t> u;
    for (E e : x.k) {
      std::vector<uint32_t> t;
      t.reserve(u.size() + e->vars.size());
      std::set_union(u.begin(), u.end(), e->vars.begin(), e->vars.end(), std::back_inserter(t));
      u.swap(t);
    }
    x.vars.swap(u);
  }
  all.emplace_back(new Expr(std::move(x)));
  E e = all.back().get();
  table.emplace(h, e);
  if (e->op == Op::Var) variables.push_back(e);
  return e;
}

static Expr mk(Op op, Sort s, std::vector<E> k = {}, uint32_t aux = 0) {
  Expr x;
  x.op = op;
  x.s = s;
  x.k = std::move(k);
  x.aux = aux;
  return x;
}

E mkVar(const std::string& name, Sort s) {
  Expr x = mk(Op::Var, s);
  x.name = name;
  return P.intern(std::move(x));
}
E mkBool(bool b) {
  Expr x = mk(Op::Const, SBool);
  x.c = b;
  return P.intern(std::move(x));
}
E mkBV(u128 c, unsigned w) {
  Expr x = mk(Op::Const, SBV(w));
  x.c = c & maskw(w);
  return P.intern(std::move(x));
}
E mkFPc(u128 c, unsigned w) {
  Expr x = mk(Op::Const, SFP(w));
  x.c = c & maskw(w);
  return P.intern(std::move(x));
}
E mkRealc(const mpq_class& q) {
  Expr x = mk(Op::Const, SReal);
  x.q = q;
  return P.intern(std::move(x));
}

static bool isTrue(E e) { return isC(e) && e->c; }
static bool isFalse(E e) { return isC(e) && !e->c; }

E mkNot(E a) {
  if (isC(a)) return mkBool(!a->c);
  if (a->op == Op::Not) return a->k[0];
  if (a->op == Op::RLt) return rCmp(Op::RLe, a->k[1], a->k[0]);
  if (a->op == Op::RLe) return rCmp(Op::RLt, a->k[1], a->k[0]);
  return P.intern(mk(Op::Not, SBool, {a}));
}
E mkAnd(E a, E b) {
  if (isFalse(a) || isFalse(b)) return mkBool(false);
  if (isTrue(a)) return b;
  if (isTrue(b) || a == b) return a;
  if (a->id > b->id) std::swap(a, b);
  return P.intern(mk(Op::And, SBool, {a, b}));
}
E mkOr(E a, E b) {
  if (isTrue(a) || isTrue(b)) return mkBool(true);
  if (isFalse(a)) return b;
  if (isFalse(b) || a == b) return a;
  if (a->id > b->id) std::swap(a, b);
  return P.intern(mk(Op::Or, SBool, {a, b}));
}
E mkXor(E a, E b) {
  if (isC(a)) return a->c ? mkNot(b) : b;
  if (isC(b)) return b->c ? mkNot(a) : a;
  if (a == b) return mkBool(false);
  if (a->id > b->id) std::swap(a, b);
  return P.intern(mk(Op::Xor, SBool, {a, b}));
}
E mkIte(E c, E a, E b) {
  if (isTrue(c)) return a;
  if (isFalse(c)) return b;
  if (a == b) return a;
  if (a->s.k == SK::Bool) return mkOr(mkAnd(c, a), mkAnd(mkNot(c), b));
  return P.intern(mk(Op::IteOp, a->s, {c, a, b}));
}
E mkEq(E a, E b) {
  if (a == b && a->s.k != SK::FP) return mkBool(true);
  if (a->s.k == SK::Real) return rCmp(Op::REq, a, b);
  if (a->s.k == SK::Bool) return mkNot(mkXor(a, b));
  if (isC(a) && isC(b)) return mkBool(a->c == b->c);
  if (isC(a)) std::swap(a, b);
  if (isC(b)) {
    if (a->op == Op::ZExt) {
      if (b->c >> a->k[0]->s.w) return mkBool(false);
      if (a->k[0]->s.k == SK::Bool) return b->c ? a->k[0] : mkNot(a->k[0]);
      return mkEq(a->k[0], mkBV(b->c, a->k[0]->s.w));
    }
    if (a->op == Op::IteOp && isC(a->k[1]) && isC(a->k[2])) {
      bool t = a->k[1]->c == b->c, f = a->k[2]->c == b->c;
      if (t && f) return mkBool(true);
      if (t) return a->k[0];
      if (f) return mkNot(a->k[0]);
      return mkBool(false);
    }
    if (a->op == Op::BAdd && isC(a->k[1])) return mkEq(a->k[0], mkBV(b->c - a->k[1]->c, b->s.w));
  } else if (a->id > b->id)
    std::swap(a, b);
  return P.intern(mk(Op::Eq, SBool, {a, b}));
}

static bool foldBV(Op op, u128 a, u128 b, unsigned w, u128& r) {
  u128 m = maskw(w);
  i128 sa = sextc(a, w), sb = sextc(b, w);
  switch (op) {
    case Op::BAdd: r = a + b; break;
    case Op::BSub: r = a - b; break;
    case Op::BMul: r = a * b; break;
    case Op::BUDiv: if (!b) return false; r = a / b; break;
    case Op::BURem: if (!b) return false; r = a % b; break;
    case Op::BSDiv: if (!b) return false; r = (u128)(sb == -1 ? -sa : sa / sb); break;
    case Op::BSRem: if (!b) return false; r = (u128)(sb == -1 ? 0 : sa % sb); break;
    case Op::BAnd: r = a & b; break;
    case Op::BOr: r = a | b; break;
    case Op::BXor: r = a ^ b; break;
    case Op::BShl: r = b >= w ? 0 : a << (unsigned)b; break;
    case Op::BLShr: r = b >= w ? 0 : a >> (unsigned)b; break;
    case Op::BAShr: r = (u128)(sa >> (unsigned)(b >= w ? w - 1 : b)); break;
    case Op::BUlt: r = a < b; break;
    case Op::BUle: r = a <= b; break;
    case Op::BSlt: r = sa < sb; break;
    case Op::BSle: r = sa <= sb; break;
    default: return false;
  }
  r &= m;
  return true;
}

static bool isCmp(Op op) { return op == Op::BUlt || op == Op::BUle || op == Op::BSlt || op == Op::BSle; }

E mkBin(Op op, E a, E b) {
  unsigned w = a->s.w;
  if (a->s.k == SK::Bool) {
    switch (op) {
      case Op::BAnd: case Op::BMul: return mkAnd(a, b);
      case Op::BOr: return mkOr(a, b);
      case Op::BXor: case Op::BAdd: case Op::BSub: return mkXor(a, b);
      case Op::BUlt: return mkAnd(mkNot(a), b);
      case Op::BUle: return mkOr(mkNot(a), b);
      case Op::BSlt: return mkAnd(a, mkNot(b));
      case Op::BSle: return mkOr(a, mkNot(b));
      default: throw std::runtime_error("unsupported i1 operation");
    }
  }
  if (isC(a) && isC(b)) {
    u128 r;
    if (foldBV(op, a->c, b->c, w, r)) return isCmp(op) ? mkBool(r) : mkBV(r, w);
  }
  if (isCmp(op) && a == b) return mkBool(op == Op::BUle || op == Op::BSle);
  switch (op) {
    case Op::BAdd:
      if (isC(a)) std::swap(a, b);
      if (isC(b)) {
        if (!b->c) return a;
        if (a->op == Op::BAdd && isC(a->k[1])) return mkBin(Op::BAdd, a->k[0], mkBV(a->k[1]->c + b->c, w));
      }
      break;
    case Op::BSub:
      if (a == b) return mkBV(0, w);
      if (isC(b)) return mkBin(Op::BAdd, a, mkBV(-b->c, w));
      break;
    case Op::BMul:
      if (isC(a)) std::swap(a, b);
      if (isC(b)) {
        if (b->c == 0) return b;
        if (b->c == 1) return a;
      }
      break;
    case Op::BAnd:
      if (isC(a)) std::swap(a, b);
      if (a == b) return a;
      if (isC(b)) {
        if (!b->c) return b;
        if (b->c == maskw(w)) return a;
        if (a->op == Op::ZExt && (b->c & maskw(a->k[0]->s.w)) == maskw(a->k[0]->s.w)) return a;
      }
      break;
    case Op::BOr: case Op::BXor:
      if (isC(a)) std::swap(a, b);
      if (a == b) return op == Op::BOr ? a : mkBV(0, w);
      if (isC(b) && !b->c) return a;
      break;
    case Op::BShl: case Op::BLShr: case Op::BAShr:
      if (isC(b) && !b->c) return a;
      break;
    case Op::BUDiv: case Op::BSDiv:
      if (isC(b) && b->c == 1) return a;
      break;
    case Op::BUlt:
      if (isC(b) && !b->c) return mkBool(false);
      break;
    case Op::BUle:
      if (isC(a) && !a->c) return mkBool(true);
      break;
    default: break;
  }
  return P.intern(mk(op, isCmp(op) ? SBool : a->s, {a, b}));
}

E mkZExt(E a, unsigned w) {
  if (isC(a)) return mkBV(a->c, w);
  if (a->s.k == SK::BV && a->s.w == w) return a;
  if (a->s.k == SK::Bool) return mkIte(a, mkBV(1, w), mkBV(0, w));
  return P.intern(mk(Op::ZExt, SBV(w), {a}));
}
E mkSExt(E a, unsigned w) {
  if (a->s.k == SK::Bool) return mkIte(a, mkBV(~(u128)0, w), mkBV(0, w));
  if (isC(a)) return mkBV((u128)sextc(a->c, a->s.w), w);
  if (a->s.w == w) return a;
  return P.intern(mk(Op::SExt, SBV(w), {a}));
}
E mkExtract(E a, unsigned lo, unsigned w) {
  if (a->s.k == SK::Bool) return a;
  if (isC(a)) return w == 1 ? mkBool((a->c >> lo) & 1) : mkBV(a->c >> lo, w);
  if (lo == 0 && w == a->s.w) return a;
  if (w == 1) {
    // i1: as Bool
    return mkEq(mkBin(Op::BAnd, a, mkBV((u128)1 << lo, a->s.w)), mkBV((u128)1 << lo, a->s.w));
  }
  if (a->op == Op::Extract) return mkExtract(a->k[0], a->aux + lo, w);
  if (a->op == Op::Concat) {
    unsigned lw = a->k[1]->s.w;
    if (lo >= lw) return mkExtract(a->k[0], lo - lw, w);
    if (lo + w <= lw) return mkExtract(a->k[1], lo, w);
  }
  if (a->op == Op::ZExt || a->op == Op::SExt) {
    unsigned iw = a->k[0]->s.w;
    if (lo + w <= iw) return mkExtract(a->k[0], lo, w);
    if (lo >= iw && a->op == Op::ZExt) return mkBV(0, w);
  }
  if (a->op == Op::IteOp && (isC(a->k[1]) || isC(a->k[2])))
    return mkIte(a->k[0], mkExtract(a->k[1], lo, w), mkExtract(a->k[2], lo, w));
  return P.intern(mk(Op::Extract, SBV(w), {a}, lo));
}
E mkConcat(E hi, E lo) {
  unsigned w = hi->s.w + lo->s.w;
  if (isC(hi) && isC(lo)) return mkBV((hi->c << lo->s.w) | lo->c, w);
  if (isC(hi) && !hi->c) return mkZExt(lo, w);
  if (hi->op == Op::Extract && lo->op == Op::Extract && hi->k[0] == lo->k[0] && hi->aux == lo->aux + lo->s.w)
    return mkExtract(hi->k[0], lo->aux, w);
  return P.intern(mk(Op::Concat, SBV(w), {hi, lo}));
}

E mkF(Op op, Sort s, std::vector<E> k, uint32_t aux, const std::string& name) {
  if (op == Op::FNeg && k[0]->op == Op::FNeg) return k[0]->k[0];
  if (op == Op::FFromBits && k[0]->op == Op::FToBits) return k[0]->k[0];
  if (op == Op::FToBits && k[0]->op == Op::FFromBits) return k[0]->k[0];
  if (op == Op::FToBits && isC(k[0])) return mkBV(k[0]->c, s.w);
  if (op == Op::FFromBits && isC(k[0])) return mkFPc(k[0]->c, s.w);
  Expr x = mk(op, s, std::move(k), aux);
  x.name = name;
  return P.intern(std::move(x));
}

// ---------------------------------------------------------------- numerics
double bitsToD(u128 c, unsigned w) {
  if (w == 32) {
    uint32_t u = (uint32_t)c;
    float f;
    memcpy(&f, &u, 4);
    return f;
  }
  uint64_t u = (uint64_t)c;
  double d;
  memcpy(&d, &u, 8);
  return d;
}
u128 dToBits(double d, unsigned w) {
  if (w == 32) {
    float f = (float)d;
    uint32_t u;
    memcpy(&u, &f, 4);
    return u;
  }
  uint64_t u;
  memcpy(&u, &d, 8);
  return u;
}
bool mpqExactDouble(const mpq_class& q, double& d) {
  d = q.get_d();
  if (!std::isfinite(d)) return false;
  return mpq_class(d) == q;
}

double evalUF(const std::string& n, const std::vector<double>& a) {
  try {
    if (n == "sin") return std::sin(a[0]);
    if (n == "cos") return std::cos(a[0]);
    if (n == "tan") return std::tan(a[0]);
    if (n == "asin") return std::asin(a[0]);
    if (n == "acos") return std::acos(a[0]);
    if (n == "atan") return std::atan(a[0]);
    if (n == "atan2") return std::atan2(a[0], a[1]);
    if (n == "exp") return std::exp(a[0]);
    if (n == "log") return std::log(a[0]);
    if (n == "logabs") return std::log(std::fabs(a[0]));
    if (n == "log2") return std::log2(a[0]);
    if (n == "log10") return std::log10(a[0]);
    if (n == "log1p") return std::log1p(a[0]);
    if (n == "expm1") return std::expm1(a[0]);
    if (n == "pow") return std::pow(a[0], a[1]);
    if (n == "fmod") return std::fmod(a[0], a[1]);
    if (n == "lgamma") return std::lgamma(a[0]);
    if (n == "tgamma") return std::tgamma(a[0]);
    if (n == "digamma") return boost::math::digamma(a[0]);
    if (n == "erf") return std::erf(a[0]);
    if (n == "erfc") return std::erfc(a[0]);
    if (n == "gamma_p") return boost::math::gamma_p(a[0], a[1]);
    if (n == "gamma_p_inv") return boost::math::gamma_p_inv(a[0], a[1]);
    if (n == "gamma_q") return boost::math::gamma_q(a[0], a[1]);
    if (n == "sinh") return std::sinh(a[0]);
    if (n == "cosh") return std::cosh(a[0]);
    if (n == "tanh") return std::tanh(a[0]);
    if (n == "cbrt") return std::cbrt(a[0]);
    if (n == "hypot") return std::hypot(a[0], a[1]);
    if (n == "float") return (double)(float)a[0];
  } catch (...) {
  }
  return std::nan("");
}

NumVal Evaluator::eval(E e) {
  auto it = memo.find(e->id);
  if (it != memo.end()) return it->second;
  NumVal r;
  auto ev = [&](int i) { return eval(e->k[i]); };
  unsigned w = e->s.w;
  auto fin = [&](double d) {
    if (e->s.k == SK::FP) {
      if (w == 32) d = (float)d;
      r.c = dToBits(d, w);
    }
    r.d = d;
  };
  switch (e->op) {
    case Op::Var: {
      auto f = env.v.find(e->id);
      if (f != env.v.end()) r = f->second;
      break;
    }
    case Op::Const:
      r.c = e->c;
      if (e->s.k == SK::FP) r.d = bitsToD(e->c, w);
      if (e->s.k == SK::Real) r.d = e->q.get_d();
      break;
    case Op::Not: r.c = !ev(0).c; break;
    case Op::And: r.c = ev(0).c && ev(1).c; break;
    case Op::Or: r.c = ev(0).c || ev(1).c; break;
    case Op::Xor: r.c = (ev(0).c != 0) != (ev(1).c != 0); break;
    case Op::IteOp: r = ev(0).c ? ev(1) : ev(2); break;
    case Op::Eq: r.c = ev(0).c == ev(1).c; break;
    case Op::ZExt: r.c = ev(0).c; break;
    case Op::SExt: r.c = (u128)sextc(ev(0).c, e->k[0]->s.w) & maskw(w); break;
    case Op::Extract: r.c = (ev(0).c >> e->aux) & maskw(w); break;
    case Op::Concat: r.c = ((ev(0).c << e->k[1]->s.w) | ev(1).c) & maskw(w); break;
    case Op::BUDiv: case Op::BSDiv: case Op::BURem: case Op::BSRem:
    case Op::BAdd: case Op::BSub: case Op::BMul: case Op::BAnd: case Op::BOr: case Op::BXor:
    case Op::BShl: case Op::BLShr: case Op::BAShr: case Op::BUlt: case Op::BUle: case Op::BSlt: case Op::BSle:
      if (!foldBV(e->op, ev(0).c, ev(1).c, e->k[0]->s.w, r.c)) r.c = 0;
      break;
    case Op::FAdd: fin(e->s.w == 32 ? (float)((float)ev(0).d + (float)ev(1).d) : ev(0).d + ev(1).d); break;
    case Op::FSub: fin(e->s.w == 32 ? (float)((float)ev(0).d - (float)ev(1).d) : ev(0).d - ev(1).d); break;
    case Op::FMul: fin(e->s.w == 32 ? (float)((float)ev(0).d * (float)ev(1).d) : ev(0).d * ev(1).d); break;
    case Op::FDiv: fin(e->s.w == 32 ? (float)((float)ev(0).d / (float)ev(1).d) : ev(0).d / ev(1).d); break;
    case Op::FRem: fin(std::fmod(ev(0).d, ev(1).d)); break;
    case Op::FNeg: fin(-ev(0).d); break;
    case Op::FAbs: fin(std::fabs(ev(0).d)); break;
    case Op::FSqrt: fin(std::sqrt(ev(0).d)); break;
    case Op::FRound: {
      double d = ev(0).d;
      switch (e->aux) {
        case 0: d = std::floor(d); break;
        case 1: d = std::ceil(d); break;
        case 2: d = std::trunc(d); break;
        case 3: d = std::round(d); break;
        default: d = std::nearbyint(d); break;
      }
      fin(d);
      break;
    }
    case Op::FEq: r.c = ev(0).d == ev(1).d; break;
    case Op::FLt: r.c = ev(0).d < ev(1).d; break;
    case Op::FLe: r.c = ev(0).d <= ev(1).d; break;
    case Op::FIsNaN: r.c = std::isnan(ev(0).d); break;
    case Op::FIsInf: r.c = std::isinf(ev(0).d); break;
    case Op::FToF: fin(ev(0).d); break;
    case Op::FToS: {
      double d = std::trunc(ev(0).d);
      double lim = std::ldexp(1.0, w - 1);
      if (!(d >= -lim && d < lim)) r.c = (u128)1 << (w - 1);
      else r.c = (u128)(i128)d & maskw(w);
      break;
    }
    case Op::FToU: {
      double d = std::trunc(ev(0).d);
      double lim = std::ldexp(1.0, w);
      if (!(d >= 0 && d < lim)) r.c = (u128)1 << (w - 1);
      else r.c = (u128)d & maskw(w);
      break;
    }
    case Op::SToF: fin((double)sextc(ev(0).c, e->k[0]->s.w)); break;
    case Op::UToF: fin((double)ev(0).c); break;
    case Op::FFromBits: r.c = ev(0).c; r.d = bitsToD(r.c, w); break;
    case Op::FToBits: r.c = ev(0).c; break;
    case Op::FUF: case Op::RUF: {
      std::vector<double> a;
      for (E x : e->k) a.push_back(eval(x).d);
      fin(evalUF(e->name, a));
      break;
    }
    case Op::RAdd: {
      double s = 0;
      for (E x : e->k) s += eval(x).d;
      r.d = s;
      break;
    }
    case Op::RMul: {
      double s = 1;
      for (E x : e->k) s *= eval(x).d;
      r.d = s;
      break;
    }
    case Op::RInv: r.d = 1.0 / ev(0).d; break;
    case Op::RSqrt: r.d = std::sqrt(ev(0).d); break;
    case Op::RFloor: r.d = std::floor(ev(0).d); break;
    case Op::RFromS: r.d = (double)sextc(ev(0).c, e->k[0]->s.w); break;
    case Op::RBits: r.c = dToBits(ev(0).d, 64); break;
    case Op::REq: r.c = std::fabs(ev(0).d - ev(1).d) <= slack; break;
    case Op::RLt: r.c = ev(0).d < ev(1).d; break;
    case Op::RLe: r.c = ev(0).d <= ev(1).d + slack; break;
    default: throw std::runtime_error("eval: op");
  }
  if (e->s.k == SK::FP && e->op != Op::FFromBits && e->op != Op::Const && e->op != Op::Var && e->op != Op::IteOp)
    r.c = dToBits(r.d, w);
  memo[e->id] = r;
  return r;
}

// ------------------------------------------------ reals: polynomial normal form
// A polynomial is a map from Laurent monomials over atoms to rationals.
typedef std::vector<std::pair<uint32_t, int>> Mono;
typedef std::map<Mono, mpq_class> Poly;
static std::unordered_map<uint32_t, std::shared_ptr<Poly>> polyMemo;
static std::unordered_map<uint32_t, E> normMemo;
static std::unordered_map<uint64_t, E> diffMemo;
static const size_t POLY_LIMIT = 4000;
struct PolyTooBig {};

void polyReset() {
  polyMemo.clear();
  normMemo.clear();
  diffMemo.clear();
}

static E atomOf(uint32_t id) { return P.all[id].get(); }
static std::shared_ptr<Poly> toPoly(E e);
static E fromPoly(const Poly& p);

static void addTo(Poly& p, const Mono& m, const mpq_class& c) {
  if (c == 0) return;
  auto it = p.find(m);
  if (it == p.end()) {
    if (p.size() > POLY_LIMIT) throw PolyTooBig();
    p.emplace(m, c);
  } else {
    it->second += c;
    if (it->second == 0) p.erase(it);
  }
}
static Poly padd(const Poly& a, const Poly& b) {
  Poly r = a;
  for (auto& t : b) addTo(r, t.first, t.second);
  return r;
}
static Poly pscale(const Poly& a, const mpq_class& c) {
  Poly r;
  if (c == 0) return r;
  for (auto& t : a) r.emplace(t.first, t.second * c);
  return r;
}
static Poly pmul(const Poly& a, const Poly& b);

static Mono mmul(const Mono& a, const Mono& b) {
  Mono r;
  size_t i = 0, j = 0;
  while (i < a.size() || j < b.size()) {
    if (j == b.size() || (i < a.size() && a[i].first < b[j].first)) r.push_back(a[i++]);
    else if (i == a.size() || b[j].first < a[i].first) r.push_back(b[j++]);
    else {
      int e = a[i].second + b[j].second;
      if (e) r.push_back({a[i].first, e});
      ++i;
      ++j;
    }
  }
  return r;
}

// Reduces sqrt(p)^2 -> p, cos(a)^2 -> 1 - sin(a)^2 and positive powers of
// denominator polynomials inside one monomial.
static bool reducible(const Mono& m, size_t& idx) {
  for (size_t i = 0; i < m.size(); ++i) {
    E a = atomOf(m[i].first);
    int e = m[i].second;
    if (a->op == Op::RSqrt && (e >= 2 || e <= -2)) { idx = i; return true; }
    if (a->op == Op::RUF && a->name == "cos" && e >= 2) { idx = i; return true; }
    if (a->op == Op::RAdd && e >= 1) { idx = i; return true; }
  }
  return false;
}
static void addReduced(Poly& out, const Mono& m, const mpq_class& c) {
  size_t i;
  if (!reducible(m, i)) {
    addTo(out, m, c);
    return;
  }
  E a = atomOf(m[i].first);
  int e = m[i].second;
  Mono rest = m;
  Poly f;
  if (a->op == Op::RSqrt) {
    int h = e / 2;
    int left = e - 2 * h;
    if (left) rest[i].second = left;
    else rest.erase(rest.begin() + i);
    Poly base = *toPoly(a->k[0]);
    if (h < 0) {
      base = *toPoly(rInv(a->k[0]));
      h = -h;
    }
    f[Mono()] = 1;
    for (int q = 0; q < h; ++q) f = pmul(f, base);
  } else if (a->op == Op::RUF) {
    int left = e - 2;
    if (left) rest[i].second = left;
    else rest.erase(rest.begin() + i);
    E s = rUF("sin", {a->k[0]});
    f[Mono()] = 1;
    Poly ps = *toPoly(s);
    f = padd(f, pscale(pmul(ps, ps), -1));
  } else {
    rest.erase(rest.begin() + i);
    Poly base;  // expand the sum
    for (E x : a->k) base = padd(base, *toPoly(x));
    f[Mono()] = 1;
    for (int q = 0; q < e; ++q) f = pmul(f, base);
  }
  for (auto& t : f) addReduced(out, mmul(rest, t.first), c * t.second);
}
static Poly pmul(const Poly& a, const Poly& b) {
  Poly r;
  if (a.size() * b.size() > POLY_LIMIT * 20) throw PolyTooBig();
  for (auto& x : a)
    for (auto& y : b) addReduced(r, mmul(x.first, y.first), x.second * y.second);
  return r;
}

static bool isAtomOp(E e) {
  switch (e->op) {
    case Op::Var: case Op::RSqrt: case Op::RUF: case Op::RFloor: case Op::RFromS: case Op::IteOp: return true;
    default: return false;
  }
}

static std::shared_ptr<Poly> toPoly(E e) {
  auto it = polyMemo.find(e->id);
  if (it != polyMemo.end()) return it->second;
  auto r = std::make_shared<Poly>();
  try {
    if (e->op == Op::Const) {
      if (e->q != 0) (*r)[Mono()] = e->q;
    } else if (isAtomOp(e)) {
      (*r)[Mono{{e->id, 1}}] = 1;
    } else if (e->op == Op::RAdd) {
      for (E x : e->k)
        for (auto& t : *toPoly(x)) addTo(*r, t.first, t.second);
    } else if (e->op == Op::RMul) {
      (*r)[Mono()] = 1;
      for (E x : e->k) *r = pmul(*r, *toPoly(x));
    } else if (e->op == Op::RInv) {
      E a = e->k[0];
      (*r)[Mono{{a->id, -1}}] = 1;   // argument is canonical (see rInv)
    } else
      throw std::runtime_error("toPoly: op");
  } catch (PolyTooBig&) {
    r = std::make_shared<Poly>();
    (*r)[Mono{{e->id, 1}}] = 1;
  }
  polyMemo[e->id] = r;
  return r;
}

static E rMulN(std::vector<E> k) {
  if (k.empty()) return mkRealc(1);
  if (k.size() == 1) return k[0];
  return P.intern(mk(Op::RMul, SReal, std::move(k)));
}
static E fromPoly(const Poly& p) {
  if (p.empty()) return mkRealc(0);
  std::vector<E> sum;
  for (auto& t : p) {
    std::vector<E> f;
    if (t.second != 1 || t.first.empty()) f.push_back(mkRealc(t.second));
    for (auto& ae : t.first) {
      E a = atomOf(ae.first);
      int e = ae.second;
      E base = e > 0 ? a : P.intern(mk(Op::RInv, SReal, {a}));
      for (int i = 0; i < std::abs(e); ++i) f.push_back(base);
    }
    sum.push_back(rMulN(f));
  }
  if (sum.size() == 1) return sum[0];
  E r = P.intern(mk(Op::RAdd, SReal, std::move(sum)));
  return r;
}
E rNorm(E a) {
  if (isC(a)) return a;
  auto it = normMemo.find(a->id);
  if (it != normMemo.end()) return it->second;
  E r = fromPoly(*toPoly(a));
  normMemo[a->id] = r;
  normMemo[r->id] = r;
  return r;
}

E rAdd(E a, E b) {
  if (isC(a) && isC(b)) return mkRealc(a->q + b->q);
  if (isC(a) && a->q == 0) return b;
  if (isC(b) && b->q == 0) return a;
  if (a->id > b->id) std::swap(a, b);
  return P.intern(mk(Op::RAdd, SReal, {a, b}));
}
E rNeg(E a) { return rMul(mkRealc(-1), a); }
E rSub(E a, E b) {
  if (a == b) return mkRealc(0);
  return rAdd(a, rNeg(b));
}
E rMul(E a, E b) {
  if (isC(a) && isC(b)) return mkRealc(a->q * b->q);
  if (isC(b)) std::swap(a, b);
  if (isC(a)) {
    if (a->q == 0) return a;
    if (a->q == 1) return b;
    if (b->op == Op::RMul && isC(b->k[0]) && b->k.size() == 2) return rMul(mkRealc(a->q * b->k[0]->q), b->k[1]);
  } else if (a->id > b->id)
    std::swap(a, b);
  return P.intern(mk(Op::RMul, SReal, {a, b}));
}
E rInv(E a) {
  if (isC(a)) {
    if (a->q == 0) throw std::runtime_error("rInv(0)");
    return mkRealc(1 / a->q);
  }
  auto p = toPoly(a);
  if (p->empty()) throw std::runtime_error("rInv(0)");
  // common Laurent content: the smallest exponent of every atom present in all
  std::map<uint32_t, int> low;
  bool first = true;
  for (auto& t : *p) {
    std::map<uint32_t, int> m(t.first.begin(), t.first.end());
    if (first) {
      low = m;
      first = false;
      continue;
    }
    for (auto it = low.begin(); it != low.end();) {
      auto f = m.find(it->first);
      int e = f == m.end() ? 0 : f->second;
      it->second = std::min(it->second, e);
      if (it->second == 0) it = low.erase(it);
      else ++it;
    }
    for (auto& x : m)
      if (x.second < 0 && !low.count(x.first)) low[x.first] = x.second;
  }
  Mono content, icontent;
  for (auto& x : low) {
    content.push_back({x.first, x.second});
    icontent.push_back({x.first, -x.second});
  }
  mpq_class lead = p->begin()->second;
  Poly q;
  for (auto& t : *p) addTo(q, mmul(t.first, icontent), t.second / lead);
  Poly res;
  if (q.size() == 1 && q.begin()->first.empty()) {
    addReduced(res, icontent, 1 / lead);
  } else {
    E qa = fromPoly(q);
    // q is a proper sum: make it an atom with exponent -1
    Mono m = mmul(icontent, Mono{{qa->id, -1}});
    addReduced(res, m, 1 / lead);
  }
  return fromPoly(res);
}
E rDiv(E a, E b) { return rMul(a, rInv(b)); }

E rSqrt(E a) {
  a = rNorm(a);
  if (isC(a)) {
    if (a->q >= 0) {
      mpz_class n = a->q.get_num(), d = a->q.get_den();
      if (mpz_perfect_square_p(n.get_mpz_t()) && mpz_perfect_square_p(d.get_mpz_t()))
        return mkRealc(mpq_class(sqrt(n), sqrt(d)));
      return mkRealc(mpq_class(std::sqrt(a->q.get_d())));
    }
  }
  // pull out the rational content so that sqrt(4x) and sqrt(x) share an atom
  auto p = toPoly(a);
  if (!p->empty()) {
    mpq_class lead = p->begin()->second;
    if (lead < 0) lead = -lead;
    if (lead != 1) {
      mpz_class n = lead.get_num(), d = lead.get_den();
      if (mpz_perfect_square_p(n.get_mpz_t()) && mpz_perfect_square_p(d.get_mpz_t())) {
        E inner = fromPoly(pscale(*p, 1 / lead));
        return rMul(mkRealc(mpq_class(sqrt(n), sqrt(d))), rSqrt(inner));
      }
    }
  }
  return P.intern(mk(Op::RSqrt, SReal, {a}));
}

static E ufNode(const std::string& n, std::vector<E> k) {
  Expr x = mk(Op::RUF, SReal, std::move(k));
  x.name = n;
  return P.intern(std::move(x));
}
static E constUF(const std::string& n, const std::vector<E>& k) {
  std::vector<double> a;
  for (E e : k) a.push_back(e->q.get_d());
  double d = evalUF(n, a);
  if (!std::isfinite(d)) return nullptr;
  return mkRealc(mpq_class(d));
}

static void sincos(E a, E& s, E& c);

static E logAbsOfPoly(E a) {
  // log|a| for a canonical a: splits products, powers, sqrt and exp
  auto p = toPoly(a);
  if (p->size() == 1) {
    auto& t = *p->begin();
    E r = mkRealc(0);
    mpq_class c = t.second < 0 ? mpq_class(-t.second) : t.second;
    if (c != 1) r = rAdd(r, mkRealc(mpq_class(std::log(c.get_d()))));
    for (auto& ae : t.first) {
      E x = atomOf(ae.first);
      E l;
      if (x->op == Op::RSqrt) l = rMul(mkRealc(mpq_class(1, 2)), logAbsOfPoly(x->k[0]));
      else if (x->op == Op::RUF && x->name == "exp") l = x->k[0];
      else l = ufNode("logabs", {x});
      r = rAdd(r, rMul(mkRealc(ae.second), l));
    }
    return r;
  }
  // pull the content out of a sum through the inverse's normal form
  E inv = rInv(a);
  auto ip = toPoly(inv);
  if (ip->size() == 1 && ip->begin()->first.size() > 1) {
    E r = mkRealc(0);
    mpq_class c = ip->begin()->second;
    if (c < 0) c = -c;
    if (c != 1) r = rAdd(r, mkRealc(mpq_class(-std::log(c.get_d()))));
    for (auto& ae : ip->begin()->first) {
      E x = atomOf(ae.first);
      E l = x->op == Op::RAdd ? ufNode("logabs", {x}) : logAbsOfPoly(x);
      r = rAdd(r, rMul(mkRealc(-ae.second), l));
    }
    return r;
  }
  if (ip->size() == 1 && ip->begin()->first.size() == 1) {
    mpq_class c = ip->begin()->second;
    if (c < 0) c = -c;
    E x = atomOf(ip->begin()->first[0].first);
    int ex = ip->begin()->first[0].second;
    E r = rMul(mkRealc(-ex), ufNode("logabs", {x}));
    if (c != 1) r = rAdd(r, mkRealc(mpq_class(-std::log(c.get_d()))));
    return r;
  }
  return ufNode("logabs", {a});
}

E rUF(const std::string& n, std::vector<E> k) {
  bool allc = true;
  for (auto& e : k) {
    e = rNorm(e);
    if (!isC(e)) allc = false;
  }
  if (n == "sin" || n == "cos") {
    E s, c;
    sincos(k[0], s, c);
    return n == "sin" ? s : c;
  }
  if (n == "tan") {
    E s, c;
    sincos(k[0], s, c);
    if (!(isC(c) && c->q == 0)) return rDiv(s, c);
  }
  if (allc)
    if (E r = constUF(n, k)) return r;
  if (n == "log") return logAbsOfPoly(k[0]);
  if (n == "log1p") return logAbsOfPoly(rNorm(rAdd(k[0], mkRealc(1))));
  if (n == "expm1") return rSub(rUF("exp", k), mkRealc(1));
  if (n == "log2") return rMul(mkRealc(mpq_class(1.0 / std::log(2.0))), logAbsOfPoly(k[0]));
  if (n == "log10") return rMul(mkRealc(mpq_class(1.0 / std::log(10.0))), logAbsOfPoly(k[0]));
  if (n == "exp") {
    auto p = toPoly(k[0]);
    if (p->size() <= 6) {
      E r = mkRealc(1);
      for (auto& t : *p) {
        if (t.first.empty()) {
          r = rMul(r, mkRealc(mpq_class(std::exp(t.second.get_d()))));
          continue;
        }
        // exp(k * log|x|) = |x|^k for even k; for odd k only when x > 0: keep
        long num = t.second.get_num().get_si();
        mpq_class rest = t.second / num;
        if (!t.second.get_num().fits_slong_p() || std::labs(num) > 8) {
          num = t.second < 0 ? -1 : 1;
          rest = t.second / num;
        }
        Poly b;
        b[t.first] = rest;
        E base = ufNode("exp", {fromPoly(b)});
        if (num < 0) base = rInv(base);
        for (long i = 0; i < std::labs(num); ++i) r = rMul(r, base);
      }
      return r;
    }
    return ufNode("exp", k);
  }
  if (n == "gamma_p" && k[1]->op == Op::RUF && k[1]->name == "gamma_p_inv" && k[1]->k[0] == k[0]) return k[1]->k[1];
  if (n == "digamma" || n == "lgamma") {
    // move the whole part of the constant offset out: f(x + 1) = f(x) + g(x)
    auto p = toPoly(k[0]);
    auto c = p->find(Poly::key_type());
    if (c != p->end() && p->size() > 1) {
      mpz_class w = c->second.get_num() / c->second.get_den();
      if (c->second < w) --w;
      if (w != 0 && abs(w) <= 8) {
        long m = w.get_si();
        E b = rSub(k[0], mkRealc(m)), r = ufNode(n, {rNorm(b)});
        for (long i = m < 0 ? m : 0; i < (m < 0 ? 0 : m); ++i) {
          E a = rNorm(rAdd(b, mkRealc(i))), g = n == "digamma" ? rInv(a) : logAbsOfPoly(a);
          r = m < 0 ? rSub(r, g) : rAdd(r, g);
        }
        return rNorm(r);
      }
    }
  }
  if (n == "pow") {
    if (isC(k[1]) && k[1]->q.get_den() == 1 && abs(k[1]->q) <= 16) {
      long e = k[1]->q.get_num().get_si();
      E r = mkRealc(1), b = k[0];
      for (long i = 0; i < std::labs(e); ++i) r = rMul(r, b);
      return e < 0 ? rInv(r) : r;
    }
    if (isC(k[1]) && k[1]->q == mpq_class(1, 2)) return rSqrt(k[0]);
    // the base is positive here (Interp::fuf)
    return rUF("exp", {rNorm(rMul(k[1], logAbsOfPoly(k[0])))});
  }
  return ufNode(n, k);
}

static void sincos(E a, E& s, E& c) {
  if (isC(a)) {
    double v = a->q.get_d();
    double t = v / (M_PI / 2);
    double kq = std::nearbyint(t);
    if (std::fabs(v - kq * (M_PI / 2)) < 1e-14 * std::max(1.0, std::fabs(v))) {
      long q = ((long)kq % 4 + 4) % 4;
      static const int S[] = {0, 1, 0, -1}, C[] = {1, 0, -1, 0};
      s = mkRealc(S[q]);
      c = mkRealc(C[q]);
      return;
    }
    s = mkRealc(mpq_class(std::sin(v)));
    c = mkRealc(mpq_class(std::cos(v)));
    return;
  }
  auto p = toPoly(a);
  if (p->size() > 1 && p->size() <= 5) {
    E rs = mkRealc(0), rc = mkRealc(1);
    for (auto& t : *p) {
      Poly one;
      one[t.first] = t.second;
      E ts, tc;
      sincos(fromPoly(one), ts, tc);
      E ns = rAdd(rMul(rs, tc), rMul(rc, ts));
      E nc = rSub(rMul(rc, tc), rMul(rs, ts));
      rs = ns;
      rc = nc;
    }
    s = rs;
    c = rc;
    return;
  }
  if (p->size() == 1) {
    auto& t = *p->begin();
    if (t.second < 0) {
      Poly neg;
      neg[t.first] = -t.second;
      E ts;
      sincos(fromPoly(neg), ts, c);
      s = rNeg(ts);
      return;
    }
    if (t.second.get_den() == 1 && t.second > 1 && t.second <= 4) {
      Poly one, rest;
      one[t.first] = 1;
      rest[t.first] = t.second - 1;
      E s1, c1, s2, c2;
      sincos(fromPoly(one), s1, c1);
      sincos(fromPoly(rest), s2, c2);
      s = rAdd(rMul(s1, c2), rMul(c1, s2));
      c = rSub(rMul(c1, c2), rMul(s1, s2));
      return;
    }
    if (t.second == 1 && t.first.size() == 1 && t.first[0].second == 1) {
      E x = atomOf(t.first[0].first);
      if (x->op == Op::RUF) {
        if (x->name == "asin") {
          s = x->k[0];
          c = rSqrt(rSub(mkRealc(1), rMul(x->k[0], x->k[0])));
          return;
        }
        if (x->name == "acos") {
          c = x->k[0];
          s = rSqrt(rSub(mkRealc(1), rMul(x->k[0], x->k[0])));
          return;
        }
        if (x->name == "atan2") {
          E r = rSqrt(rAdd(rMul(x->k[0], x->k[0]), rMul(x->k[1], x->k[1])));
          E ir = rInv(r);
          s = rMul(x->k[0], ir);
          c = rMul(x->k[1], ir);
          return;
        }
        if (x->name == "atan") {
          E ir = rInv(rSqrt(rAdd(mkRealc(1), rMul(x->k[0], x->k[0]))));
          s = rMul(x->k[0], ir);
          c = ir;
          return;
        }
      }
    }
  }
  s = ufNode("sin", {a});
  c = ufNode("cos", {a});
}

E rFloor(E a) {
  a = rNorm(a);
  if (isC(a)) {
    mpz_class z;
    mpz_fdiv_q(z.get_mpz_t(), a->q.get_num_mpz_t(), a->q.get_den_mpz_t());
    return mkRealc(mpq_class(z));
  }
  return P.intern(mk(Op::RFloor, SReal, {a}));
}

// Is this polynomial a sum of squares of linear forms in its atoms?
static bool sumOfSquares(const Poly& p) {
  std::map<uint32_t, size_t> idx;
  for (auto& t : p) {
    int deg = 0;
    for (auto& ae : t.first) {
      if (ae.second < 0) return false;
      deg += ae.second;
      idx.emplace(ae.first, 0);
    }
    if (deg > 2) return false;
  }
  size_t n = 1;
  for (auto& x : idx) x.second = n++;
  if (n > 40) return false;
  std::vector<std::vector<mpq_class>> m(n, std::vector<mpq_class>(n));
  for (auto& t : p) {
    size_t i = 0, j = 0;
    if (t.first.size() == 1) {
      i = idx[t.first[0].first];
      if (t.first[0].second == 2) j = i;
    } else if (t.first.size() == 2) {
      i = idx[t.first[0].first];
      j = idx[t.first[1].first];
    }
    if (i == j) m[i][i] += t.second;
    else {
      m[i][j] += t.second / 2;
      m[j][i] += t.second / 2;
    }
  }
  for (size_t k = n; k-- > 0;) {
    if (m[k][k] < 0) return false;
    if (m[k][k] == 0) {
      for (size_t i = 0; i < k; ++i)
        if (m[i][k] != 0) return false;
      continue;
    }
    for (size_t i = 0; i < k; ++i) {
      if (m[i][k] == 0) continue;
      mpq_class f = m[i][k] / m[k][k];
      for (size_t j = 0; j < k; ++j) m[i][j] -= f * m[k][j];
    }
  }
  return true;
}

// c * sqrt(r), the only kind of monomial a comparison of lengths has
static bool isRoot(const std::pair<const Mono, mpq_class>& t, E& r) {
  if (t.first.size() != 1 || t.first[0].second != 1) return false;
  E a = atomOf(t.first[0].first);
  if (a->op != Op::RSqrt) return false;
  r = a->k[0];
  return true;
}

E rCmp(Op op, E a, E b) {
  E d = rNorm(rSub(a, b));
  E z = mkRealc(0);
  if (!isC(d)) try {
    auto p = toPoly(d);
    // lengths compare as their squares
    if (p->size() == 2) {
      auto t = p->begin(), u = std::next(t);
      E r, q;
      mpq_class ct = t->second * t->second, cu = u->second * u->second;
      if (isRoot(*t, r) && isRoot(*u, q) && (t->second > 0) != (u->second > 0))
        return t->second > 0 ? rCmp(op, rMul(mkRealc(ct), r), rMul(mkRealc(cu), q)) : rCmp(op, rMul(mkRealc(cu), q), rMul(mkRealc(ct), r));
    }
    if (op != Op::REq) {
      // d < 0 or d <= 0
      if (op == Op::RLt && sumOfSquares(*p)) return mkBool(false);
      if (op == Op::RLe && sumOfSquares(pscale(*p, -1))) return mkBool(true);
    }
  } catch (PolyTooBig&) {
  }
  if (isC(d)) {
    switch (op) {
      case Op::REq: return mkBool(d->q == 0);
      case Op::RLt: return mkBool(d->q < 0);
      default: return mkBool(d->q <= 0);
    }
  }
  if (op == Op::REq) {
    // clear the denominators (every division site constrained them to be non-zero)
    try {
      Poly p = *toPoly(d);
      for (int it = 0; it < 12; ++it) {
        std::map<uint32_t, int> low;
        for (auto& t : p)
          for (auto& ae : t.first)
            if (ae.second < 0) low[ae.first] = std::min(low[ae.first], ae.second);
        if (low.empty()) break;
        Mono m;
        for (auto& x : low) m.push_back({x.first, -x.second});
        Poly q;
        for (auto& t : p) addReduced(q, mmul(t.first, m), t.second);
        p = q;
      }
      if (!p.empty()) {
        // drop the monomial content's positive part only when it is exp(...)>0
        mpq_class lead = p.begin()->second;
        p = pscale(p, 1 / lead);
      }
      d = fromPoly(p);
      if (isC(d)) return mkBool(d->q == 0);
    } catch (PolyTooBig&) {
    }
    return P.intern(mk(Op::REq, SBool, {d, z}));
  }
  // scale inequalities so that the leading coefficient is +-1; put them as d<0
  auto p = toPoly(d);
  mpq_class lead = p->begin()->second;
  mpq_class al = lead < 0 ? mpq_class(-lead) : lead;
  Poly q = pscale(*p, 1 / al);
  if (lead < 0) {
    E nd = fromPoly(pscale(q, -1));   // -d > 0
    return P.intern(mk(op, SBool, {z, nd}));
  }
  return P.intern(mk(op, SBool, {fromPoly(q), z}));
}

E rDiff(E a, E v) {
  if (a == v) return mkRealc(1);
  if (!std::binary_search(a->vars.begin(), a->vars.end(), v->id)) return mkRealc(0);
  uint64_t key = ((uint64_t)a->id << 32) | v->id;
  auto it = diffMemo.find(key);
  if (it != diffMemo.end()) return it->second;
  E r = nullptr;
  switch (a->op) {
    case Op::RAdd:
      r = mkRealc(0);
      for (E x : a->k) r = rAdd(r, rDiff(x, v));
      break;
    case Op::RMul:
      r = mkRealc(0);
      for (size_t i = 0; i < a->k.size(); ++i) {
        E t = rDiff(a->k[i], v);
        if (isC(t) && t->q == 0) continue;
        for (size_t j = 0; j < a->k.size(); ++j)
          if (j != i) t = rMul(t, a->k[j]);
        r = rAdd(r, t);
      }
      break;
    case Op::RInv: r = rNeg(rMul(rMul(a, a), rDiff(a->k[0], v))); break;
    case Op::RSqrt: r = rMul(rMul(mkRealc(mpq_class(1, 2)), rInv(a)), rDiff(a->k[0], v)); break;
    case Op::IteOp: r = mkIte(a->k[0], rDiff(a->k[1], v), rDiff(a->k[2], v)); break;
    case Op::RFloor: r = mkRealc(0); break;
    case Op::RUF: {
      E x = a->k[0], dx = rDiff(x, v);
      const std::string& n = a->name;
      E one = mkRealc(1);
      if (n == "sin") r = rMul(rUF("cos", {x}), dx);
      else if (n == "cos") r = rNeg(rMul(rUF("sin", {x}), dx));
      else if (n == "exp") r = rMul(a, dx);
      else if (n == "log" || n == "logabs") r = rMul(rInv(x), dx);
      else if (n == "asin") r = rMul(rInv(rSqrt(rSub(one, rMul(x, x)))), dx);
      else if (n == "acos") r = rNeg(rMul(rInv(rSqrt(rSub(one, rMul(x, x)))), dx));
      else if (n == "atan") r = rMul(rInv(rAdd(one, rMul(x, x))), dx);
      else if (n == "atan2") {
        E y = a->k[0], xx = a->k[1];
        E den = rInv(rAdd(rMul(y, y), rMul(xx, xx)));
        r = rMul(den, rSub(rMul(xx, rDiff(y, v)), rMul(y, rDiff(xx, v))));
      } else if (n == "lgamma") r = rMul(rUF("digamma", {x}), dx);
      else throw std::runtime_error("cannot differentiate " + n);
      break;
    }
    default: throw std::runtime_error("cannot differentiate this expression");
  }
  diffMemo[key] = r;
  return r;
}

static const char* opName(Op op) {
  static const char* n[] = {"var","const","not","and","or","xor","ite","=","bvadd","bvsub","bvmul","bvudiv","bvsdiv","bvurem","bvsrem","bvand","bvor","bvxor","bvshl","bvlshr","bvashr","bvult","bvule","bvslt","bvsle","zext","sext","extract","concat","fadd","fsub","fmul","fdiv","frem","fneg","fabs","fsqrt","fround","feq","flt","fle","fisnan","fisinf","ftof","ftos","ftou","stof","utof","ffrombits","ftobits","fuf","+","*","inv","sqrt","uf","=0","<","<=","floor","int2real","realbits"};
  return n[(int)op];
}
std::string toStr(E e, int depth) {
  if (e->op == Op::Var) return e->name;
  if (e->op == Op::Const) {
    if (e->s.k == SK::Real) {
      if (e->q.get_den() == 1) return e->q.get_num().get_str();
      std::string s = e->q.get_str();
      return s.size() > 24 ? std::to_string(e->q.get_d()) : s;
    }
    if (e->s.k == SK::FP) return std::to_string(bitsToD(e->c, e->s.w));
    if (e->s.k == SK::Bool) return e->c ? "true" : "false";
    return std::to_string((long long)sextc(e->c, e->s.w));
  }
  if (depth <= 0) return "...";
  std::string r = std::string("(") + (e->name.empty() ? opName(e->op) : e->name.c_str());
  for (E k : e->k) r += " " + toStr(k, depth - 1);
  return r + ")";
}
