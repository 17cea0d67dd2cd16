#include "solver.h"
#include <algorithm>
#include <chrono>
#include <cmath>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <set>
#include <stdexcept>
#include <z3.h>

struct Solver::Impl {
  Z3_context ctx = nullptr;
  int paths = 0;
  std::unordered_map<uint32_t, Z3_ast> memo;
  std::map<std::vector<uint32_t>, std::pair<Sat, Env>> cache;
  // per-query
  std::vector<Z3_ast> side;
  std::set<uint32_t> sideDone;
  bool hasBV, hasFP, hasReal, hasNL;

  void open() {
    Z3_config cfg = Z3_mk_config();
    ctx = Z3_mk_context(cfg);
    Z3_del_config(cfg);
    Z3_set_error_handler(ctx, [](Z3_context c, Z3_error_code e) {
      throw std::runtime_error(std::string("z3: ") + Z3_get_error_msg(c, e));
    });
  }
  void close() {
    if (ctx) Z3_del_context(ctx);
    ctx = nullptr;
    memo.clear();
  }
  Z3_sort sort(Sort s) {
    switch (s.k) {
      case SK::Bool: return Z3_mk_bool_sort(ctx);
      case SK::BV: return Z3_mk_bv_sort(ctx, s.w);
      case SK::FP: return s.w == 32 ? Z3_mk_fpa_sort_single(ctx) : Z3_mk_fpa_sort_double(ctx);
      default: return Z3_mk_real_sort(ctx);
    }
  }
  Z3_ast bvc(u128 c, unsigned w) {
    if (w <= 64) return Z3_mk_unsigned_int64(ctx, (uint64_t)c, Z3_mk_bv_sort(ctx, w));
    Z3_ast hi = Z3_mk_unsigned_int64(ctx, (uint64_t)(c >> 64), Z3_mk_bv_sort(ctx, w - 64));
    Z3_ast lo = Z3_mk_unsigned_int64(ctx, (uint64_t)c, Z3_mk_bv_sort(ctx, 64));
    return Z3_mk_concat(ctx, hi, lo);
  }
  Z3_ast rc(const mpq_class& q) { return Z3_mk_numeral(ctx, q.get_str().c_str(), Z3_mk_real_sort(ctx)); }
  Z3_ast fresh(E e, Sort s) {
    std::string n = "a!" + std::to_string(e->id);
    return Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, n.c_str()), sort(s));
  }
  void addSide(Z3_ast a) { side.push_back(a); }

  Z3_ast tr(E e) {
    auto it = memo.find(e->id);
    Z3_ast r;
    if (it != memo.end()) {
      r = it->second;
    } else {
      r = build(e);
      memo[e->id] = r;
    }
    return r;
  }

  // collects sorts and the definitional constraints of the atoms below e
  void collect(E e, std::set<uint32_t>& seen) {
    std::vector<E> st{e};
    while (!st.empty()) {
      E x = st.back();
      st.pop_back();
      if (!seen.insert(x->id).second) continue;
      switch (x->s.k) {
        case SK::BV: hasBV = true; break;
        case SK::FP: hasFP = true; break;
        case SK::Real: hasReal = true; break;
        default: break;
      }
      for (E k : x->k) st.push_back(k);
      defs(x, st);
    }
  }
  Z3_ast mul(Z3_ast a, Z3_ast b) {
    Z3_ast v[2] = {a, b};
    return Z3_mk_mul(ctx, 2, v);
  }
  Z3_ast add(Z3_ast a, Z3_ast b) {
    Z3_ast v[2] = {a, b};
    return Z3_mk_add(ctx, 2, v);
  }
  void defs(E x, std::vector<E>& st) {
    if (x->op == Op::RMul) {
      int nv = 0;
      for (E k : x->k) nv += !isC(k);
      if (nv > 1) hasNL = true;
    }
    if (x->op == Op::RInv) {
      hasNL = true;
      addSide(Z3_mk_eq(ctx, mul(tr(x), tr(x->k[0])), rc(1)));
    } else if (x->op == Op::RSqrt) {
      hasNL = true;
      Z3_ast s = tr(x);
      addSide(Z3_mk_ge(ctx, s, rc(0)));
      addSide(Z3_mk_eq(ctx, mul(s, s), tr(x->k[0])));
    } else if (x->op == Op::RUF) {
      const std::string& n = x->name;
      if (n == "sin" || n == "cos") {
        // pair them: both atoms exist and lie on the unit circle
        Expr o;
        o.op = Op::RUF;
        o.s = SReal;
        o.name = n == "sin" ? "cos" : "sin";
        o.k = x->k;
        E y = P.intern(std::move(o));
        st.push_back(y);
        if (n == "sin") {
          hasNL = true;
          addSide(Z3_mk_eq(ctx, add(mul(tr(x), tr(x)), mul(tr(y), tr(y))), rc(1)));
        }
      } else if (n == "exp") {
        Z3_ast a = tr(x), t = tr(x->k[0]);
        addSide(Z3_mk_gt(ctx, a, rc(0)));
        addSide(Z3_mk_ge(ctx, a, add(t, rc(1))));   // e^t >= 1 + t
        addSide(Z3_mk_iff(ctx, Z3_mk_lt(ctx, a, rc(1)), Z3_mk_lt(ctx, t, rc(0))));
      } else if (n == "logabs") {
        Z3_ast a = tr(x), t = tr(x->k[0]);
        // for t > 0:  log t <= t - 1, and the sign of log t
        Z3_ast pos = Z3_mk_gt(ctx, t, rc(0));
        addSide(Z3_mk_implies(ctx, pos, Z3_mk_le(ctx, a, add(t, rc(-1)))));
        addSide(Z3_mk_implies(ctx, pos, Z3_mk_ge(ctx, mul(a, t), add(t, rc(-1)))));   // log t >= 1 - 1/t
        addSide(Z3_mk_implies(ctx, pos, Z3_mk_iff(ctx, Z3_mk_lt(ctx, a, rc(0)), Z3_mk_lt(ctx, t, rc(1)))));
        addSide(Z3_mk_implies(ctx, pos, Z3_mk_iff(ctx, Z3_mk_gt(ctx, a, rc(0)), Z3_mk_gt(ctx, t, rc(1)))));
      } else if (n == "erf") {
        Z3_ast a = tr(x), t = tr(x->k[0]);
        addSide(Z3_mk_lt(ctx, a, rc(1)));
        addSide(Z3_mk_gt(ctx, a, rc(-1)));
        addSide(Z3_mk_iff(ctx, Z3_mk_lt(ctx, a, rc(0)), Z3_mk_lt(ctx, t, rc(0))));
        addSide(Z3_mk_iff(ctx, Z3_mk_gt(ctx, a, rc(0)), Z3_mk_gt(ctx, t, rc(0))));
      } else if (n == "atan2" || n == "atan" || n == "asin" || n == "acos") {
        Z3_ast a = tr(x);
        addSide(Z3_mk_le(ctx, a, rc(mpq_class(M_PI))));
        addSide(Z3_mk_ge(ctx, a, rc(mpq_class(-M_PI))));
        if (n == "acos") addSide(Z3_mk_ge(ctx, a, rc(0)));
        if (n == "asin" || n == "atan") {
          addSide(Z3_mk_le(ctx, a, rc(mpq_class(M_PI / 2))));
          addSide(Z3_mk_ge(ctx, a, rc(mpq_class(-M_PI / 2))));
        }
      } else if (n == "float") {
        // rounded by less than a part in 2^23
        Z3_ast a = tr(x), t = tr(x->k[0]), b = rc(mpq_class(1, 1 << 23));
        Z3_ast d = add(a, mul(rc(-1), t)), m = Z3_mk_ite(ctx, Z3_mk_ge(ctx, t, rc(0)), mul(b, t), mul(mul(rc(-1), b), t));
        addSide(Z3_mk_le(ctx, d, m));
        addSide(Z3_mk_ge(ctx, d, mul(rc(-1), m)));
      } else if (n == "gamma_p_inv") {
        Z3_ast a = tr(x), t = tr(x->k[1]);
        addSide(Z3_mk_ge(ctx, a, rc(0)));
        addSide(Z3_mk_iff(ctx, Z3_mk_gt(ctx, a, rc(0)), Z3_mk_gt(ctx, t, rc(0))));
      } else if (n == "gamma_p" || n == "gamma_q") {
        Z3_ast a = tr(x);
        addSide(Z3_mk_le(ctx, a, rc(1)));
        addSide(Z3_mk_ge(ctx, a, rc(0)));
      }
    }
  }

  Z3_ast rne() { return Z3_mk_fpa_rne(ctx); }

  Z3_ast build(E e) {
    auto k = [&](int i) { return tr(e->k[i]); };
    switch (e->op) {
      case Op::Var: {
        std::string n = "v!" + e->name;
        return Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, n.c_str()), sort(e->s));
      }
      case Op::Const:
        switch (e->s.k) {
          case SK::Bool: return e->c ? Z3_mk_true(ctx) : Z3_mk_false(ctx);
          case SK::BV: return bvc(e->c, e->s.w);
          case SK::FP: return Z3_mk_fpa_to_fp_bv(ctx, bvc(e->c, e->s.w), sort(e->s));
          default: return rc(e->q);
        }
      case Op::Not: return Z3_mk_not(ctx, k(0));
      case Op::And: { Z3_ast v[2] = {k(0), k(1)}; return Z3_mk_and(ctx, 2, v); }
      case Op::Or: { Z3_ast v[2] = {k(0), k(1)}; return Z3_mk_or(ctx, 2, v); }
      case Op::Xor: return Z3_mk_xor(ctx, k(0), k(1));
      case Op::IteOp: return Z3_mk_ite(ctx, k(0), k(1), k(2));
      case Op::Eq: return Z3_mk_eq(ctx, k(0), k(1));
      case Op::BAdd: return Z3_mk_bvadd(ctx, k(0), k(1));
      case Op::BSub: return Z3_mk_bvsub(ctx, k(0), k(1));
      case Op::BMul: return Z3_mk_bvmul(ctx, k(0), k(1));
      case Op::BUDiv: return Z3_mk_bvudiv(ctx, k(0), k(1));
      case Op::BSDiv: return Z3_mk_bvsdiv(ctx, k(0), k(1));
      case Op::BURem: return Z3_mk_bvurem(ctx, k(0), k(1));
      case Op::BSRem: return Z3_mk_bvsrem(ctx, k(0), k(1));
      case Op::BAnd: return Z3_mk_bvand(ctx, k(0), k(1));
      case Op::BOr: return Z3_mk_bvor(ctx, k(0), k(1));
      case Op::BXor: return Z3_mk_bvxor(ctx, k(0), k(1));
      case Op::BShl: return Z3_mk_bvshl(ctx, k(0), k(1));
      case Op::BLShr: return Z3_mk_bvlshr(ctx, k(0), k(1));
      case Op::BAShr: return Z3_mk_bvashr(ctx, k(0), k(1));
      case Op::BUlt: return Z3_mk_bvult(ctx, k(0), k(1));
      case Op::BUle: return Z3_mk_bvule(ctx, k(0), k(1));
      case Op::BSlt: return Z3_mk_bvslt(ctx, k(0), k(1));
      case Op::BSle: return Z3_mk_bvsle(ctx, k(0), k(1));
      case Op::ZExt: return Z3_mk_zero_ext(ctx, e->s.w - e->k[0]->s.w, k(0));
      case Op::SExt: return Z3_mk_sign_ext(ctx, e->s.w - e->k[0]->s.w, k(0));
      case Op::Extract: return Z3_mk_extract(ctx, e->aux + e->s.w - 1, e->aux, k(0));
      case Op::Concat: return Z3_mk_concat(ctx, k(0), k(1));
      case Op::FAdd: return Z3_mk_fpa_add(ctx, rne(), k(0), k(1));
      case Op::FSub: return Z3_mk_fpa_sub(ctx, rne(), k(0), k(1));
      case Op::FMul: return Z3_mk_fpa_mul(ctx, rne(), k(0), k(1));
      case Op::FDiv: return Z3_mk_fpa_div(ctx, rne(), k(0), k(1));
      case Op::FRem: return Z3_mk_fpa_rem(ctx, k(0), k(1));
      case Op::FNeg: return Z3_mk_fpa_neg(ctx, k(0));
      case Op::FAbs: return Z3_mk_fpa_abs(ctx, k(0));
      case Op::FSqrt: return Z3_mk_fpa_sqrt(ctx, rne(), k(0));
      case Op::FRound: {
        Z3_ast m = e->aux == 0 ? Z3_mk_fpa_rtn(ctx) : e->aux == 1 ? Z3_mk_fpa_rtp(ctx) : e->aux == 2 ? Z3_mk_fpa_rtz(ctx) : e->aux == 3 ? Z3_mk_fpa_rna(ctx) : rne();
        return Z3_mk_fpa_round_to_integral(ctx, m, k(0));
      }
      case Op::FEq: return Z3_mk_fpa_eq(ctx, k(0), k(1));
      case Op::FLt: return Z3_mk_fpa_lt(ctx, k(0), k(1));
      case Op::FLe: return Z3_mk_fpa_leq(ctx, k(0), k(1));
      case Op::FIsNaN: return Z3_mk_fpa_is_nan(ctx, k(0));
      case Op::FIsInf: return Z3_mk_fpa_is_infinite(ctx, k(0));
      case Op::FToF: return Z3_mk_fpa_to_fp_float(ctx, rne(), k(0), sort(e->s));
      case Op::FToS: {
        // out of range: the x86 "integer indefinite" value
        unsigned w = e->s.w;
        Sort fs = e->k[0]->s;
        E lim = mkFPc(dToBits(std::ldexp(1.0, w - 1), fs.w), fs.w);
        E nlim = mkFPc(dToBits(-std::ldexp(1.0, w - 1), fs.w), fs.w);
        Z3_ast in[2] = {Z3_mk_fpa_lt(ctx, k(0), tr(lim)), Z3_mk_fpa_leq(ctx, tr(nlim), k(0))};
        return Z3_mk_ite(ctx, Z3_mk_and(ctx, 2, in), Z3_mk_fpa_to_sbv(ctx, Z3_mk_fpa_rtz(ctx), k(0), w), bvc((u128)1 << (w - 1), w));
      }
      case Op::FToU: {
        unsigned w = e->s.w;
        Sort fs = e->k[0]->s;
        E lim = mkFPc(dToBits(std::ldexp(1.0, w), fs.w), fs.w);
        E nlim = mkFPc(dToBits(-1.0, fs.w), fs.w);
        Z3_ast in[2] = {Z3_mk_fpa_lt(ctx, k(0), tr(lim)), Z3_mk_fpa_lt(ctx, tr(nlim), k(0))};
        return Z3_mk_ite(ctx, Z3_mk_and(ctx, 2, in), Z3_mk_fpa_to_ubv(ctx, Z3_mk_fpa_rtz(ctx), k(0), w), bvc((u128)1 << (w - 1), w));
      }
      case Op::SToF: return Z3_mk_fpa_to_fp_signed(ctx, rne(), k(0), sort(e->s));
      case Op::UToF: return Z3_mk_fpa_to_fp_unsigned(ctx, rne(), k(0), sort(e->s));
      case Op::FFromBits: return Z3_mk_fpa_to_fp_bv(ctx, k(0), sort(e->s));
      case Op::FToBits: return Z3_mk_fpa_to_ieee_bv(ctx, k(0));
      case Op::FUF: return fresh(e, e->s);
      case Op::RAdd: {
        std::vector<Z3_ast> v;
        for (E x : e->k) v.push_back(tr(x));
        return Z3_mk_add(ctx, v.size(), v.data());
      }
      case Op::RMul: {
        std::vector<Z3_ast> v;
        for (E x : e->k) v.push_back(tr(x));
        return Z3_mk_mul(ctx, v.size(), v.data());
      }
      case Op::RInv: case Op::RSqrt: case Op::RUF: return fresh(e, SReal);
      case Op::REq: return Z3_mk_eq(ctx, k(0), k(1));
      case Op::RLt: return Z3_mk_lt(ctx, k(0), k(1));
      case Op::RLe: return Z3_mk_le(ctx, k(0), k(1));
      case Op::RFloor: return Z3_mk_int2real(ctx, Z3_mk_real2int(ctx, k(0)));
      case Op::RFromS: return Z3_mk_int2real(ctx, Z3_mk_bv2int(ctx, k(0), true));
      case Op::RBits: return fresh(e, SBV(64));
      default: throw std::runtime_error("solver: op");
    }
  }

  double realOf(Z3_ast v) {
    std::string s;
    if (Z3_is_algebraic_number(ctx, v)) {
      s = Z3_get_numeral_decimal_string(ctx, v, 25);
      return std::strtod(s.c_str(), nullptr);
    }
    s = Z3_get_numeral_string(ctx, v);
    try {
      mpq_class q(s);
      return q.get_d();
    } catch (...) {
      return 0;
    }
  }
  u128 bvOf(Z3_ast v) {
    mpz_class z(Z3_get_numeral_string(ctx, v));
    mpz_class lo = z & mpz_class("18446744073709551615"), hi = z >> 64;
    return ((u128)mpz_get_ui(hi.get_mpz_t()) << 64) | mpz_get_ui(lo.get_mpz_t());
  }
};

Solver::Solver() : d(new Impl) { d->open(); }
Solver::~Solver() {
  d->close();
  delete d;
}

void Solver::newPath() {
  d->memo.clear();
  d->cache.clear();
  if (++d->paths % 50 == 0) {
    d->close();
    d->open();
  }
}

static double now() {
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

Sat Solver::check(const std::vector<E>& as0, Env* env, unsigned timeoutMs) {
  std::vector<E> as;
  for (E a : as0) {
    if (isC(a)) {
      if (!a->c) return Sat::Unsat;
      continue;
    }
    as.push_back(a);
  }
  if (as.empty()) return Sat::Sat;
  std::vector<uint32_t> key;
  for (E a : as) key.push_back(a->id);
  std::sort(key.begin(), key.end());
  key.erase(std::unique(key.begin(), key.end()), key.end());
  auto c = d->cache.find(key);
  if (c != d->cache.end()) {
    st.cached++;
    if (env)
      for (auto& x : c->second.second.v) env->v[x.first] = x.second;
    return c->second.first;
  }
  double t0 = now();
  Sat res = Sat::Unknown;
  Env got;
  lastReason.clear();
  d->side.clear();
  d->hasBV = d->hasFP = d->hasReal = d->hasNL = false;
  std::set<uint32_t> seen;
  try {
    std::vector<Z3_ast> f;
    for (E a : as) {
      f.push_back(d->tr(a));
      d->collect(a, seen);
    }
    f.insert(f.end(), d->side.begin(), d->side.end());
    auto attempt = [&](int kind, unsigned ms) {
      Z3_context ctx = d->ctx;
      Z3_solver s;
      if (kind == 0) {
        s = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, d->hasFP ? "QF_FPBV" : "QF_BV"));
      } else if (kind == 1) {
        Z3_tactic t = Z3_mk_tactic(ctx, "qfnra-nlsat");
        Z3_tactic_inc_ref(ctx, t);
        s = Z3_mk_solver_from_tactic(ctx, t);
        Z3_tactic_dec_ref(ctx, t);
      } else if (kind == 2) {
        s = Z3_mk_simple_solver(ctx);
      } else {
        s = Z3_mk_solver(ctx);
      }
      Z3_solver_inc_ref(ctx, s);
      Z3_params p = Z3_mk_params(ctx);
      Z3_params_inc_ref(ctx, p);
      Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), ms);
      Z3_solver_set_params(ctx, s, p);
      Z3_params_dec_ref(ctx, p);
      for (Z3_ast a : f) Z3_solver_assert(ctx, s, a);
      Z3_lbool r = Z3_L_UNDEF;
      try {
        r = Z3_solver_check(ctx, s);
        if (r == Z3_L_TRUE) {
          Z3_model m = Z3_solver_get_model(ctx, s);
          Z3_model_inc_ref(ctx, m);
          for (uint32_t id : seen) {
            E v = P.all[id].get();
            if (v->op != Op::Var) continue;
            Z3_ast q = d->tr(v), out = nullptr;
            if (v->s.k == SK::FP) q = Z3_mk_fpa_to_ieee_bv(ctx, q);
            if (!Z3_model_eval(ctx, m, q, true, &out) || !out) continue;
            NumVal nv;
            if (v->s.k == SK::Bool) nv.c = Z3_get_bool_value(ctx, out) == Z3_L_TRUE;
            else if (v->s.k == SK::BV) nv.c = d->bvOf(out);
            else if (v->s.k == SK::FP) {
              nv.c = d->bvOf(Z3_simplify(ctx, out));
              nv.d = bitsToD(nv.c, v->s.w);
            } else nv.d = d->realOf(out);
            got.v[id] = nv;
          }
          Z3_model_dec_ref(ctx, m);
        } else if (r == Z3_L_UNDEF) {
          lastReason = Z3_solver_get_reason_unknown(ctx, s);
        }
      } catch (std::exception& ex) {
        lastReason = ex.what();
        r = Z3_L_UNDEF;
      }
      Z3_solver_dec_ref(ctx, s);
      res = r == Z3_L_TRUE ? Sat::Sat : r == Z3_L_FALSE ? Sat::Unsat : Sat::Unknown;
    };
    if (!dumpDir.empty()) {
      Z3_context ctx = d->ctx;
      Z3_solver s = Z3_mk_solver(ctx);
      Z3_solver_inc_ref(ctx, s);
      for (Z3_ast a : f) Z3_solver_assert(ctx, s, a);
      std::ofstream(dumpDir + "/q" + std::to_string(st.queries) + ".smt2") << Z3_solver_to_string(ctx, s) << "(check-sat)\n";
      Z3_solver_dec_ref(ctx, s);
    }
    if (d->hasReal && !d->hasBV && !d->hasFP) {
      if (d->hasNL) {
        attempt(1, std::max(1u, timeoutMs / 2));
        if (res == Sat::Unknown) attempt(2, timeoutMs / 2);
      } else
        attempt(2, timeoutMs);
    } else if (d->hasReal)
      attempt(3, timeoutMs);
    else
      attempt(0, timeoutMs);
  } catch (std::exception& ex) {
    lastReason = ex.what();
    res = Sat::Unknown;
  }
  double dt = now() - t0;
  if (dt > 1 && getenv("SV_DEBUG_SLOW")) {
    fprintf(stderr, "slow query %.1f s\n", dt);
    for (E e : as0) fprintf(stderr, "   %s\n", toStr(e, 10).substr(0, 400).c_str());
  }
  st.queries++;
  st.seconds += dt;
  st.maxSeconds = std::max(st.maxSeconds, dt);
  if (res == Sat::Sat) st.sat++;
  else if (res == Sat::Unsat) st.unsat++;
  else st.unknown++;
  if (res != Sat::Unknown) d->cache[key] = {res, got};
  if (env)
    for (auto& x : got.v) env->v[x.first] = x.second;
  return res;
}

static bool inter(const std::set<uint32_t>& s, const std::vector<uint32_t>& v) {
  for (uint32_t x : v)
    if (s.count(x)) return true;
  return false;
}

Sat Solver::checkWith(const std::vector<E>& pc, E c, Env* env, unsigned timeoutMs) {
  std::set<uint32_t> vars(c->vars.begin(), c->vars.end());
  std::vector<E> slice{c};
  std::vector<bool> used(pc.size(), false);
  bool grew = true;
  while (grew) {
    grew = false;
    for (size_t i = 0; i < pc.size(); ++i)
      if (!used[i] && inter(vars, pc[i]->vars)) {
        used[i] = true;
        slice.push_back(pc[i]);
        size_t before = vars.size();
        vars.insert(pc[i]->vars.begin(), pc[i]->vars.end());
        if (vars.size() != before) grew = true;
      }
  }
  return check(slice, env, timeoutMs);
}

Sat Solver::fullModel(const std::vector<E>& pc, Env& env, unsigned timeoutMs) {
  std::vector<int> comp(pc.size(), -1);
  Sat res = Sat::Sat;
  for (size_t i = 0; i < pc.size(); ++i) {
    if (comp[i] >= 0) continue;
    std::set<uint32_t> vars(pc[i]->vars.begin(), pc[i]->vars.end());
    std::vector<E> slice{pc[i]};
    comp[i] = i;
    bool grew = true;
    while (grew) {
      grew = false;
      for (size_t j = i + 1; j < pc.size(); ++j)
        if (comp[j] < 0 && inter(vars, pc[j]->vars)) {
          comp[j] = i;
          slice.push_back(pc[j]);
          vars.insert(pc[j]->vars.begin(), pc[j]->vars.end());
          grew = true;
        }
    }
    Sat r = check(slice, &env, timeoutMs);
    if (r == Sat::Unsat) return r;
    if (r == Sat::Unknown) res = r;
  }
  return res;
}
