// Models of the functions the interpreter does not execute from bitcode:
// the C/C++ run time, libm, iostreams (output is ignored, text of string
// streams is opaque), and the harness interface sv_*.
#include "interp.h"
#include <cmath>
#include <cstring>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/InstrTypes.h>

using namespace llvm;

// the special functions of boost that are left uninterpreted
const char* boostFn(const std::string& dm) {
  static const char* bm[] = {"digamma", "lgamma", "tgamma", "gamma_p", "gamma_q", "gamma_p_inv", "gamma_q_inv", "erf", "erfc"};
  // drop template argument lists and the parameter list, keep the qualified name
  std::string q;
  int d = 0;
  for (char c : dm) {
    if (c == '<') ++d;
    else if (c == '>') --d;
    else if (!d) {
      if (c == '(') break;
      q += c;
    }
  }
  auto sp = q.rfind(' ');
  if (sp != std::string::npos) q = q.substr(sp + 1);
  for (auto p : bm)
    if (q == std::string("boost::math::") + p) return p;
  return nullptr;
}
bool isInterceptedName(const std::string& n, const std::string& dm) {
  static const char* pre[] = {"_ZNSo", "_ZNSi", "_ZNSd", "_ZNKSo", "_ZNKSi", "_ZStls", "_ZStrs", "_ZSt4endl", "_ZSt5flush", "_ZSt4ends", "_ZNSolsE", "_ZNSt8ios_base", "_ZNKSt8ios_base", "_ZNSt6locale", "_ZNSt9basic_ios", "_ZNKSt9basic_ios", "_ZSt16__ostream_insert", "_ZNSt7__cxx1118basic_stringstream", "_ZNKSt7__cxx1118basic_stringstream", "_ZNSt7__cxx1119basic_ostringstream", "_ZNKSt7__cxx1119basic_ostringstream", "_ZNSt7__cxx1119basic_istringstream", "_ZNSt7__cxx1115basic_stringbuf", "_ZNKSt7__cxx1115basic_stringbuf", "_ZNSt14basic_ofstream", "_ZNSt14basic_ifstream", "_ZNSt13basic_filebuf", "_ZNSt15basic_streambuf", "_ZN5EigenlsI", "_ZNSt13basic_fstream", "_ZNKSt14basic_ofstream", "_ZNKSt14basic_ifstream"};
  for (auto p : pre)
    if (n.compare(0, strlen(p), p) == 0) return true;
  if (n.compare(0, 2, "_Z") != 0) return false;
  static const char* dpre[] = {"std::basic_ostream<", "std::basic_istream<", "std::basic_ios<"};
  for (auto p : dpre)
    if (dm.compare(0, strlen(p), p) == 0) return true;
  // "R std::operator<< <...>(std::basic_ostream..."
  if (dm.find("std::operator<<") != std::string::npos && dm.find("basic_ostream") != std::string::npos) return true;
  if (dm.find("std::operator>>") != std::string::npos && dm.find("basic_istream") != std::string::npos) return true;
  if (dm.find("boost::math::") != std::string::npos) {
    if (dm.find("_initializer<") != std::string::npos && dm.find("::init::") != std::string::npos) return true;
    return boostFn(dm) != nullptr;
  }
  return false;
}

void Interp::throwObj(uint64_t obj) { unwind(obj); }

void Interp::registerHandlers() {
  auto H = [&](const char* n, Handler h) { handlers[n] = std::move(h); };
  auto i64 = Type::getInt64Ty(M.getContext());
  auto i8 = Type::getInt8Ty(M.getContext());
  auto dbl = Type::getDoubleTy(M.getContext());

  // ---------------------------------------------------------------- heap
  auto size = [](Interp& I, const CallBase* cb, std::vector<Val>& a, unsigned k) -> uint64_t {
    Type* t = cb->getArgOperand(k)->getType();
    if (a[k].isC()) return (uint64_t)a[k].c;
    E e = I.toE(a[k], t);
    // allocations above 2^40 bytes fail
    E big = mkBin(Op::BUlt, mkBV((u128)1 << 40, 64), e);
    if (I.branch(big)) return ~0ull;
    return I.concretize(e);
  };
  auto news = [size](uint8_t kind, bool nothrow) -> Handler {
    return [=](Interp& I, const CallBase* cb, std::vector<Val>& a) -> Val {
      uint64_t n = size(I, cb, a, 0);
      if (n > ((uint64_t)1 << 40)) {
        if (nothrow) return Val::conc(0);
        I.throwStd("_ZTISt9bad_alloc", "bad_alloc");
      }
      return Val::conc(I.alloc(n, kind, kind == 2 ? "array allocated with new[]" : "object allocated with new"));
    };
  };
  H("_Znwm", news(1, false));
  H("_Znam", news(2, false));
  H("_ZnwmRKSt9nothrow_t", news(1, true));
  H("_ZnamRKSt9nothrow_t", news(2, true));
  H("_ZnwmSt11align_val_t", news(1, false));
  H("_ZnamSt11align_val_t", news(2, false));
  auto dels = [](uint8_t kind) -> Handler {
    return [=](Interp& I, const CallBase*, std::vector<Val>& a) -> Val {
      I.freeObj(I.addrOf(a[0], 0, "free"), kind);
      return Val();
    };
  };
  for (auto n : {"_ZdlPv", "_ZdlPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdlPvRKSt9nothrow_t"}) H(n, dels(1));
  for (auto n : {"_ZdaPv", "_ZdaPvm", "_ZdaPvSt11align_val_t", "_ZdaPvmSt11align_val_t"}) H(n, dels(2));
  H("free", dels(3));
  H("malloc", [size](Interp& I, const CallBase* cb, std::vector<Val>& a) {
    uint64_t n = size(I, cb, a, 0);
    if (n > ((uint64_t)1 << 40)) return Val::conc(0);
    return Val::conc(I.alloc(n, 3, "block allocated with malloc"));
  });
  H("calloc", [size](Interp& I, const CallBase* cb, std::vector<Val>& a) {
    uint64_t n = size(I, cb, a, 0) * size(I, cb, a, 1);
    return Val::conc(I.alloc(n, 3, "block allocated with calloc", true));
  });
  H("posix_memalign", [size](Interp& I, const CallBase* cb, std::vector<Val>& a) {
    uint64_t n = size(I, cb, a, 2);
    uint64_t p = I.alloc(n, 3, "aligned block");
    I.store(I.addrOf(a[0], 8, "write"), Val::conc(p), Type::getInt64Ty(I.M.getContext()));
    return Val::conc(0);
  });
  H("realloc", [size](Interp& I, const CallBase* cb, std::vector<Val>& a) {
    uint64_t n = size(I, cb, a, 1);
    uint64_t old = I.addrOf(a[0], 0, "realloc");
    uint64_t p = I.alloc(n, 3, "block allocated with realloc");
    if (old) {
      Obj* o = I.objById(old >> 32);
      if (o) I.copyBytes(p, old, std::min<uint64_t>(n, o->size));
      I.freeObj(old, 3);
    }
    return Val::conc(p);
  });

  // ---------------------------------------------------------------- memory & strings
  auto len = [](Interp& I, const CallBase* cb, std::vector<Val>& a, unsigned k) -> uint64_t { return a[k].isC() ? (uint64_t)a[k].c : I.concretize(I.toE(a[k], cb->getArgOperand(k)->getType())); };
  Handler mcpy = [len](Interp& I, const CallBase* cb, std::vector<Val>& a) {
    uint64_t n = len(I, cb, a, 2);
    I.copyBytes(I.addrOf(a[0], n, "write"), I.addrOf(a[1], n, "read"), n);
    return a[0];
  };
  H("memcpy", mcpy);
  H("memmove", mcpy);
  H("memset", [len, i8](Interp& I, const CallBase* cb, std::vector<Val>& a) {
    uint64_t n = len(I, cb, a, 2);
    uint64_t p = I.addrOf(a[0], n, "write");
    Val b = I.castOp(Instruction::Trunc, a[1], cb->getArgOperand(1)->getType(), i8);
    for (uint64_t i = 0; i < n; ++i) I.store(p + i, b, i8);
    return a[0];
  });
  auto mcmp = [len, i8](bool order) -> Handler { return [len, i8, order](Interp& I, const CallBase* cb, std::vector<Val>& a) -> Val {
    uint64_t n = len(I, cb, a, 2);
    uint64_t p = I.addrOf(a[0], n, "read"), q = I.addrOf(a[1], n, "read");
    // a whole number stored there is compared as such
    auto whole = [&I](uint64_t a) {
      uint64_t off;
      Obj* o = I.access(a, 8, false, off);
      if (o->sym.empty()) return false;
      uint32_t s0 = o->sym[off];
      if (!s0 || (s0 & 15)) return false;
      for (unsigned i = 1; i < 8; ++i)
        if (o->sym[off + i] != (s0 | i)) return false;
      return true;
    };
    Type* i64 = Type::getInt64Ty(I.M.getContext());
    for (uint64_t i = 0; i < n; ++i) {
      if (i % 8 == 0 && n - i >= 8 && (whole(p + i) || whole(q + i))) {
        Val x = I.load(p + i, i64), y = I.load(q + i, i64);
        if (x.k != VK::Undef && y.k != VK::Undef) {
          Val e = I.icmp(CmpInst::ICMP_EQ, x, y, i64);
          if (e.isC() ? e.c != 0 : I.branch(e.e)) {
            i += 7;
            continue;
          }
          if (!order) return Val::conc(1);
        }
      }
      Val x = I.load(p + i, i8), y = I.load(q + i, i8);
      Val e = I.icmp(CmpInst::ICMP_EQ, x, y, i8);
      bool eq = e.isC() ? e.c != 0 : I.branch(e.e);
      if (!eq) {
        Val l = I.icmp(CmpInst::ICMP_ULT, x, y, i8);
        bool lt = l.isC() ? l.c != 0 : I.branch(l.e);
        return Val::conc(lt ? 0xffffffffu : 1);
      }
    }
    return Val::conc(0);
  }; };
  H("memcmp", mcmp(true));
  H("bcmp", mcmp(false));
  H("strlen", [](Interp& I, const CallBase*, std::vector<Val>& a) { return Val::conc(I.cstr(I.addrOf(a[0], 1, "read")).size()); });
  H("strcmp", [](Interp& I, const CallBase*, std::vector<Val>& a) {
    int c = I.cstr(I.addrOf(a[0], 1, "read")).compare(I.cstr(I.addrOf(a[1], 1, "read")));
    return Val::conc((uint32_t)(c < 0 ? -1 : c > 0));
  });
  H("memchr", [i8](Interp& I, const CallBase*, std::vector<Val>& a) {
    uint64_t p = I.addrOf(a[0], 1, "read");
    for (uint64_t i = 0; i < (uint64_t)a[2].c; ++i) {
      Val x = I.load(p + i, i8);
      if (x.isC() && x.c == (a[1].c & 255)) return Val::conc(p + i);
    }
    return Val::conc(0);
  });

  // ---------------------------------------------------------------- C++ run time
  H("__cxa_allocate_exception", [](Interp& I, const CallBase*, std::vector<Val>& a) { return Val::conc(I.alloc((uint64_t)a[0].c, 5, "exception object")); });
  H("__cxa_free_exception", [](Interp&, const CallBase*, std::vector<Val>&) { return Val(); });
  H("__cxa_throw", [](Interp& I, const CallBase* cb, std::vector<Val>& a) -> Val {
    ExcInfo x;
    x.obj = (uint64_t)a[0].c;
    x.type = I.typeNameOf(cb->getArgOperand(1));
    x.dtor = 0;
    I.excs[x.obj] = x;
    I.throwObj(x.obj);
    return Val();
  });
  H("__cxa_begin_catch", [](Interp& I, const CallBase*, std::vector<Val>& a) {
    uint64_t o = (uint64_t)a[0].c;
    I.caught.push_back(I.excs[o]);
    return Val::conc(o + (int64_t)I.excs[o].handlers);
  });
  H("__cxa_get_exception_ptr", [](Interp& I, const CallBase*, std::vector<Val>& a) {
    uint64_t o = (uint64_t)a[0].c;
    return Val::conc(o + (int64_t)I.excs[o].handlers);
  });
  H("__cxa_end_catch", [](Interp& I, const CallBase*, std::vector<Val>&) {
    if (!I.caught.empty()) I.caught.pop_back();
    return Val();
  });
  H("__cxa_rethrow", [](Interp& I, const CallBase*, std::vector<Val>&) -> Val {
    if (I.caught.empty()) throw PathEnd{"violation", "rethrow without exception"};
    uint64_t o = I.caught.back().obj;
    I.throwObj(o);
    return Val();
  });
  H("__cxa_init_primary_exception", [](Interp&, const CallBase*, std::vector<Val>& a) { return a[0]; });
  Handler term = [](Interp& I, const CallBase* cb, std::vector<Val>&) -> Val {
    std::string n = cb->getCalledFunction() ? cb->getCalledFunction()->getName().str() : "terminate";
    I.violation("no-terminate", "terminate", n + " called", nullptr);
    throw PathEnd{"violation", "terminate"};
  };
  for (auto n : {"_ZSt9terminatev", "abort", "__cxa_pure_virtual", "__cxa_deleted_virtual", "__assert_fail", "__clang_call_terminate"}) H(n, term);
  H("exit", [](Interp&, const CallBase*, std::vector<Val>&) -> Val { throw PathEnd{"exit", "exit called"}; });
  H("__cxa_guard_acquire", [i8](Interp& I, const CallBase*, std::vector<Val>& a) {
    Val g = I.load((uint64_t)a[0].c, i8);
    return Val::conc(g.isC() && g.c ? 0 : 1);
  });
  H("__cxa_guard_release", [i8](Interp& I, const CallBase*, std::vector<Val>& a) {
    I.store((uint64_t)a[0].c, Val::conc(1), i8);
    return Val();
  });
  Handler nop = [](Interp&, const CallBase*, std::vector<Val>&) { return Val(); };
  H("__cxa_guard_abort", nop);
  H("*nop", nop);
  Handler zero = [](Interp&, const CallBase*, std::vector<Val>&) { return Val::conc(0); };
  H("__cxa_atexit", zero);
  H("__cxa_thread_atexit", zero);
  H("pthread_mutex_lock", zero);
  H("pthread_mutex_unlock", zero);
  H("pthread_mutex_init", zero);
  H("pthread_mutex_destroy", zero);
  H("_ZSt18uncaught_exceptionv", zero);
  H("__dynamic_cast", [i64](Interp& I, const CallBase* cb, std::vector<Val>& a) -> Val {
    uint64_t src = I.addrOf(a[0], 8, "dynamic_cast");
    if (!src) return Val::conc(0);
    Val vp = I.load(src, i64);
    if (!vp.isC()) throw PathEnd{"unsupported", "symbolic vptr"};
    Val ott = I.load((uint64_t)vp.c - 16, i64), ti = I.load((uint64_t)vp.c - 8, i64);
    uint64_t whole = src + (int64_t)(uint64_t)ott.c;
    uint64_t gi = ((uint64_t)ti.c >> 32) - ID0;
    if (gi >= I.globals.size()) throw PathEnd{"unsupported", "dynamic_cast: type info"};
    std::string dyn = I.globals[gi]->getName().str(), dst = I.typeNameOf(cb->getArgOperand(2));
    int64_t off = 0;
    if (!I.typeMatches(dyn, dst, off)) return Val::conc(0);
    return Val::conc(whole + off);
  });
  auto thr = [](const char* cls) -> Handler {
    return [=](Interp& I, const CallBase*, std::vector<Val>&) -> Val {
      I.throwStd(cls, "");
      return Val();
    };
  };
  H("_ZSt17__throw_bad_allocv", thr("_ZTISt9bad_alloc"));
  H("_ZSt28__throw_bad_array_new_lengthv", thr("_ZTISt20bad_array_new_length"));
  H("_ZSt20__throw_length_errorPKc", thr("_ZTISt12length_error"));
  H("_ZSt20__throw_out_of_rangePKc", thr("_ZTISt12out_of_range"));
  H("_ZSt24__throw_out_of_range_fmtPKcz", thr("_ZTISt12out_of_range"));
  H("_ZSt19__throw_logic_errorPKc", thr("_ZTISt11logic_error"));
  H("_ZSt21__throw_runtime_errorPKc", thr("_ZTISt13runtime_error"));
  H("_ZSt24__throw_invalid_argumentPKc", thr("_ZTISt16invalid_argument"));
  H("_ZSt20__throw_domain_errorPKc", thr("_ZTISt12domain_error"));
  H("_ZSt25__throw_bad_function_callv", thr("_ZTISt17bad_function_call"));
  H("_ZSt16__throw_bad_castv", thr("_ZTISt8bad_cast"));
  H("__cxa_bad_cast", thr("_ZTISt8bad_cast"));
  H("__cxa_throw_bad_array_new_length", thr("_ZTISt20bad_array_new_length"));
  H("_ZSt20__throw_system_errori", thr("_ZTISt12system_error"));
  // standard exception classes: the message is remembered per object
  for (auto c : {"St11logic_error", "St13runtime_error", "St12length_error", "St12out_of_range", "St16invalid_argument", "St12domain_error", "St11range_error", "St14overflow_error", "St15underflow_error"}) {
    for (auto k : {"C1", "C2"}) {
      handlers[std::string("_ZN") + c + k + "ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE"] = [](Interp& I, const CallBase*, std::vector<Val>& a) {
        I.streams[(uint64_t)a[0].c] = I.readStdString((uint64_t)a[1].c);
        return Val();
      };
      handlers[std::string("_ZN") + c + k + "EPKc"] = [](Interp& I, const CallBase*, std::vector<Val>& a) {
        I.streams[(uint64_t)a[0].c] = I.cstr((uint64_t)a[1].c);
        return Val();
      };
      handlers[std::string("_ZN") + c + k + "ERKS_"] = [](Interp& I, const CallBase*, std::vector<Val>& a) {
        I.streams[(uint64_t)a[0].c] = I.streams[(uint64_t)a[1].c];
        return Val();
      };
    }
    for (auto k : {"D0", "D1", "D2"}) handlers[std::string("_ZN") + c + k + "Ev"] = nop;
  }
  Handler what = [](Interp& I, const CallBase*, std::vector<Val>& a) {
    uint64_t o = (uint64_t)a[0].c;
    const std::string& s = I.streams[o];
    uint64_t p = I.alloc(s.size() + 1, 4, "what()", true);
    Obj* ob = I.objById(p >> 32);
    for (size_t i = 0; i < s.size(); ++i) ob->data[i] = s[i];
    return Val::conc(p);
  };
  for (auto n : {"_ZNKSt11logic_error4whatEv", "_ZNKSt13runtime_error4whatEv", "_ZNKSt9exception4whatEv", "_ZNKSt9bad_alloc4whatEv"}) H(n, what);
  for (auto n : {"_ZNSt9exceptionD2Ev", "_ZNSt9exceptionD1Ev", "_ZNSt9exceptionD0Ev", "_ZNSt9bad_allocD2Ev", "_ZNSt9bad_allocD1Ev", "_ZNSt8bad_castD2Ev", "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev", "_ZNSt9bad_allocD0Ev"}) H(n, nop);

  // ---------------------------------------------------------------- libm
  auto uf = [](const char* nm, unsigned n) -> Handler {
    std::string s = nm;
    return [=](Interp& I, const CallBase* cb, std::vector<Val>& a) {
      std::vector<Val> k(a.begin(), a.begin() + n);
      return I.fuf(s, k, cb->getType());
    };
  };
  for (auto n : {"sin", "cos", "tan", "asin", "acos", "atan", "exp", "log", "log2", "log10", "lgamma", "tgamma", "erf", "erfc", "sinh", "cosh", "tanh", "cbrt", "log1p", "expm1"}) {
    H(n, uf(n, 1));
    H((std::string(n) + "f").c_str(), uf(n, 1));
    H((std::string(n) + "l").c_str(), uf(n, 1));
  }
  for (auto n : {"atan2", "pow", "fmod", "hypot", "fdim"}) {
    H(n, uf(n, 2));
    H((std::string(n) + "f").c_str(), uf(n, 2));
    H((std::string(n) + "l").c_str(), uf(n, 2));
  }
  for (auto n : {"sqrt", "sqrtf", "sqrtl"}) H(n, [](Interp& I, const CallBase* cb, std::vector<Val>& a) { return I.fsqrt(a[0], cb->getType()); });
  for (auto n : {"fabs", "fabsf", "fabsl"}) H(n, [](Interp& I, const CallBase* cb, std::vector<Val>& a) { return I.fabsV(a[0], cb->getType()); });
  int mode = 0;
  for (auto n : {"floor", "ceil", "trunc", "round", "nearbyint"}) {
    int m = mode++;
    Handler h = [m](Interp& I, const CallBase* cb, std::vector<Val>& a) { return I.fround(a[0], m, cb->getType()); };
    H(n, h);
    H((std::string(n) + "f").c_str(), h);
    if (m == 4) H("rint", h);
  }
  for (auto n : {"lround", "llround"})
    H(n, [](Interp& I, const CallBase* cb, std::vector<Val>& a) {
      Type* t = cb->getArgOperand(0)->getType();
      return I.fptoint(I.fround(a[0], 3, t), t, cb->getType(), true);
    });
  H("fmin", [dbl](Interp& I, const CallBase*, std::vector<Val>& a) {
    Val c = I.fcmp(CmpInst::FCMP_OLT, a[0], a[1], dbl);
    return I.selectV(c, a[0], a[1], dbl);
  });
  H("fmax", [dbl](Interp& I, const CallBase*, std::vector<Val>& a) {
    Val c = I.fcmp(CmpInst::FCMP_OLT, a[0], a[1], dbl);
    return I.selectV(c, a[1], a[0], dbl);
  });
  // boost's special functions: arguments of any arithmetic type
  auto buf = [](const char* nm, unsigned n, int form) -> Handler {
    std::string s = nm;
    return [=](Interp& I, const CallBase* cb, std::vector<Val>& a) {
      Type* t = cb->getType();
      std::vector<Val> k;
      for (unsigned i = 0; i < n; ++i) {
        Type* at = cb->getArgOperand(i)->getType();
        k.push_back(at->isIntegerTy() ? I.inttofp(a[i], at, t, true) : a[i]);
      }
      if (form == 0) return I.fuf(s, k, t);
      Val one = Val::conc(dToBits(1, t->isFloatTy() ? 32 : 64));
      if (form == 1) return I.fbin(Instruction::FSub, one, I.fuf(s, k, t), t);    // complement of the result
      k[n - 1] = I.fbin(Instruction::FSub, one, k[n - 1], t);                      // of the last argument
      return I.fuf(s, k, t);
    };
  };
  H("*digamma", buf("digamma", 1, 0));
  H("*lgamma", buf("lgamma", 1, 0));
  H("*tgamma", buf("tgamma", 1, 0));
  H("*erf", buf("erf", 1, 0));
  H("*erfc", buf("erf", 1, 1));
  H("*gamma_p", buf("gamma_p", 2, 0));
  H("*gamma_q", buf("gamma_p", 2, 1));
  H("*gamma_p_inv", buf("gamma_p_inv", 2, 0));
  H("*gamma_q_inv", buf("gamma_p_inv", 2, 2));

  // ---------------------------------------------------------------- streams
  H("*iostream", [i64](Interp& I, const CallBase* cb, std::vector<Val>& a) -> Val {
    const Function* F = cb->getCalledFunction();
    std::string n = F ? F->getName().str() : "";
    // the text of string streams, as long as it is concrete
    static const std::string opaque = "<stream text>";
    bool ss = n.find("basic_stringstream") != std::string::npos, os = n.find("basic_ostringstream") != std::string::npos;
    auto text = [&](size_t k) -> std::string* {
      if (a.size() <= k || !a[k].isC()) return nullptr;
      auto it = I.streams.find((uint64_t)a[k].c);
      return it == I.streams.end() || it->second.compare(0, 2, "s:") ? nullptr : &it->second;
    };
    if ((ss || os) && n.find("3strEv") != std::string::npos) {
      auto it = I.streams.find((uint64_t)a[1].c + (ss ? 16 : 0));
      I.writeStdString(I.addrOf(a[0], 32, "write"), it == I.streams.end() || it->second.compare(0, 2, "s:") ? opaque : it->second.substr(2));
      return Val();
    }
    if (F && F->arg_size() && F->hasParamAttribute(0, Attribute::StructRet)) {
      uint64_t p = I.addrOf(a[0], 32, "write");
      I.writeStdString(p, opaque);
      return Val();
    }
    if ((ss || os) && (n.find("EC1Ev") != std::string::npos || n.find("EC2Ev") != std::string::npos || n.find("EC1ESt13_Ios_Openmode") != std::string::npos)) {
      I.streams[(uint64_t)a[0].c + (ss ? 16 : 0)] = "s:";
      return Val();
    }
    if (std::string* tx = text(0)) {
      auto num = [&](const char* suffix) { return n == std::string("_ZNSolsE") + suffix || n == std::string("_ZNSo9_M_insertI") + suffix + "EERSoT_"; };
      bool sg = num("i") || num("l") || num("x") || num("s"), un = num("j") || num("m") || num("y") || num("t");
      std::string dm = demangle(n);
      if ((sg || un) && a[1].isC()) {
        unsigned w = cb->getArgOperand(1)->getType()->getIntegerBitWidth();
        uint64_t v = (uint64_t)a[1].c;
        int64_t x = w >= 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w);
        *tx += sg ? std::to_string(x) : std::to_string(v);
      } else if (n.compare(0, 19, "_ZSt16__ostream_ins") == 0 && a[1].isC() && a[2].isC()) {
        for (uint64_t i = 0; i < (uint64_t)a[2].c; ++i) {
          Val c = I.load((uint64_t)a[1].c + i, Type::getInt8Ty(I.M.getContext()));
          if (!c.isC()) {
            I.streams.erase((uint64_t)a[0].c);
            break;
          }
          *tx += (char)c.c;
        }
      } else if (n.compare(0, 6, "_ZStls") == 0 && dm.find("char const*)") != std::string::npos && a[1].isC()) *tx += I.cstr((uint64_t)a[1].c);
      else if (n.compare(0, 6, "_ZStls") == 0 && dm.find("basic_string<") != std::string::npos && a[1].isC()) *tx += I.readStdString((uint64_t)a[1].c);
      else if (n.compare(0, 6, "_ZStls") == 0 && dm.find(", char)") != std::string::npos && a[1].isC()) *tx += (char)a[1].c;
      else I.streams.erase((uint64_t)a[0].c);   // anything else: the text is not tracked any more
    }
    Type* t = cb->getType();
    if (t->isVoidTy()) return Val();
    if (t->isPointerTy()) return a.empty() ? Val::conc(0) : a[0];
    throw PathEnd{"unsupported", "stream operation " + demangle(n)};
  });

  // ---------------------------------------------------------------- harness API
  H("sv_double", [](Interp& I, const CallBase*, std::vector<Val>& a) {
    std::string n = I.cstr((uint64_t)a[0].c);
    return Val::sym(I.newInput(n, I.real ? SReal : SFP(64)));
  });
  H("sv_float", [](Interp& I, const CallBase*, std::vector<Val>& a) {
    std::string n = I.cstr((uint64_t)a[0].c);
    return Val::sym(I.newInput(n, I.real ? SReal : SFP(32)));
  });
  H("sv_int", [i64](Interp& I, const CallBase*, std::vector<Val>& a) {
    std::string n = I.cstr((uint64_t)a[0].c);
    E v = I.newInput(n, SBV(64));
    E lo = I.toE(a[1], i64), hi = I.toE(a[2], i64);
    I.assume(mkAnd(mkBin(Op::BSle, lo, v), mkBin(Op::BSle, v, hi)));
    return Val::sym(v);
  });
  H("sv_rand", [i64](Interp& I, const CallBase*, std::vector<Val>& a) {
    std::string n = I.cstr((uint64_t)a[0].c);
    if (!I.real) {
      E v = I.newInput(n, SBV(64));
      I.assume(mkBin(Op::BUle, v, mkBV(0x7fffffff, 64)));
      return Val::sym(v);
    }
    E r = I.newInput(n, SReal);
    I.assume(mkAnd(rCmp(Op::RLe, mkRealc(0), r), rCmp(Op::RLe, r, mkRealc(1))));
    return Val::sym(I.intOfReal(rMul(r, mkRealc(0x7fffffff)), 64));
  });
  H("sv_lint", [i64](Interp& I, const CallBase*, std::vector<Val>& a) {
    std::string n = I.cstr((uint64_t)a[0].c);
    E r = I.newInput(n, SReal);
    E lo = mkRealc(mpq_class(std::to_string((int64_t)a[1].c))), hi = mkRealc(mpq_class(std::to_string((int64_t)a[2].c)));
    I.assume(mkAnd(rCmp(Op::RLe, lo, r), rCmp(Op::RLe, r, hi)));
    return Val::sym(I.intOfReal(r, 64));
  });
  H("sv_lazy_int", [](Interp& I, const CallBase*, std::vector<Val>& a) {
    I.lazyInt = a[0].c & 1;
    return Val();
  });
  H("sv_choose", [i64](Interp& I, const CallBase*, std::vector<Val>& a) {
    std::string n = I.cstr((uint64_t)a[0].c);
    E v = I.newInput(n, SBV(64));
    I.assume(mkBin(Op::BUlt, v, I.toE(a[1], i64)));
    return Val::conc(I.concretize(v));
  });
  H("sv_concretize", [i64](Interp& I, const CallBase*, std::vector<Val>& a) {
    if (a[0].isC()) return a[0];
    return Val::conc(I.concretize(I.toE(a[0], i64)));
  });
  H("sv_bool", [](Interp& I, const CallBase*, std::vector<Val>& a) {
    std::string n = I.cstr((uint64_t)a[0].c);
    return Val::sym(I.newInput(n, SBool));
  });
  H("sv_assume", [](Interp& I, const CallBase* cb, std::vector<Val>& a) {
    I.assume(I.toE(a[0], cb->getArgOperand(0)->getType()));
    return Val();
  });
  H("sv_check", [](Interp& I, const CallBase* cb, std::vector<Val>& a) {
    std::string id = I.cstr((uint64_t)a[1].c);
    E c = I.toE(a[0], cb->getArgOperand(0)->getType());
    for (uint32_t v : c->vars)
      if (P.all[v]->name.compare(0, 6, "undef!") == 0) {
        I.violation(id, "uninit", "the checked value depends on uninitialised memory", nullptr);
        break;
      }
    I.check(c, id, "assertion " + id);
    return Val();
  });
  H("sv_check_close", [dbl](Interp& I, const CallBase*, std::vector<Val>& a) {
    std::string id = I.cstr((uint64_t)a[2].c);
    for (int k = 0; k < 2; ++k)
      if (a[k].k == VK::Undef) {
        I.violation(id, "uninit", "the checked value is uninitialised", nullptr);
        throw PathEnd{"violation", id};
      }
    bool nf = false;
    for (int k = 0; k < 2; ++k)
      if (a[k].isC() && !std::isfinite(bitsToD(a[k].c, 64))) nf = true;
    if (nf) {
      bool same = a[0].isC() && a[1].isC() && (bitsToD(a[0].c, 64) == bitsToD(a[1].c, 64) || (std::isnan(bitsToD(a[0].c, 64)) && std::isnan(bitsToD(a[1].c, 64))));
      I.check(mkBool(same), id, "values equal: " + id);
      return Val();
    }
    if (I.real) {
      E x = rNorm(I.realE(a[0], dbl)), y = rNorm(I.realE(a[1], dbl));
      for (E q : {x, y})
        for (uint32_t v : q->vars)
          if (P.all[v]->name.compare(0, 6, "undef!") == 0) {
            I.violation(id, "uninit", "the checked value depends on uninitialised memory", nullptr);
            throw PathEnd{"violation", id};
          }
      I.check(rCmp(Op::REq, x, y), id, "values equal: " + id, true, x, y);
    } else {
      E x = I.toE(a[0], dbl), y = I.toE(a[1], dbl);
      E c = mkOr(mkF(Op::FEq, SBool, {x, y}), mkAnd(mkF(Op::FIsNaN, SBool, {x}), mkF(Op::FIsNaN, SBool, {y})));
      I.check(c, id, "values equal: " + id);
    }
    return Val();
  });
  H("sv_diff", [dbl](Interp& I, const CallBase*, std::vector<Val>& a) -> Val {
    if (!I.real) throw PathEnd{"unsupported", "sv_diff outside real mode"};
    std::string n = I.cstr((uint64_t)a[1].c);
    E var = nullptr;
    for (auto& in : I.inputs)
      if (in.first == n || in.first == n + "#0") var = in.second;
    if (!var) throw PathEnd{"unsupported", "sv_diff: no input " + n};
    if (a[0].isC()) return Val::conc(0);
    return I.fromReal(rNorm(rDiff(rNorm(I.toE(a[0], dbl)), var)), dbl);
  });
  H("sv_obs_i", [](Interp& I, const CallBase*, std::vector<Val>& a) {
    I.obs.push_back({"i " + I.cstr((uint64_t)a[0].c), a[1]});
    return Val();
  });
  H("sv_obs_d", [](Interp& I, const CallBase*, std::vector<Val>& a) {
    I.obs.push_back({"d " + I.cstr((uint64_t)a[0].c), a[1]});
    return Val();
  });
  H("sv_symbolic", [](Interp&, const CallBase*, std::vector<Val>&) { return Val::conc(1); });
  H("sv_real", [](Interp& I, const CallBase*, std::vector<Val>&) { return Val::conc(I.real); });
  H("sv_is_uninit", [i8](Interp& I, const CallBase*, std::vector<Val>& a) {
    uint64_t p = (uint64_t)a[0].c, off;
    Obj* o = I.access(p, (uint64_t)a[1].c, false, off);
    for (uint64_t i = 0; i < (uint64_t)a[1].c; ++i)
      if (!o->init[off + i]) return Val::conc(1);
    return Val::conc(0);
  });
}
