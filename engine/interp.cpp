#include "interp.h"
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstring>
#include <random>
#include <stdexcept>

#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Operator.h>
#include <llvm/Support/raw_ostream.h>

using namespace llvm;

static const uint64_t FBASE = 0x7e00000000000000ull;
struct Unwound {};

static std::string typeStr(Type* t) {
  std::string s;
  raw_string_ostream o(s);
  t->print(o);
  return s;
}
static std::string instStr(const Instruction* i) {
  std::string s;
  raw_string_ostream o(s);
  i->print(o);
  return s;
}
[[noreturn]] static void unsupported(const std::string& m) { throw PathEnd{"unsupported", m}; }

Interp::Interp(Module& m, bool realMode) : M(m), DL(&m), real(realMode) {
  consts.emplace_back();  // index 0 unused
  for (auto& g : M.globals()) {
    gaddr[&g] = (ID0 + globals.size()) << 32;
    globals.push_back(&g);
  }
  for (auto& f : M) {
    gaddr[&f] = FBASE + 16 * funcs.size();
    funcs.push_back(&f);
  }
  registerHandlers();
}

// ============================================================ memory
uint64_t Interp::alloc(uint64_t size, uint8_t kind, const std::string& name, bool zero) {
  uint64_t id = ID0 + objs.size();
  if (size > (64u << 20)) unsupported("allocation of " + std::to_string(size) + " bytes");
  auto o = std::make_unique<Obj>();
  o->size = size;
  o->data.assign(size, 0);
  o->init.assign(size, zero);
  o->kind = kind;
  o->name = name;
  objs.push_back(std::move(o));
  return id << 32;
}
void Interp::materializeGlobal(uint64_t idx) {
  const GlobalVariable* g = globals[idx];
  auto o = std::make_unique<Obj>();
  o->kind = 4;
  o->name = g->getName().str();
  if (g->isDeclaration()) {
    uint64_t sz = 0;
    if (g->getValueType()->isSized()) sz = DL.getTypeAllocSize(g->getValueType());
    o->size = std::max<uint64_t>(sz, 1024);
    o->data.assign(o->size, 0);
    o->init.assign(o->size, 1);
    objs[idx] = std::move(o);
    return;
  }
  o->size = DL.getTypeAllocSize(g->getValueType());
  o->constant = g->isConstant();
  o->data.assign(o->size, 0);
  o->init.assign(o->size, 1);
  Obj* p = o.get();
  objs[idx] = std::move(o);
  writeConst(p, 0, g->getInitializer());
}
Obj* Interp::objById(uint64_t id) {
  if (id < ID0 || id - ID0 >= objs.size()) return nullptr;
  uint64_t i = id - ID0;
  if (!objs[i] && i < globals.size()) materializeGlobal(i);
  return objs[i].get();
}
void Interp::storeBytesConc(Obj* o, uint64_t off, u128 c, unsigned n) {
  for (unsigned i = 0; i < n; ++i) {
    o->data[off + i] = (uint8_t)(c >> (8 * i));
    o->init[off + i] = 1;
    if (!o->sym.empty()) o->sym[off + i] = 0;
  }
}
void Interp::writeConst(Obj* o, uint64_t off, const Constant* c) {
  Type* t = c->getType();
  if (isa<ConstantAggregateZero>(c) || isa<ConstantPointerNull>(c)) return;  // zero already
  if (isa<UndefValue>(c)) {
    uint64_t n = DL.getTypeAllocSize(t);
    for (uint64_t i = 0; i < n; ++i) o->init[off + i] = 0;
    return;
  }
  if (auto* ds = dyn_cast<ConstantDataSequential>(c)) {
    unsigned es = ds->getElementByteSize();
    for (unsigned i = 0; i < ds->getNumElements(); ++i) {
      if (ds->getElementType()->isIntegerTy()) storeBytesConc(o, off + i * es, ds->getElementAsInteger(i), es);
      else storeBytesConc(o, off + i * es, ds->getElementAsAPFloat(i).bitcastToAPInt().getZExtValue(), es);
    }
    return;
  }
  if (auto* ca = dyn_cast<ConstantArray>(c)) {
    uint64_t es = DL.getTypeAllocSize(ca->getType()->getElementType());
    for (unsigned i = 0; i < ca->getNumOperands(); ++i) writeConst(o, off + i * es, ca->getOperand(i));
    return;
  }
  if (auto* cs = dyn_cast<ConstantStruct>(c)) {
    const StructLayout* sl = DL.getStructLayout(cs->getType());
    for (unsigned i = 0; i < cs->getNumOperands(); ++i) writeConst(o, off + sl->getElementOffset(i), cs->getOperand(i));
    return;
  }
  if (auto* cv = dyn_cast<ConstantVector>(c)) {
    uint64_t es = DL.getTypeAllocSize(cv->getType()->getElementType());
    for (unsigned i = 0; i < cv->getNumOperands(); ++i) writeConst(o, off + i * es, cv->getOperand(i));
    return;
  }
  Val v = constVal(c);
  if (v.k != VK::Conc) unsupported("global initialiser");
  if (t->isX86_FP80Ty()) {
    Val sv = v;
    symvals.push_back(sv);
    if (o->sym.empty()) o->sym.assign(o->size, 0);
    for (unsigned i = 0; i < 10; ++i) o->sym[off + i] = ((symvals.size() - 1) << 4) | i;
    return;
  }
  storeBytesConc(o, off, v.c, DL.getTypeStoreSize(t));
}

static std::string hex(uint64_t a) {
  char b[32];
  snprintf(b, sizeof b, "0x%llx", (unsigned long long)a);
  return b;
}

void Interp::memViolation(const std::string& what, E cond) {
  std::string where;
  if (!stack.empty()) {
    // innermost frames with their functions
    int n = 0;
    for (auto it = stack.rbegin(); it != stack.rend() && n < 4; ++it, ++n) {
      auto& b = it->fi->blocks[it->bb];
      const Instruction* I = it->ip < b.size() ? b[it->ip].I : nullptr;
      where += (n ? " <- " : " at ") + demangle(it->fi->F->getName().str()).substr(0, 90);
      if (I && I->getDebugLoc()) {
        auto* loc = I->getDebugLoc().get();
        std::string f = loc->getFilename().str();
        auto p = f.rfind('/');
        where += " (" + (p == std::string::npos ? f : f.substr(p + 1)) + ":" + std::to_string(loc->getLine()) + ")";
      }
    }
  }
  violation("memory-safety", "memory", what + where, cond);
}

Obj* Interp::access(uint64_t addr, uint64_t n, bool write, uint64_t& off) {
  Obj* o = objById(addr >> 32);
  off = addr & 0xffffffffu;
  if (!o) {
    memViolation(std::string(write ? "write to" : "read from") + " invalid address " + hex(addr), nullptr);
    throw PathEnd{"violation", "invalid address"};
  }
  if (!o->alive) {
    memViolation(std::string(write ? "write to" : "read from") + " freed/dead object " + o->name, nullptr);
    throw PathEnd{"violation", "use after free"};
  }
  if (off > o->size || n > o->size - off) {
    memViolation("out-of-bounds " + std::string(write ? "write" : "read") + " of " + std::to_string(n) + " bytes at offset " +
                     std::to_string((int64_t)(off > 0x80000000u ? (int64_t)off - 0x100000000ll : (int64_t)off)) + " of " + o->name + " (" + std::to_string(o->size) + " bytes)",
                 nullptr);
    throw PathEnd{"violation", "out of bounds"};
  }
  if (write && o->constant) {
    memViolation("write to constant " + o->name, nullptr);
    throw PathEnd{"violation", "write to constant"};
  }
  return o;
}

static bool isFPTy(Type* t) { return t->isDoubleTy() || t->isFloatTy() || t->isX86_FP80Ty(); }

unsigned Interp::width(Type* t) {
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isPointerTy()) return 64;
  if (t->isFloatTy()) return 32;
  if (t->isDoubleTy()) return 64;
  if (t->isX86_FP80Ty()) return 64;
  unsupported("width of " + typeStr(t));
}
Sort Interp::sortOf(Type* t) {
  if (isFPTy(t)) {
    if (real) return SReal;
    if (t->isX86_FP80Ty()) unsupported("symbolic long double in FP mode");
    return SFP(t->isFloatTy() ? 32 : 64);
  }
  unsigned w = width(t);
  return w == 1 ? SBool : SBV(w);
}
Val Interp::undefVal(Type* t) {
  Val v;
  if (t->isStructTy() || t->isArrayTy() || t->isVectorTy()) {
    v.k = VK::Agg;
    v.agg = std::make_shared<std::vector<Val>>();
    if (auto* st = dyn_cast<StructType>(t))
      for (auto* e : st->elements()) v.agg->push_back(undefVal(e));
    else if (auto* at = dyn_cast<ArrayType>(t))
      for (uint64_t i = 0; i < at->getNumElements(); ++i) v.agg->push_back(undefVal(at->getElementType()));
    else {
      auto* vt = cast<FixedVectorType>(t);
      for (unsigned i = 0; i < vt->getNumElements(); ++i) v.agg->push_back(undefVal(vt->getElementType()));
    }
  }
  return v;
}
Val Interp::use(const Val& v, Type* t) {
  if (v.k != VK::Undef) return v;
  E e = mkVar("undef!" + std::to_string(undefCount++), sortOf(t));
  return Val::sym(e);
}
E Interp::toE(const Val& v0, Type* t) {
  Val v = use(v0, t);
  if (v.k == VK::Sym) return v.e;
  if (v.k != VK::Conc) unsupported("toE aggregate");
  if (isFPTy(t)) {
    if (real) return realE(v, t);
    if (t->isX86_FP80Ty()) unsupported("long double expression");
    return mkFPc(v.c, width(t));
  }
  unsigned w = width(t);
  return w == 1 ? mkBool(v.c & 1) : mkBV(v.c, w);
}
Val Interp::fromE(E e) {
  if (isC(e)) {
    if (e->s.k == SK::Real) {
      double d;
      if (mpqExactDouble(e->q, d)) return Val::conc(dToBits(d, 64));
      return Val::sym(e);
    }
    return Val::conc(e->c);
  }
  return Val::sym(e);
}

static E bitsOfE(E e) {
  switch (e->s.k) {
    case SK::BV: return e;
    case SK::Bool: return mkZExt(e, 8);
    case SK::FP: return mkF(Op::FToBits, SBV(e->s.w), {e});
    default: {
      Expr x;
      x.op = Op::RBits;
      x.s = SBV(64);
      x.k = {e};
      return P.intern(std::move(x));
    }
  }
}

Val Interp::loadRaw(Obj* o, uint64_t off, unsigned n, Type* t) {
  bool anySym = false, anyUninit = false;
  for (unsigned i = 0; i < n; ++i) {
    if (!o->init[off + i]) anyUninit = true;
    if (!o->sym.empty() && o->sym[off + i]) anySym = true;
  }
  if (!anySym) {
    if (anyUninit) {
      bool all = true;
      for (unsigned i = 0; i < n; ++i)
        if (o->init[off + i]) all = false;
      if (all) return Val();
    } else {
      u128 c = 0;
      for (unsigned i = 0; i < n; ++i) c |= (u128)o->data[off + i] << (8 * i);
      if (t->isX86_FP80Ty()) unsupported("raw long double load");
      if (t->isIntegerTy()) c &= maskw(t->getIntegerBitWidth());
      return Val::conc(c);
    }
  }
  // whole stored value?
  if (anySym) {
    uint32_t s0 = o->sym[off];
    if (s0 && (s0 & 15) == 0) {
      const Val& sv = symvals[s0 >> 4];
      bool whole = true;
      unsigned svn = sv.k == VK::Sym && sv.e->s.k == SK::FP && sv.e->s.w == 32 ? 4 : 0;
      (void)svn;
      for (unsigned i = 0; i < n && whole; ++i) whole = o->sym[off + i] == ((s0 & ~15u) | i);
      if (whole) {
        if (sv.k == VK::Conc) return sv;  // long double
        E e = sv.e;
        unsigned bytes = e->s.k == SK::Real ? (sv.c ? (unsigned)sv.c : 8) : e->s.k == SK::Bool ? 1 : (e->s.w + 7) / 8;
        if (bytes == n) {
          Val r = sv;
          r.c = 0;
          if (isFPTy(t)) {
            if (e->s.k == SK::Real || e->s.k == SK::FP) return r;
            if (e->op == Op::RBits) return Val::sym(e->k[0]);
            if (!real) return fromE(mkF(Op::FFromBits, SFP(e->s.w), {e}));
            unsupported("integer bits read back as a real");
          }
          if (e->s.k == SK::Real || e->s.k == SK::FP) return fromE(bitsOfE(e));
          unsigned w = width(t);
          if (e->s.k == SK::Bool) return w == 1 ? r : fromE(mkZExt(e, w));
          if (e->s.w == w) return r;
          if (w < e->s.w) return fromE(mkExtract(e, 0, w));
        }
      }
    }
  }
  // reassemble byte by byte
  E acc = nullptr;
  for (unsigned i = 0; i < n; ++i) {
    E b;
    uint32_t s = o->sym.empty() ? 0 : o->sym[off + i];
    if (s) {
      const Val& sv = symvals[s >> 4];
      if (sv.k != VK::Sym) unsupported("partial long double load");
      E e = sv.e;
      if (e->s.k == SK::Real) unsupported("partial access to the bytes of a real");
      e = bitsOfE(e);
      unsigned bit = 8 * (s & 15);
      if (bit + 8 <= e->s.w) b = mkExtract(e, bit, 8);
      else b = mkZExt(mkExtract(e, bit, e->s.w - bit), 8);
    } else if (!o->init[off + i]) {
      b = mkVar("undef!" + std::to_string(undefCount++), SBV(8));
    } else
      b = mkBV(o->data[off + i], 8);
    acc = acc ? mkConcat(b, acc) : b;
  }
  if (isFPTy(t)) {
    if (real) {
      if (isC(acc)) return Val::conc(acc->c);
      // only reached when part of the bytes is uninitialised
      return Val();
    }
    return fromE(mkF(Op::FFromBits, SFP(acc->s.w), {acc}));
  }
  unsigned w = width(t);
  if (w != acc->s.w) acc = mkExtract(acc, 0, w);
  return fromE(acc);
}

Val Interp::load(uint64_t addr, Type* t) {
  if (auto* st = dyn_cast<StructType>(t)) {
    Val v = undefVal(t);
    const StructLayout* sl = DL.getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); ++i) (*v.agg)[i] = load(addr + sl->getElementOffset(i), st->getElementType(i));
    return v;
  }
  if (auto* at = dyn_cast<ArrayType>(t)) {
    Val v = undefVal(t);
    uint64_t es = DL.getTypeAllocSize(at->getElementType());
    for (uint64_t i = 0; i < at->getNumElements(); ++i) (*v.agg)[i] = load(addr + i * es, at->getElementType());
    return v;
  }
  if (auto* vt = dyn_cast<FixedVectorType>(t)) {
    Val v = undefVal(t);
    uint64_t es = DL.getTypeStoreSize(vt->getElementType());
    for (unsigned i = 0; i < vt->getNumElements(); ++i) (*v.agg)[i] = load(addr + i * es, vt->getElementType());
    return v;
  }
  unsigned n = DL.getTypeStoreSize(t);
  uint64_t off;
  Obj* o = access(addr, n, false, off);
  return loadRaw(o, off, n, t);
}

void Interp::store(uint64_t addr, const Val& v, Type* t) {
  if (v.k == VK::Agg) {
    if (auto* st = dyn_cast<StructType>(t)) {
      const StructLayout* sl = DL.getStructLayout(st);
      for (unsigned i = 0; i < st->getNumElements(); ++i) store(addr + sl->getElementOffset(i), (*v.agg)[i], st->getElementType(i));
    } else if (auto* at = dyn_cast<ArrayType>(t)) {
      uint64_t es = DL.getTypeAllocSize(at->getElementType());
      for (uint64_t i = 0; i < at->getNumElements(); ++i) store(addr + i * es, (*v.agg)[i], at->getElementType());
    } else {
      auto* vt = cast<FixedVectorType>(t);
      uint64_t es = DL.getTypeStoreSize(vt->getElementType());
      for (unsigned i = 0; i < vt->getNumElements(); ++i) store(addr + i * es, (*v.agg)[i], vt->getElementType());
    }
    return;
  }
  unsigned n = DL.getTypeStoreSize(t);
  uint64_t off;
  Obj* o = access(addr, n, true, off);
  if (v.k == VK::Undef) {
    for (unsigned i = 0; i < n; ++i) {
      o->init[off + i] = 0;
      if (!o->sym.empty()) o->sym[off + i] = 0;
    }
    return;
  }
  if (v.k == VK::Conc && !t->isX86_FP80Ty()) {
    storeBytesConc(o, off, v.c, n);
    return;
  }
  if (o->sym.empty()) o->sym.assign(o->size, 0);
  Val sv = v;
  if (sv.k == VK::Sym) {
    sv.c = n;
    if (sv.e->s.k == SK::Bool) sv.e = mkZExt(sv.e, 8);
  }
  symvals.push_back(sv);
  uint32_t idx = symvals.size() - 1;
  for (unsigned i = 0; i < n; ++i) {
    o->sym[off + i] = (idx << 4) | (i & 15);
    o->init[off + i] = 1;
  }
}
void Interp::copyBytes(uint64_t dst, uint64_t src, uint64_t n) {
  if (!n) return;
  uint64_t so, dofs;
  Obj* s = access(src, n, false, so);
  Obj* d = access(dst, n, true, dofs);
  std::vector<uint8_t> data(s->data.begin() + so, s->data.begin() + so + n), init(s->init.begin() + so, s->init.begin() + so + n);
  std::vector<uint32_t> sy;
  if (!s->sym.empty()) sy.assign(s->sym.begin() + so, s->sym.begin() + so + n);
  memcpy(&d->data[dofs], data.data(), n);
  memcpy(&d->init[dofs], init.data(), n);
  if (!sy.empty()) {
    if (d->sym.empty()) d->sym.assign(d->size, 0);
    std::copy(sy.begin(), sy.end(), d->sym.begin() + dofs);
  } else if (!d->sym.empty())
    std::fill(d->sym.begin() + dofs, d->sym.begin() + dofs + n, 0);
}
std::string Interp::cstr(uint64_t addr) {
  std::string r;
  for (int i = 0; i < 100000; ++i) {
    uint64_t off;
    Obj* o = access(addr + i, 1, false, off);
    Val v = loadRaw(o, off, 1, Type::getInt8Ty(M.getContext()));
    if (!v.isC()) { r += '?'; continue; }
    if (!v.c) break;
    r += (char)v.c;
  }
  return r;
}
void Interp::freeObj(uint64_t addr, uint8_t kind) {
  if (!addr) return;
  Obj* o = objById(addr >> 32);
  if (!o || (addr & 0xffffffffu) || (o->kind != 1 && o->kind != 2 && o->kind != 3)) {
    memViolation("free of a pointer that was not allocated: " + hex(addr), nullptr);
    throw PathEnd{"violation", "bad free"};
  }
  if (!o->alive) {
    memViolation("double free", nullptr);
    throw PathEnd{"violation", "double free"};
  }
  if (o->kind != kind) {
    memViolation("mismatched deallocation", nullptr);
    throw PathEnd{"violation", "mismatched free"};
  }
  o->alive = false;
}
void Interp::writeStdString(uint64_t a, const std::string& s) {
  Type* i64 = Type::getInt64Ty(M.getContext());
  uint64_t buf = a + 16;
  if (s.size() > 15) buf = alloc(s.size() + 1, 1, "std::string");
  uint64_t off;
  Obj* o = access(buf, s.size() + 1, true, off);
  for (size_t i = 0; i <= s.size(); ++i) storeBytesConc(o, off + i, i < s.size() ? (uint8_t)s[i] : 0, 1);
  store(a, Val::conc(buf), i64);
  store(a + 8, Val::conc(s.size()), i64);
  if (s.size() > 15) store(a + 16, Val::conc(s.size()), i64);
}
std::string Interp::readStdString(uint64_t a) {
  Type* i64 = Type::getInt64Ty(M.getContext());
  Val p = load(a, i64), n = load(a + 8, i64);
  if (!p.isC() || !n.isC() || n.c > 100000) return "?";
  std::string r;
  for (uint64_t i = 0; i < (uint64_t)n.c; ++i) {
    uint64_t off;
    Obj* o = access((uint64_t)p.c + i, 1, false, off);
    Val v = loadRaw(o, off, 1, Type::getInt8Ty(M.getContext()));
    r += v.isC() ? (char)v.c : '?';
  }
  return r;
}

uint64_t Interp::addrOf(Val v, uint64_t n, const char* what) {
  if (v.k == VK::Conc) return (uint64_t)v.c;
  if (v.k == VK::Undef) {
    memViolation(std::string(what) + " through an uninitialised pointer", nullptr);
    throw PathEnd{"violation", "uninit pointer"};
  }
  if (v.k != VK::Sym) unsupported("aggregate pointer");
  if (v.prov) {
    Obj* o = objById(v.prov);
    if (o) {
      uint64_t base = (uint64_t)v.prov << 32;
      E off = mkBin(Op::BSub, v.e, mkBV(base, 64));
      E in = o->size >= n ? mkBin(Op::BUle, off, mkBV(o->size - n, 64)) : mkBool(false);
      if (!isC(in) || !in->c) {
        Env m;
        Sat r = isC(in) ? Sat::Sat : S.checkWith(pc, mkNot(in), &m, lim.queryMs);
        if (r == Sat::Sat) memViolation(std::string("out-of-bounds ") + what + " of " + o->name + " (" + std::to_string(o->size) + " bytes)", mkNot(in));
        if (r == Sat::Unknown) R.checks["memory-safety"].unknown++;
        assume(in);
      }
    }
  }
  return concretize(v.e);
}

// ============================================================ decisions
bool Interp::evalEnv(E c) {
  Evaluator ev(env);
  return ev.eval(c).c != 0;
}
void Interp::addPC(E c) {
  if (isC(c)) {
    if (!c->c) throw PathEnd{"infeasible", "constant false constraint"};
    return;
  }
  if (c->op == Op::And) {
    addPC(c->k[0]);
    addPC(c->k[1]);
    return;
  }
  if (known.count(c->id)) return;
  pc.push_back(c);
  known[c->id] = true;
  E n = mkNot(c);
  known[n->id] = false;
}
E Interp::newInput(const std::string& name0, Sort s) {
  int k = nameCount[name0]++;
  std::string name = name0 + "#" + std::to_string(k);
  E v = mkVar(name, s);
  inputs.push_back({name, v});
  auto it = taskEnv.find(name);
  if (it != taskEnv.end()) env.v[v->id] = it->second;
  else {
    NumVal n;
    if (s.k == SK::Real || s.k == SK::FP) {
      // a generic point, so that first-path evaluations are not degenerate
      size_t h = std::hash<std::string>()(name);
      n.d = 0.25 + (double)(h % 1024) / 1024.0;
      if (s.k == SK::FP) n.c = dToBits(n.d, s.w);
    }
    env.v[v->id] = n;
  }
  return v;
}

// A decision is stored with the ordinal of the call that took it, so that a
// replayed prefix is consumed at exactly the calls that recorded it.
bool Interp::replayHere() const { return decPos < prefixLen && dec[decPos] == decSite; }
bool Interp::replayNext(uint64_t& d) {
  if (decPos >= prefixLen) return false;
  if (dec[decPos] != decSite) throw PathEnd{"incomplete", "the replay of a path prefix diverged"};
  d = dec[decPos + 1];
  decPos += 2;
  return true;
}
void Interp::pushDec(uint64_t d) {
  dec.push_back(decSite);
  dec.push_back(d);
  decPos += 2;
}

bool Interp::branch(E c) {
  if (isC(c)) return c->c != 0;
  R.branches++;
  ++decSite;
  auto kn = known.find(c->id);
  if (getenv("SV_DEBUG_BR")) fprintf(stderr, "branch%s %s\n", kn != known.end() ? (kn->second ? " [known true]" : " [known false]") : "", toStr(c, 10).substr(0, 700).c_str());
  if (kn != known.end() && !replayHere()) return kn->second;
  for (uint32_t v : c->vars) {
    const std::string& n = P.all[v]->name;
    if (n.compare(0, 6, "undef!") == 0) {
      memViolation("control flow depends on an uninitialised value", nullptr);
      break;
    }
  }
  uint64_t d;
  if (replayNext(d)) {
    bool taken = d & 1;
    if (getenv("SV_DEBUG_BR")) fprintf(stderr, "   replay %d\n", (int)d);
    if (!(d & 2)) addPC(taken ? c : mkNot(c));
    else { known[c->id] = taken; known[mkNot(c)->id] = !taken; }
    return taken;
  }
  bool first = hasEnv ? evalEnv(c) : true;
  Sat sf = Sat::Sat;
  Env mf = env, mo = env;
  if (!hasEnv) sf = S.checkWith(pc, c, &mf, lim.queryMs);
  E oc = first ? mkNot(c) : c;
  Sat so = S.checkWith(pc, oc, &mo, lim.queryMs);
  if (getenv("SV_DEBUG_BR")) fprintf(stderr, "   first %d other side %d hasEnv %d\n", (int)first, (int)so, (int)hasEnv);
  if (!hasEnv && sf == Sat::Unsat) {
    if (so == Sat::Unsat) throw PathEnd{"infeasible", "both branches infeasible"};
    pushDec(2 | 0);
    known[c->id] = false;
    known[mkNot(c)->id] = true;
    return false;
  }
  if (so == Sat::Unsat) {
    pushDec(2 | (first ? 1 : 0));
    known[c->id] = first;
    known[mkNot(c)->id] = !first;
    return first;
  }
  R.forks++;
  Task t;
  t.dec = dec;
  t.dec.push_back(decSite);
  t.dec.push_back(first ? 0 : 1);
  t.hasEnv = so == Sat::Sat && hasEnv;
  if (t.hasEnv)
    for (auto& in : inputs) t.env[in.first] = mo.v[in.second->id];
  R.fresh.push_back(std::move(t));
  pushDec(first ? 1 : 0);
  addPC(first ? c : mkNot(c));
  return first;
}

uint64_t Interp::enumerate(const std::function<E(uint64_t)>& cond, const std::function<uint64_t(const Env&)>& val, E anchor) {
  ++decSite;
  uint64_t d;
  if (replayNext(d)) {
    addPC(cond(d));
    return d;
  }
  std::vector<std::pair<uint64_t, Env>> vals;
  std::vector<E> base = pc;
  if (hasEnv) vals.push_back({val(env), env});
  bool complete = false;
  bool unk = false;
  if (hasEnv) base.push_back(mkNot(cond(vals[0].first)));
  while (vals.size() <= lim.enumLimit) {
    Env m = env;
    // keep the slice connected to the anchor expression
    std::vector<E> q;
    {
      std::set<uint32_t> vs(anchor->vars.begin(), anchor->vars.end());
      std::vector<bool> used(base.size(), false);
      bool grew = true;
      while (grew) {
        grew = false;
        for (size_t i = 0; i < base.size(); ++i) {
          if (used[i]) continue;
          bool in = false;
          for (uint32_t x : base[i]->vars)
            if (vs.count(x)) { in = true; break; }
          if (!in) continue;
          used[i] = true;
          q.push_back(base[i]);
          for (uint32_t x : base[i]->vars)
            if (vs.insert(x).second) grew = true;
        }
      }
    }
    bool falseConst = false;
    for (E b : base) if (isC(b) && !b->c) falseConst = true;
    if (falseConst) { complete = true; break; }
    Sat r = S.check(q, &m, lim.queryMs);
    if (r == Sat::Unsat) { complete = true; break; }
    if (r == Sat::Unknown) { unk = true; break; }
    uint64_t k = val(m);
    bool dup = false;
    auto seen = [&](uint64_t x) {
      for (auto& v : vals)
        if (v.first == x) return true;
      return false;
    };
    if (seen(k)) {
      // the model sits on the boundary between two values: ask for its neighbours
      dup = true;
      for (uint64_t c : {k + 1, k - 1}) {
        if (seen(c)) continue;
        auto qq = q;
        qq.push_back(cond(c));
        Env mm = env;
        if (S.check(qq, &mm, lim.queryMs) == Sat::Sat) { dup = false; k = c; m = mm; break; }
      }
    }
    if (dup) { unk = true; break; }
    vals.push_back({k, m});
    base.push_back(mkNot(cond(k)));
  }
  if (vals.empty()) {
    if (complete) throw PathEnd{"infeasible", "no feasible value"};
    throw PathEnd{"incomplete", "cannot concretise a symbolic value (solver: " + S.lastReason + ")"};
  }
  if (!complete) {
    R.checks["__enumeration"].unknown++;
    if (!unk) throw PathEnd{"incomplete", "more than " + std::to_string(lim.enumLimit) + " values for a symbolic address/size/count"};
  }
  for (size_t i = 1; i < vals.size(); ++i) {
    Task t;
    t.dec = dec;
    t.dec.push_back(decSite);
    t.dec.push_back(vals[i].first);
    t.hasEnv = hasEnv;
    if (hasEnv)
      for (auto& in : inputs) t.env[in.first] = vals[i].second.v[in.second->id];
    R.fresh.push_back(std::move(t));
    R.forks++;
  }
  pushDec(vals[0].first);
  env = vals[0].second;
  addPC(cond(vals[0].first));
  return vals[0].first;
}
uint64_t Interp::concretize(E e) {
  if (isC(e)) return (uint64_t)e->c;
  unsigned w = e->s.k == SK::Bool ? 1 : e->s.w;
  if (e->s.k == SK::Bool) return branch(e);
  if (w > 64) unsupported("concretising a wide integer");
  return enumerate([&](uint64_t k) { return mkEq(e, mkBV(k, w)); },
                   [&](const Env& m) { Evaluator ev(m); return (uint64_t)ev.eval(e).c; }, e);
}
int64_t Interp::concretizeReal(E e) {
  if (isC(e)) {
    mpz_class z = e->q.get_num() / e->q.get_den();  // truncation
    return z.get_si();
  }
  return (int64_t)enumerate(
      [&](uint64_t u) {
        int64_t k = (int64_t)u;
        E lo = mkRealc(mpq_class(std::to_string(k))), hi = mkRealc(mpq_class(std::to_string(k + 1))), lm = mkRealc(mpq_class(std::to_string(k - 1)));
        if (k > 0) return mkAnd(rCmp(Op::RLe, lo, e), rCmp(Op::RLt, e, hi));
        if (k < 0) return mkAnd(rCmp(Op::RLt, lm, e), rCmp(Op::RLe, e, lo));
        return mkAnd(rCmp(Op::RLt, mkRealc(-1), e), rCmp(Op::RLt, e, mkRealc(1)));
      },
      [&](const Env& m) { Evaluator ev(m); return (uint64_t)(int64_t)std::trunc(ev.eval(e).d); }, e);
}

void Interp::assume(E c) {
  if (isC(c)) {
    if (!c->c) throw PathEnd{"infeasible", "assumption"};
    return;
  }
  auto kn = known.find(c->id);
  if (kn != known.end()) {
    if (!kn->second) throw PathEnd{"infeasible", "assumption"};
    return;
  }
  if (decPos >= prefixLen) {
    if (!hasEnv || !evalEnv(c)) {
      Env m = env;
      Sat r = S.checkWith(pc, c, &m, lim.queryMs);
      if (r == Sat::Unsat) throw PathEnd{"infeasible", "assumption"};
      if (r == Sat::Sat) {
        // m replaces the values of the connected component only: still consistent
        env = m;
      } else
        hasEnv = false;
    }
  }
  addPC(c);
}

std::vector<std::pair<std::string, std::string>> Interp::valuesOf(const Env& m) {
  std::vector<std::pair<std::string, std::string>> out;
  for (auto& in : inputs) {
    auto it = m.v.find(in.second->id);
    NumVal n = it == m.v.end() ? NumVal() : it->second;
    char b[64];
    switch (in.second->s.k) {
      case SK::Bool: snprintf(b, sizeof b, "%d", (int)(n.c != 0)); break;
      case SK::BV: snprintf(b, sizeof b, "%lld", (long long)sextc(n.c, in.second->s.w)); break;
      case SK::FP: {
        double d = bitsToD(n.c, in.second->s.w);
        if (std::isnan(d)) snprintf(b, sizeof b, "nan");
        else snprintf(b, sizeof b, "%a", d);
        break;
      }
      default: snprintf(b, sizeof b, "%a", n.d);
    }
    out.push_back({in.first, b});
  }
  return out;
}

// looks for concrete inputs near m with a property
bool Interp::searchCex(Cex& x, const Env& m, int n, const std::function<bool(const Env&)>& ok) {
  bool hasReal = false;
  for (auto& in : inputs) hasReal |= in.second->s.k == SK::Real;
  if (!hasReal) return false;
  std::mt19937_64 rng(12345);
  std::normal_distribution<double> nd;
  std::uniform_real_distribution<double> ud(-3, 3);
  for (int tries = 0; tries < n; ++tries) {
    Env e = (tries % 2 && hasEnv) ? env : m;
    double sc = std::pow(10.0, -(tries / 8 % 4));
    for (auto& in : inputs)
      if (in.second->s.k == SK::Real) {
        double& d = e.v[in.second->id].d;
        int mode = tries % 3;
        if (mode == 0) d += sc * nd(rng);
        else if (mode == 1) d = ud(rng);
        else if (rng() % 3 == 0) d += sc * nd(rng);
      }
    if (ok(e)) {
      x.numericallyConfirmed = true;
      x.values = valuesOf(e);
      return true;
    }
  }
  return false;
}
// fails(ev) tells whether the assertion is violated numerically
bool Interp::buildCex(Cex& x, E neg, const std::function<bool(Evaluator&)>& fails) {
  Env m = env;
  std::vector<E> all = pc;
  if (neg) all.push_back(neg);
  Sat r = S.fullModel(all, m, lim.checkMs);
  if (r == Sat::Unsat) {
    x.refuted = true;
    return false;
  }
  auto ok = [&](const Env& e) {
    Evaluator ev(e, real ? 1e-7 : 0);
    for (E c : pc)
      if (!ev.eval(c).c) return false;
    return fails(ev);
  };
  if (r == Sat::Sat && ok(m)) {
    x.numericallyConfirmed = true;
    x.values = valuesOf(m);
    return true;
  }
  // The model may use function values (sin, log, ...) the axioms do not pin
  // down.  Search nearby concrete inputs; the replay has the last word.
  if (searchCex(x, m, 4000, ok)) return true;
  x.values = valuesOf(m);
  if (r != Sat::Sat) return false;
  return true;
}

void Interp::violation(const std::string& id, const std::string& kind, const std::string& detail, E extra) {
  // prefixes are re-executed: only report what happens after them
  if (decPos < prefixLen) return;
  auto& cs = R.checks[id];
  cs.reached++;
  Cex x;
  x.id = id;
  x.kind = kind;
  x.detail = detail;
  if (!buildCex(x, extra, [&](Evaluator& ev) { return !extra || ev.eval(extra).c; })) {
    (x.refuted ? cs.proved : cs.unknown)++;
    return;
  }
  cs.cex++;
  if (R.cexs.size() < 6) R.cexs.push_back(x);
}

void Interp::check(E c, const std::string& id, const std::string& detail, bool closeness, E a, E b) {
  if (closeness && isC(c) && !c->c && a && b) {
    E d = rSub(a, b), tol = mkRealc(mpq_class(1, 1000000));
    E far = mkOr(rCmp(Op::RLt, tol, d), rCmp(Op::RLt, tol, rNeg(d)));
    if (isC(far) && !far->c) c = mkBool(true);
  }
  if (!isC(c)) ++decSite;
  if (decPos < prefixLen) {
    if (isC(c)) {
      if (!c->c) throw PathEnd{"incomplete", "replay of a path met a failing assertion: " + id};
    } else if (replayHere()) {
      // recorded only where the assertion was not proved
      uint64_t d;
      replayNext(d);
      addPC(c);
    }
    return;
  }
  auto& cs = R.checks[id];
  cs.reached++;
  if (!cs.witness) {
    if (hasEnv) {
      Evaluator ev(env, real ? 1e-7 : 0);
      bool ok = true;
      for (E p : pc)
        if (!ev.eval(p).c) { ok = false; break; }
      if (ok) cs.witness = true;
    }
    if (!cs.witness) {
      Env m = env;
      cs.witness = S.fullModel(pc, m, lim.queryMs) == Sat::Sat;
    }
  }
  if (isC(c) && c->c) {
    cs.proved++;
    return;
  }
  E neg = mkNot(c);
  // an equation of formulas that already fails on a few inputs need not be
  // given to the solver, which can take very long to find them
  if (closeness && real && hasEnv) {
    auto ok = [&](const Env& e) {
      Evaluator ev(e, 1e-7);
      for (E p : pc)
        if (!ev.eval(p).c) return false;
      double x = ev.eval(a).d, y = ev.eval(b).d;
      return std::fabs(x - y) > 1e-3 * (1 + std::max(std::fabs(x), std::fabs(y)));
    };
    Cex x;
    x.id = id;
    x.kind = "check";
    x.detail = detail;
    bool found = ok(env);
    if (found) {
      x.numericallyConfirmed = true;
      x.values = valuesOf(env);
    }
    if (found || searchCex(x, env, 48, ok)) {
      cs.cex++;
      if (R.cexs.size() < 6) R.cexs.push_back(x);
      throw PathEnd{"violation", id};
    }
  }
  Env m = env;
  Sat r = S.checkWith(pc, neg, &m, lim.checkMs);
  if (r == Sat::Unsat) {
    cs.proved++;
    return;
  }
  std::function<bool(Evaluator&)> fails = [neg](Evaluator& ev) { return ev.eval(neg).c != 0; };
  if (closeness) {
    E d = rSub(a, b);
    E tol = mkRealc(mpq_class(1, 1000000));
    // |a - b| > tol * (1 + |a|)
    E up = rAdd(tol, rMul(tol, a)), lo = rSub(tol, rMul(tol, a)), nd = rNeg(d);
    E far = mkOr(mkAnd(rCmp(Op::RLt, up, d), rCmp(Op::RLt, lo, d)), mkAnd(rCmp(Op::RLt, up, nd), rCmp(Op::RLt, lo, nd)));
    if (isC(far) && !far->c) {
      cs.proved++;
      return;
    }
    fails = [a, b](Evaluator& ev) {
      double x = ev.eval(a).d, y = ev.eval(b).d;
      if (std::isnan(x) && std::isnan(y)) return false;
      return !(std::fabs(x - y) <= 1e-6 * (1 + std::max(std::fabs(x), std::fabs(y))));
    };
    if (r == Sat::Sat) {
      Env m2 = env;
      Sat r2 = S.checkWith(pc, far, &m2, lim.checkMs);
      if (r2 == Sat::Unsat) {
        cs.proved++;
        return;
      }
      neg = far;
    }
  }
  Cex x;
  x.id = id;
  x.kind = "check";
  x.detail = detail;
  bool built = buildCex(x, neg, fails);
  if (x.refuted) {  // no input at all reaches a failure here
    cs.proved++;
    if (isC(c)) throw PathEnd{"infeasible", ""};
    return;
  }
  if (r == Sat::Unknown && !x.numericallyConfirmed) {
    cs.unknown++;
    if (getenv("SV_DEBUG")) fprintf(stderr, "unknown check %s (%s): %s\n", id.c_str(), S.lastReason.c_str(), toStr(neg, 12).substr(0, 3000).c_str());
    pushDec(1);
    addPC(c);
    return;
  }
  if (!built) {
    cs.unknown++;
  } else {
    cs.cex++;
    if (getenv("SV_DEBUG")) {
      fprintf(stderr, "cex for %s: %s\n", id.c_str(), toStr(neg, 12).substr(0, 2000).c_str());
      for (E p : pc) fprintf(stderr, "  pc %s\n", toStr(p, 8).substr(0, 400).c_str());
    }
    if (R.cexs.size() < 6) R.cexs.push_back(x);
  }
  if (isC(c)) throw PathEnd{"violation", id};
  pushDec(1);
  assume(c);
}

// ============================================================ floating point
bool Interp::isConcF(const Val& v) { return v.k == VK::Conc; }
double Interp::dOf(const Val& v, Type* t) { return bitsToD(v.c, t->isFloatTy() ? 32 : 64); }
Val Interp::ofD(double d, Type* t) { return Val::conc(dToBits(d, t->isFloatTy() ? 32 : 64)); }
E Interp::realE(const Val& v, Type* t) {
  if (v.k == VK::Sym) return v.e;
  double d = dOf(v, t);
  if (!std::isfinite(d)) unsupported("non-finite constant in a real expression");
  return mkRealc(mpq_class(d));
}
Val Interp::fromReal(E e, Type* t) {
  if (isC(e)) {
    double d;
    if (mpqExactDouble(e->q, d)) {
      if (!t->isFloatTy() || (double)(float)d == d) return ofD(d, t);
    }
    if (mpz_sizeinbase(e->q.get_den_mpz_t(), 2) > 6000 || mpz_sizeinbase(e->q.get_num_mpz_t(), 2) > 6000) return ofD(e->q.get_d(), t);
  }
  return Val::sym(e);
}

// What the way a real number was computed says about its sign (2: positive,
// 1: not negative, 0: nothing): squares, their sums, roots, and what the path
// condition says itself.
int Interp::signOf(E e) {
  if (isC(e)) return e->q > 0 ? 2 : e->q == 0 ? 1 : 0;
  int r = 0;
  auto it = signs.find(e->id);
  if (it != signs.end()) r = it->second;
  if (r == 2 || e->op != Op::Var) return r;
  E c = rCmp(Op::RLt, mkRealc(0), e);
  if (isC(c)) { if (c->c) return 2; }
  else {
    auto k = known.find(c->id);
    if (k != known.end() && k->second) return 2;
  }
  if (r) return r;
  c = rCmp(Op::RLt, e, mkRealc(0));
  if (isC(c)) return c->c ? 0 : 1;
  auto k = known.find(c->id);
  return k != known.end() && !k->second;
}
Val Interp::signed_(const Val& v, int sign) {
  if (sign && v.k == VK::Sym) {
    int& s = signs[v.e->id];
    s = std::max(s, sign);
  }
  return v;
}
Val Interp::fbin(unsigned op, const Val& a0, const Val& b0, Type* t) {
  Val a = use(a0, t), b = use(b0, t);
  if (a.isC() && b.isC()) {
    double x = dOf(a, t), y = dOf(b, t), r;
    switch (op) {
      case Instruction::FAdd: r = x + y; break;
      case Instruction::FSub: r = x - y; break;
      case Instruction::FMul: r = x * y; break;
      case Instruction::FDiv: r = x / y; break;
      default: r = std::fmod(x, y); break;
    }
    if (!real || !std::isfinite(r) || !std::isfinite(x) || !std::isfinite(y) || op == Instruction::FRem) return ofD(r, t);
    bool exact = false;
    if (t->isFloatTy()) r = (float)r;
    switch (op) {
      case Instruction::FAdd: case Instruction::FSub: {
        double yy = op == Instruction::FSub ? -y : y;
        double bb = r - x;
        double err = (x - (r - bb)) + (yy - bb);
        exact = err == 0;
        break;
      }
      case Instruction::FMul: exact = std::fma(x, y, -r) == 0 && !(r == 0 && x != 0 && y != 0); break;
      case Instruction::FDiv: exact = std::fma(r, y, -x) == 0 && std::fabs(r) > 1e-290; break;
    }
    if (r == 0 && op == Instruction::FDiv) exact = x == 0;
    if (exact) return ofD(r, t);
  }
  if (!real) {
    Op o;
    switch (op) {
      case Instruction::FAdd: o = Op::FAdd; break;
      case Instruction::FSub: o = Op::FSub; break;
      case Instruction::FMul: o = Op::FMul; break;
      case Instruction::FDiv: o = Op::FDiv; break;
      default: return fuf("fmod", {a, b}, t);
    }
    return Val::sym(mkF(o, sortOf(t), {toE(a, t), toE(b, t)}));
  }
  // non-finite constants mixed with symbolic reals
  auto nonfinite = [&](const Val& v) { return v.isC() && !std::isfinite(dOf(v, t)); };
  auto sgn = [&](const Val& v) -> int {
    if (v.isC()) {
      double d = dOf(v, t);
      return d > 0 ? 1 : d < 0 ? -1 : 0;
    }
    if (branch(rCmp(Op::RLt, mkRealc(0), v.e))) return 1;
    if (branch(rCmp(Op::REq, v.e, mkRealc(0)))) return 0;
    return -1;
  };
  if (nonfinite(a) || nonfinite(b)) {
    double x = a.isC() ? dOf(a, t) : 1.0 * (std::isnan(dOf(b, t)) ? 1 : sgn(a));
    double y = b.isC() ? dOf(b, t) : 1.0 * (std::isnan(dOf(a, t)) ? 1 : sgn(b));
    switch (op) {
      case Instruction::FAdd: return ofD(x + y, t);
      case Instruction::FSub: return ofD(x - y, t);
      case Instruction::FMul: return ofD(x * y, t);
      case Instruction::FDiv: return ofD(x / y, t);
      default: return ofD(std::nan(""), t);
    }
  }
  E x = realE(a, t), y = realE(b, t);
  switch (op) {
    case Instruction::FAdd: return signed_(fromReal(rAdd(x, y), t), std::min(signOf(x), signOf(y)) ? std::max(signOf(x), signOf(y)) : 0);
    case Instruction::FSub: return fromReal(rSub(x, y), t);
    case Instruction::FMul: return signed_(fromReal(rMul(x, y), t), x == y ? 1 : std::min(signOf(x), signOf(y)));
    case Instruction::FDiv: {
      E z = rCmp(Op::REq, y, mkRealc(0));
      if (branch(z)) {
        int s = sgn(a);
        if (!s) return ofD(std::nan(""), t);
        return ofD(s > 0 ? INFINITY : -INFINITY, t);
      }
      return signed_(fromReal(rNorm(rDiv(x, y)), t), std::min(signOf(x), signOf(y)));
    }
    default: return fuf("fmod", {a, b}, t);
  }
}
Val Interp::fneg(const Val& a0, Type* t) {
  Val a = use(a0, t);
  if (a.isC()) return ofD(-dOf(a, t), t);
  if (real) return fromReal(rNeg(a.e), t);
  return Val::sym(mkF(Op::FNeg, a.e->s, {a.e}));
}
Val Interp::fabsV(const Val& a0, Type* t) {
  Val a = use(a0, t);
  if (a.isC()) return ofD(std::fabs(dOf(a, t)), t);
  if (real) return branch(rCmp(Op::RLt, a.e, mkRealc(0))) ? fromReal(rNeg(a.e), t) : a;
  return Val::sym(mkF(Op::FAbs, a.e->s, {a.e}));
}
Val Interp::fsqrt(const Val& a0, Type* t) {
  Val a = use(a0, t);
  if (a.isC()) {
    double x = dOf(a, t), r = std::sqrt(x);
    if (!real || !std::isfinite(r) || std::fma(r, r, -x) == 0) return ofD(r, t);
    return fromReal(rSqrt(realE(a, t)), t);
  }
  if (real) {
    const int sg = signOf(a.e);
    if (!sg && branch(rCmp(Op::RLt, a.e, mkRealc(0)))) return ofD(std::nan(""), t);
    return signed_(fromReal(rSqrt(a.e), t), sg == 2 ? 2 : 1);
  }
  return Val::sym(mkF(Op::FSqrt, a.e->s, {a.e}));
}
Val Interp::fround(const Val& a0, int mode, Type* t) {
  Val a = use(a0, t);
  if (a.isC()) {
    double x = dOf(a, t);
    switch (mode) {
      case 0: x = std::floor(x); break;
      case 1: x = std::ceil(x); break;
      case 2: x = std::trunc(x); break;
      case 3: x = std::round(x); break;
      default: x = std::nearbyint(x); break;
    }
    return ofD(x, t);
  }
  if (!real) return Val::sym(mkF(Op::FRound, a.e->s, {a.e}, mode));
  E x = a.e, half = mkRealc(mpq_class(1, 2));
  switch (mode) {
    case 0: return fromReal(rFloor(x), t);
    case 1: return fromReal(rNeg(rFloor(rNeg(x))), t);
    case 2:
      if (branch(rCmp(Op::RLt, x, mkRealc(0)))) return fromReal(rNeg(rFloor(rNeg(x))), t);
      return fromReal(rFloor(x), t);
    case 3:
      if (branch(rCmp(Op::RLt, x, mkRealc(0)))) return fromReal(rNeg(rFloor(rAdd(rNeg(x), half))), t);
      return fromReal(rFloor(rAdd(x, half)), t);
    default: {
      // ties excluded from the real model of nearbyint/rint: treated as round-half-up
      return fromReal(rFloor(rAdd(x, half)), t);
    }
  }
}
Val Interp::fuf(const std::string& n, std::vector<Val> a, Type* t) {
  bool conc = true;
  for (auto& v : a) {
    v = use(v, t);
    if (!v.isC()) conc = false;
  }
  if (conc) {
    std::vector<double> d;
    for (auto& v : a) d.push_back(dOf(v, t));
    return ofD(evalUF(n, d), t);
  }
  if (!real) {
    std::vector<E> k;
    for (auto& v : a) k.push_back(toE(v, t));
    Val r = Val::sym(mkF(Op::FUF, sortOf(t), k, 0, n));
    if (n == "log" || n == "exp") {
      // IEEE facts about the libm result, as far as the harnesses need them
      E x = k[0], y = r.e;
      unsigned w = y->s.w;
      E one = mkFPc(dToBits(1, w), w), zero = mkFPc(dToBits(0, w), w), ninf = mkFPc(dToBits(-INFINITY, w), w), pinf = mkFPc(dToBits(INFINITY, w), w);
      auto b = [&](Op o, E p, E q) { return mkF(o, SBool, {p, q}); };
      auto imp = [&](E p, E q) { return mkOr(mkNot(p), q); };
      E nanx = mkF(Op::FIsNaN, SBool, {x}), nany = mkF(Op::FIsNaN, SBool, {y});
      if (n == "log") {
        assume(mkEq(nany, mkOr(nanx, b(Op::FLt, x, zero))));
        assume(imp(b(Op::FEq, x, zero), b(Op::FEq, y, ninf)));
        assume(imp(b(Op::FEq, x, one), b(Op::FEq, y, zero)));
        E lo = mkFPc(dToBits(-800, w), w), hi = mkFPc(dToBits(800, w), w);
        assume(imp(mkAnd(b(Op::FLt, zero, x), b(Op::FLt, x, one)), mkAnd(b(Op::FLt, y, zero), b(Op::FLt, lo, y))));
        assume(imp(mkAnd(b(Op::FLt, one, x), b(Op::FLt, x, pinf)), mkAnd(b(Op::FLt, zero, y), b(Op::FLt, y, hi))));
        assume(imp(b(Op::FEq, x, pinf), b(Op::FEq, y, pinf)));
      } else {
        assume(mkEq(nany, nanx));
        assume(imp(mkNot(nanx), b(Op::FLe, zero, y)));
      }
    }
    return r;
  }
  // nan/inf constants propagate
  for (auto& v : a)
    if (v.isC() && !std::isfinite(dOf(v, t))) {
      if (std::isnan(dOf(v, t))) return ofD(std::nan(""), t);
      unsupported("infinite argument of " + n);
    }
  std::vector<E> k;
  for (auto& v : a) k.push_back(realE(v, t));
  E zero = mkRealc(0), one = mkRealc(1);
  if (n == "log" || n == "log2" || n == "log10") {
    if (branch(rCmp(Op::RLe, k[0], zero))) {
      if (branch(rCmp(Op::REq, k[0], zero))) return ofD(-INFINITY, t);
      return ofD(std::nan(""), t);
    }
  } else if (n == "log1p") {
    E m1 = mkRealc(-1);
    if (branch(rCmp(Op::RLe, k[0], m1))) {
      if (branch(rCmp(Op::REq, k[0], m1))) return ofD(-INFINITY, t);
      return ofD(std::nan(""), t);
    }
  } else if (n == "asin" || n == "acos") {
    if (branch(rCmp(Op::RLt, one, k[0])) || branch(rCmp(Op::RLt, k[0], rNeg(one)))) return ofD(std::nan(""), t);
  } else if (n == "atan2") {
    E yz = rCmp(Op::REq, k[0], zero), xz = rCmp(Op::REq, k[1], zero);
    if (branch(mkAnd(yz, xz))) return ofD(0, t);
  } else if (n == "pow") {
    bool intExp = isC(k[1]) && k[1]->q.get_den() == 1;
    if (!intExp) {
      if (branch(rCmp(Op::RLe, k[0], zero))) {
        if (branch(rCmp(Op::REq, k[0], zero))) {
          if (branch(rCmp(Op::RLt, zero, k[1]))) return ofD(0, t);
          return ofD(branch(rCmp(Op::REq, k[1], zero)) ? 1 : INFINITY, t);
        }
        return ofD(std::nan(""), t);
      }
    } else if (k[1]->q < 0) {
      if (branch(rCmp(Op::REq, k[0], zero))) return ofD(INFINITY, t);
    }
  } else if (n == "tan") {
    E c = rUF("cos", {k[0]});
    if (branch(rCmp(Op::REq, c, zero))) return ofD(INFINITY, t);
  } else if (n == "fmod") {
    E q = rDiv(k[0], k[1]);
    Val qv = fromReal(rNorm(q), t);
    Val tr = fround(qv, 2, t);
    return fromReal(rNorm(rSub(k[0], rMul(k[1], realE(tr, t)))), t);
  } else if (n == "hypot") {
    return fromReal(rSqrt(rAdd(rMul(k[0], k[0]), rMul(k[1], k[1]))), t);
  } else if (n == "fdim") {
    return branch(rCmp(Op::RLt, k[1], k[0])) ? fromReal(rSub(k[0], k[1]), t) : ofD(0, t);
  }
  return fromReal(rUF(n, k), t);
}

Val Interp::rless(Op op, E x, E y) {
  if (isC(y) && y->q <= 0 && !isC(x)) {
    auto it = signs.find(x->id);
    const int s = it == signs.end() ? 0 : it->second;
    if (s && (op == Op::RLt || s == 2 || y->q < 0)) return Val::conc(0);
  }
  if (isC(x) && x->q <= 0 && !isC(y)) {
    auto it = signs.find(y->id);
    const int s = it == signs.end() ? 0 : it->second;
    if (s && (op == Op::RLe || s == 2 || x->q < 0)) return Val::conc(1);
  }
  return fromE(rCmp(op, x, y));
}
Val Interp::fcmp(unsigned pred, const Val& a0, const Val& b0, Type* t) {
  if (pred == CmpInst::FCMP_FALSE) return Val::conc(0);
  if (pred == CmpInst::FCMP_TRUE) return Val::conc(1);
  Val a = use(a0, t), b = use(b0, t);
  bool cc = a.isC() && b.isC();
  if (cc || (real && ((a.isC() && !std::isfinite(dOf(a, t))) || (b.isC() && !std::isfinite(dOf(b, t)))))) {
    double x = a.isC() ? dOf(a, t) : 0, y = b.isC() ? dOf(b, t) : 0;
    if (!cc && a.isC() == false && false) x = 0;
    bool uno = std::isnan(x) || std::isnan(y), eq = x == y, lt = x < y, gt = x > y;
    bool r = false;
    switch (pred) {
      case CmpInst::FCMP_OEQ: r = eq; break;
      case CmpInst::FCMP_OGT: r = gt; break;
      case CmpInst::FCMP_OGE: r = gt || eq; break;
      case CmpInst::FCMP_OLT: r = lt; break;
      case CmpInst::FCMP_OLE: r = lt || eq; break;
      case CmpInst::FCMP_ONE: r = lt || gt; break;
      case CmpInst::FCMP_ORD: r = !uno; break;
      case CmpInst::FCMP_UNO: r = uno; break;
      case CmpInst::FCMP_UEQ: r = uno || eq; break;
      case CmpInst::FCMP_UGT: r = uno || gt; break;
      case CmpInst::FCMP_UGE: r = uno || gt || eq; break;
      case CmpInst::FCMP_ULT: r = uno || lt; break;
      case CmpInst::FCMP_ULE: r = uno || lt || eq; break;
      case CmpInst::FCMP_UNE: r = uno || !eq; break;
    }
    return Val::conc(r);
  }
  E x = toE(a, t), y = toE(b, t);
  E eq, lt, gt, uno;
  if (real) {
    switch (pred) {
      case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: return fromE(rCmp(Op::REq, x, y));
      case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: return fromE(mkNot(rCmp(Op::REq, x, y)));
      case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: return rless(Op::RLt, x, y);
      case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: return rless(Op::RLe, x, y);
      case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: return rless(Op::RLt, y, x);
      case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: return rless(Op::RLe, y, x);
      case CmpInst::FCMP_ORD: return Val::conc(1);
      default: return Val::conc(0);
    }
  }
  auto nn = [&]() { return mkOr(mkF(Op::FIsNaN, SBool, {x}), mkF(Op::FIsNaN, SBool, {y})); };
  auto F = [&](Op o, E p, E q) { return mkF(o, SBool, {p, q}); };
  switch (pred) {
    case CmpInst::FCMP_OEQ: return fromE(F(Op::FEq, x, y));
    case CmpInst::FCMP_OGT: return fromE(F(Op::FLt, y, x));
    case CmpInst::FCMP_OGE: return fromE(F(Op::FLe, y, x));
    case CmpInst::FCMP_OLT: return fromE(F(Op::FLt, x, y));
    case CmpInst::FCMP_OLE: return fromE(F(Op::FLe, x, y));
    case CmpInst::FCMP_ONE: return fromE(mkOr(F(Op::FLt, x, y), F(Op::FLt, y, x)));
    case CmpInst::FCMP_ORD: return fromE(mkNot(nn()));
    case CmpInst::FCMP_UNO: return fromE(nn());
    case CmpInst::FCMP_UEQ: return fromE(mkOr(nn(), F(Op::FEq, x, y)));
    case CmpInst::FCMP_UGT: return fromE(mkNot(F(Op::FLe, x, y)));
    case CmpInst::FCMP_UGE: return fromE(mkNot(F(Op::FLt, x, y)));
    case CmpInst::FCMP_ULT: return fromE(mkNot(F(Op::FLe, y, x)));
    case CmpInst::FCMP_ULE: return fromE(mkNot(F(Op::FLt, y, x)));
    case CmpInst::FCMP_UNE: return fromE(mkNot(F(Op::FEq, x, y)));
  }
  unsupported("fcmp");
}
Val Interp::fcast(const Val& v0, Type* from, Type* to) {
  Val v = use(v0, from);
  if (v.isC()) return ofD(dOf(v, from), to);
  if (real) {
    // numbers are exact, but storing one in single precision is not
    if (to->isFloatTy() && from->isDoubleTy() && !(v.e->op == Op::RUF && v.e->name == "float")) return Val::sym(rUF("float", {v.e}));
    return v;
  }
  return Val::sym(mkF(Op::FToF, sortOf(to), {v.e}));
}
Val Interp::fptoint(const Val& v0, Type* from, Type* to, bool sg) {
  Val v = use(v0, from);
  unsigned w = to->getIntegerBitWidth();
  if (v.isC()) {
    double d = std::trunc(dOf(v, from));
    double lim = std::ldexp(1.0, sg ? w - 1 : w);
    if (!(d < lim && d >= (sg ? -lim : -0.5))) {
      if (!sg && d < 0 && d >= -9.2e18) return Val::conc((u128)(i128)d & maskw(w));
      return Val::conc((u128)1 << (w - 1));
    }
    return Val::conc((sg ? (u128)(i128)d : (u128)d) & maskw(w));
  }
  if (real && lazyInt) return Val::sym(intOfReal(v.e->op == Op::RFloor ? v.e : realE(fround(v, 2, from), from), w));
  if (real) return Val::conc((u128)(i128)concretizeReal(v.e) & maskw(w));
  if (w == 1) unsupported("fp to i1");
  return Val::sym(mkF(sg ? Op::FToS : Op::FToU, SBV(w), {v.e}));
}
// An integer that is only known as the real number it stands for: converting it
// back gives that number, any other use of it sees an arbitrary integer.
E Interp::intOfReal(E r, unsigned w) {
  E v = mkVar("int!" + std::to_string(nameCount["int!"]++), SBV(w));
  realOf[v->id] = r;
  Evaluator ev(env);
  double d = std::trunc(ev.eval(r).d);
  NumVal n;
  n.c = (std::isfinite(d) && std::fabs(d) < 9e18 ? (u128)(i128)d : 0) & maskw(w);
  env.v[v->id] = n;
  return v;
}
Val Interp::inttofp(const Val& v0, Type* from, Type* to, bool sg) {
  Val v = use(v0, from);
  unsigned w = from->getIntegerBitWidth();
  if (v.isC()) {
    if (sg) return ofD(to->isFloatTy() ? (double)(float)sextc(v.c, w) : (double)sextc(v.c, w), to);
    return ofD(to->isFloatTy() ? (double)(float)v.c : (double)v.c, to);
  }
  if (w == 1) return branch(v.e) ? ofD(sg ? -1 : 1, to) : ofD(0, to);
  if (real) {
    E b = v.e;
    while (b->op == Op::ZExt || b->op == Op::SExt) b = b->k[0];
    auto it = realOf.find(b->id);
    if (it != realOf.end()) return fromReal(it->second, to);
    if (getenv("SV_DEBUG")) fprintf(stderr, "enumerating %s\n", toStr(v.e, 6).substr(0, 500).c_str());
    uint64_t k = concretize(v.e);
    return ofD(sg ? (double)(int64_t)sextc(k, w) : (double)k, to);
  }
  return Val::sym(mkF(sg ? Op::SToF : Op::UToF, sortOf(to), {v.e}));
}

// ============================================================ integers
static bool opOf(unsigned op, Op& o) {
  switch (op) {
    case Instruction::Add: o = Op::BAdd; return true;
    case Instruction::Sub: o = Op::BSub; return true;
    case Instruction::Mul: o = Op::BMul; return true;
    case Instruction::UDiv: o = Op::BUDiv; return true;
    case Instruction::SDiv: o = Op::BSDiv; return true;
    case Instruction::URem: o = Op::BURem; return true;
    case Instruction::SRem: o = Op::BSRem; return true;
    case Instruction::And: o = Op::BAnd; return true;
    case Instruction::Or: o = Op::BOr; return true;
    case Instruction::Xor: o = Op::BXor; return true;
    case Instruction::Shl: o = Op::BShl; return true;
    case Instruction::LShr: o = Op::BLShr; return true;
    case Instruction::AShr: o = Op::BAShr; return true;
  }
  return false;
}
Val Interp::ibin(unsigned op, const Val& a0, const Val& b0, Type* t) {
  unsigned w = t->getIntegerBitWidth();
  if (a0.k == VK::Undef && b0.k == VK::Undef) return Val();
  Val a = use(a0, t), b = use(b0, t);
  uint32_t prov = a.prov ? (b.prov ? 0 : a.prov) : b.prov;
  Op o;
  if (!opOf(op, o)) unsupported("integer op");
  bool isDiv = o == Op::BUDiv || o == Op::BSDiv || o == Op::BURem || o == Op::BSRem;
  if (isDiv) {
    if (b.isC() && !b.c) {
      memViolation("integer division by zero", nullptr);
      throw PathEnd{"violation", "division by zero"};
    }
    if (!b.isC()) {
      E z = mkEq(b.e, mkBV(0, w));
      if (branch(z)) {
        memViolation("integer division by zero", nullptr);
        throw PathEnd{"violation", "division by zero"};
      }
    }
  }
  if (real && !a.isC() && a.e->op == Op::RBits && b.isC()) {
    Type* dt = Type::getDoubleTy(M.getContext());
    E r = a.e->k[0];
    u128 sign = (u128)1 << 63;
    if (o == Op::BAnd && b.c == sign - 1) return fromE(bitsOfE(toE(fabsV(Val::sym(r), dt), dt)));
    if (o == Op::BXor && b.c == sign) return fromE(bitsOfE(rNeg(r)));
    if (o == Op::BAnd && b.c == sign) return branch(rCmp(Op::RLt, r, mkRealc(0))) ? Val::conc(sign) : Val::conc(0);
    if (o == Op::BLShr && b.c == 63) return branch(rCmp(Op::RLt, r, mkRealc(0))) ? Val::conc(1) : Val::conc(0);
  }
  // the low bits of such an integer, sign extended in place
  if (real && o == Op::BAShr && b.isC() && !a.isC() && a.e->op == Op::BShl && b.c < w && isC(a.e->k[1]) && a.e->k[1]->c == b.c) {
    auto it = realOf.find(a.e->k[0]->id);
    if (it != realOf.end()) {
      mpq_class h = mpq_class(mpz_class(1) << (w - (unsigned)b.c - 1));
      if (branch(mkAnd(rCmp(Op::RLe, mkRealc(-h), it->second), rCmp(Op::RLt, it->second, mkRealc(h))))) return Val::sym(a.e->k[0]);
    }
  }
  // sums and multiples of integers known as the numbers they stand for
  if (real && (o == Op::BAdd || o == Op::BSub || o == Op::BMul) && w >= 8 && !(a.isC() && b.isC())) {
    E x = realOfInt(a, w), y = x ? realOfInt(b, w) : nullptr;
    if (y && (o != Op::BMul || a.isC() || b.isC())) {
      E r = o == Op::BAdd ? rAdd(x, y) : o == Op::BSub ? rAdd(x, rNeg(y)) : rMul(x, y);
      mpq_class h = mpq_class(mpz_class(1) << (w - 1));
      if (branch(mkAnd(rCmp(Op::RLe, mkRealc(-h), r), rCmp(Op::RLt, r, mkRealc(h))))) {
        if (isC(r) && r->q.get_den() == 1 && r->q.get_num().fits_slong_p()) return Val::conc((u128)(i128)r->q.get_num().get_si() & maskw(w));
        return Val::sym(intOfReal(r, w));
      }
    }
  }
  Val r = fromE(mkBin(o, toE(a, t), toE(b, t)));
  if (!r.isC()) r.prov = prov;
  return r;
}
E Interp::realOfInt(const Val& v, unsigned w) {
  if (v.isC()) return w <= 64 ? mkRealc(mpq_class(std::to_string((int64_t)sextc(v.c, w)))) : nullptr;
  return v.k == VK::Sym ? realOfInt(v.e) : nullptr;
}
E Interp::realOfInt(E e) {
  while (e->op == Op::SExt) e = e->k[0];
  auto it = realOf.find(e->id);
  return it == realOf.end() ? nullptr : it->second;
}
Val Interp::icmp(unsigned pred, const Val& a0, const Val& b0, Type* t) {
  Val a = use(a0, t), b = use(b0, t);
  if (real && !a.isC() && a.e->op == Op::RBits && b.isC()) {
    E r = a.e->k[0];
    if (pred == CmpInst::ICMP_SLT && b.c == 0) return fromE(rCmp(Op::RLt, r, mkRealc(0)));
    if (pred == CmpInst::ICMP_SGT && b.c == maskw(64)) return fromE(rCmp(Op::RLe, mkRealc(0), r));
    if (pred == CmpInst::ICMP_EQ && b.c == 0) return fromE(rCmp(Op::REq, r, mkRealc(0)));
    if (pred == CmpInst::ICMP_NE && b.c == 0) return fromE(mkNot(rCmp(Op::REq, r, mkRealc(0))));
  }
  if (real && t->isIntegerTy() && !realOf.empty() && !(a.isC() && b.isC())) {
    unsigned w = t->getIntegerBitWidth();
    E x = realOfInt(a, w), y = x ? realOfInt(b, w) : nullptr;
    if (y) switch (pred) {
      case CmpInst::ICMP_EQ: return fromE(rCmp(Op::REq, x, y));
      case CmpInst::ICMP_NE: return fromE(mkNot(rCmp(Op::REq, x, y)));
      case CmpInst::ICMP_SLT: return fromE(rCmp(Op::RLt, x, y));
      case CmpInst::ICMP_SLE: return fromE(rCmp(Op::RLe, x, y));
      case CmpInst::ICMP_SGT: return fromE(rCmp(Op::RLt, y, x));
      case CmpInst::ICMP_SGE: return fromE(rCmp(Op::RLe, y, x));
    }
  }
  E x = toE(a, t), y = toE(b, t);
  switch (pred) {
    case CmpInst::ICMP_EQ: return fromE(mkEq(x, y));
    case CmpInst::ICMP_NE: return fromE(mkNot(mkEq(x, y)));
    case CmpInst::ICMP_ULT: return fromE(mkBin(Op::BUlt, x, y));
    case CmpInst::ICMP_ULE: return fromE(mkBin(Op::BUle, x, y));
    case CmpInst::ICMP_UGT: return fromE(mkBin(Op::BUlt, y, x));
    case CmpInst::ICMP_UGE: return fromE(mkBin(Op::BUle, y, x));
    case CmpInst::ICMP_SLT: return fromE(mkBin(Op::BSlt, x, y));
    case CmpInst::ICMP_SLE: return fromE(mkBin(Op::BSle, x, y));
    case CmpInst::ICMP_SGT: return fromE(mkBin(Op::BSlt, y, x));
    case CmpInst::ICMP_SGE: return fromE(mkBin(Op::BSle, y, x));
  }
  unsupported("icmp");
}
Val Interp::castOp(unsigned op, const Val& v, Type* from, Type* to) {
  switch (op) {
    case Instruction::Trunc: {
      if (v.k == VK::Undef) return v;
      unsigned w = to->getIntegerBitWidth();
      if (v.isC()) return Val::conc(v.c & maskw(w));
      auto it = real ? realOf.find(v.e->id) : realOf.end();
      if (it != realOf.end() && w >= 8) {
        E r = it->second;
        mpq_class h = mpq_class(mpz_class(1) << (w - 1));
        if (branch(mkAnd(rCmp(Op::RLe, mkRealc(-h), r), rCmp(Op::RLt, r, mkRealc(h))))) return Val::sym(intOfReal(r, w));
      }
      return fromE(mkExtract(v.e, 0, w));
    }
    case Instruction::ZExt:
      if (v.isC()) return v;
      return fromE(mkZExt(toE(v, from), to->getIntegerBitWidth()));
    case Instruction::SExt:
      if (v.isC()) return Val::conc((u128)sextc(v.c, from->getIntegerBitWidth()) & maskw(to->getIntegerBitWidth()));
      return fromE(mkSExt(toE(v, from), to->getIntegerBitWidth()));
    case Instruction::FPTrunc: case Instruction::FPExt: return fcast(v, from, to);
    case Instruction::FPToSI: return fptoint(v, from, to, true);
    case Instruction::FPToUI: return fptoint(v, from, to, false);
    case Instruction::SIToFP: return inttofp(v, from, to, true);
    case Instruction::UIToFP: return inttofp(v, from, to, false);
    case Instruction::PtrToInt: case Instruction::IntToPtr: {
      unsigned fw = width(from), tw = width(to);
      if (v.k == VK::Undef) return v;
      if (fw == tw) return v;
      if (tw < fw) return v.isC() ? Val::conc(v.c & maskw(tw)) : fromE(mkExtract(v.e, 0, tw));
      return v.isC() ? v : fromE(mkZExt(v.e, tw));
    }
    case Instruction::AddrSpaceCast: return v;
    case Instruction::BitCast: {
      if (v.k == VK::Undef || v.k == VK::Agg) {
        if (v.k == VK::Agg && typeStr(from) != typeStr(to)) unsupported("vector bitcast");
        return v;
      }
      if (v.isC()) return v;
      if (isFPTy(to) && !isFPTy(from)) {
        if (v.e->op == Op::RBits) return fromReal(v.e->k[0], to);
        if (real) unsupported("integer bits as a real");
        return fromE(mkF(Op::FFromBits, SFP(v.e->s.w), {v.e}));
      }
      if (isFPTy(from) && !isFPTy(to)) return fromE(bitsOfE(v.e));
      return v;
    }
  }
  unsupported("cast");
}
Val Interp::selectV(const Val& c0, const Val& a, const Val& b, Type* t) {
  if (c0.k == VK::Agg) {
    Val r = undefVal(t);
    for (size_t i = 0; i < r.agg->size(); ++i) (*r.agg)[i] = selectV((*c0.agg)[i], (*a.agg)[i], (*b.agg)[i], cast<VectorType>(t)->getElementType());
    return r;
  }
  Val c = use(c0, Type::getInt1Ty(M.getContext()));
  if (c.isC()) return (c.c & 1) ? a : b;
  if (a.k == VK::Agg || a.k == VK::Undef || b.k == VK::Undef || t->isPointerTy() || (isFPTy(t) && (real || t->isX86_FP80Ty()))) return branch(c.e) ? a : b;
  if (real && !realOf.empty() && ((a.k == VK::Sym && realOfInt(a.e)) || (b.k == VK::Sym && realOfInt(b.e)))) return branch(c.e) ? a : b;
  return fromE(mkIte(c.e, toE(a, t), toE(b, t)));
}

Val Interp::gep(const GEPOperator* g, const std::vector<Val>& ops) {
  Val base = ops[0];
  if (base.k == VK::Agg) unsupported("vector gep");
  if (base.k == VK::Undef) return base;
  E sym = base.k == VK::Sym ? base.e : nullptr;
  uint64_t acc = base.isC() ? (uint64_t)base.c : 0;
  uint32_t prov = base.isC() ? (uint32_t)((uint64_t)base.c >> 32) : base.prov;
  unsigned i = 1;
  for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it, ++i) {
    Val idx = ops[i];
    if (StructType* st = it.getStructTypeOrNull()) {
      acc += DL.getStructLayout(st)->getElementOffset((unsigned)idx.c);
      continue;
    }
    uint64_t es = DL.getTypeAllocSize(it.getIndexedType());
    Type* it2 = g->getOperand(i)->getType();
    if (idx.k == VK::Undef) idx = use(idx, it2);
    if (idx.isC()) {
      acc += es * (uint64_t)(int64_t)sextc(idx.c, it2->getIntegerBitWidth());
    } else {
      E x = mkSExt(idx.e, 64);
      if (it2->getIntegerBitWidth() == 64) x = idx.e;
      E t = mkBin(Op::BMul, x, mkBV(es, 64));
      sym = sym ? mkBin(Op::BAdd, sym, t) : t;
    }
  }
  if (!sym) return Val::conc(acc);
  Val r = fromE(mkBin(Op::BAdd, sym, mkBV(acc, 64)));
  if (!r.isC()) r.prov = prov;
  return r;
}

Val Interp::constVal(const Constant* c) {
  Type* t = c->getType();
  if (auto* ci = dyn_cast<ConstantInt>(c)) {
    const APInt& v = ci->getValue();
    u128 r = v.getRawData()[0];
    if (v.getBitWidth() > 64) r |= (u128)v.getRawData()[1] << 64;
    if (v.getBitWidth() > 128) unsupported("wide constant");
    return Val::conc(r & maskw(v.getBitWidth()));
  }
  if (auto* cf = dyn_cast<ConstantFP>(c)) {
    if (t->isX86_FP80Ty()) {
      APFloat f = cf->getValueAPF();
      bool lost;
      f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &lost);
      return Val::conc(f.bitcastToAPInt().getZExtValue());
    }
    if (!t->isDoubleTy() && !t->isFloatTy()) unsupported("fp constant type");
    return Val::conc(cf->getValueAPF().bitcastToAPInt().getZExtValue());
  }
  if (isa<ConstantPointerNull>(c)) return Val::conc(0);
  if (isa<UndefValue>(c)) return undefVal(t);
  if (auto* al = dyn_cast<GlobalAlias>(c)) return constVal(al->getAliasee());
  if (auto* gv = dyn_cast<GlobalValue>(c)) {
    auto it = gaddr.find(gv);
    if (it == gaddr.end()) unsupported("unknown global " + gv->getName().str());
    return Val::conc(it->second);
  }
  if (isa<ConstantAggregateZero>(c) || isa<ConstantAggregate>(c) || isa<ConstantDataSequential>(c)) {
    Val v = undefVal(t);
    for (unsigned i = 0; i < v.agg->size(); ++i) (*v.agg)[i] = constVal(c->getAggregateElement(i));
    return v;
  }
  if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    std::vector<Val> ops;
    for (auto& o : ce->operands()) ops.push_back(constVal(cast<Constant>(o)));
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: return gep(cast<GEPOperator>(ce), ops);
      case Instruction::ICmp: return icmp(ce->getPredicate(), ops[0], ops[1], ce->getOperand(0)->getType());
      default:
        if (ce->isCast()) return castOp(ce->getOpcode(), ops[0], ce->getOperand(0)->getType(), t);
        return ibin(ce->getOpcode(), ops[0], ops[1], t);
    }
  }
  if (isa<ConstantTokenNone>(c)) return Val();
  unsupported("constant " + typeStr(t));
}

// ============================================================ functions
FnInfo* Interp::info(const Function* F) {
  auto& p = fns[F];
  if (p) return p.get();
  p = std::make_unique<FnInfo>();
  FnInfo* fi = p.get();
  fi->F = F;
  for (auto& a : F->args()) fi->slot[&a] = fi->nslots++;
  for (auto& b : *F)
    for (auto& i : b)
      if (!i.getType()->isVoidTy()) fi->slot[&i] = fi->nslots++;
  unsigned n = 0;
  for (auto& b : *F) fi->bbIndex[&b] = n++;
  auto opIdx = [&](const Value* v) -> int {
    if (auto* c = dyn_cast<Constant>(v)) {
      auto it = constIdx.find(c);
      if (it != constIdx.end()) return -it->second;
      Val cv = constVal(c);
      consts.push_back(cv);
      constIdx[c] = consts.size() - 1;
      return -(int)(consts.size() - 1);
    }
    auto it = fi->slot.find(v);
    if (it == fi->slot.end()) return INT32_MIN;  // metadata, labels, asm
    return it->second;
  };
  fi->blocks.resize(n);
  fi->touched.assign(n, 0);
  for (auto& b : *F) {
    auto& out = fi->blocks[fi->bbIndex[&b]];
    for (auto& i : b) {
      if (isa<DbgInfoIntrinsic>(i)) continue;
      PInst pi;
      pi.I = &i;
      pi.op = i.getOpcode();
      auto s = fi->slot.find(&i);
      pi.dst = s == fi->slot.end() ? -1 : s->second;
      for (auto& o : i.operands()) {
        if (isa<BasicBlock>(o) || isa<MetadataAsValue>(o) || isa<InlineAsm>(o)) pi.ops.push_back(INT32_MIN);
        else pi.ops.push_back(opIdx(o));
      }
      out.push_back(std::move(pi));
    }
  }
  return fi;
}
const Interp::Handler* Interp::handlerFor(const Function* F) {
  auto it = hcache.find(F);
  if (it != hcache.end()) return it->second;
  const Handler* h = nullptr;
  std::string n = F->getName().str();
  auto e = handlers.find(n);
  if (e != handlers.end()) h = &e->second;
  if (!h && F->isDeclaration()) {
    std::string dm = demangle(n);
    if (isInterceptedName(n, dm)) {
      std::string key = "*iostream";
      if (auto b = boostFn(dm)) key = std::string("*") + b;
      else if (dm.find("boost::math::") != std::string::npos) key = "*nop";
      h = &handlers[key];
    }
  }
  hcache[F] = h;
  return h;
}
void Interp::popFrame() {
  for (uint32_t id : stack.back().allocas) objs[id - ID0]->alive = false;
  stack.pop_back();
}
void Interp::callFunction(const Function* F, std::vector<Val>& args, const CallBase* site, int dst) {
  if (stack.size() > 2000) throw PathEnd{"budget", "recursion depth"};
  FnInfo* fi = info(F);
  stack.emplace_back();
  Frame& f = stack.back();
  f.fi = fi;
  f.regs.resize(fi->nslots);
  for (unsigned i = 0; i < F->arg_size() && i < args.size(); ++i) f.regs[i] = args[i];
  f.site = site;
  f.dst = dst;
  fi->touched[0] = 1;
}
void Interp::enterBlock(unsigned bb) {
  Frame& f = stack.back();
  f.prev = f.bb;
  f.bb = bb;
  f.ip = 0;
  f.fi->touched[bb] = 1;
  auto& b = f.fi->blocks[bb];
  if (!b.empty() && b[0].op == Instruction::PHI) {
    std::vector<std::pair<int, Val>> vals;
    const BasicBlock* prevBB = f.fi->blocks[f.prev].back().I->getParent();
    unsigned i = 0;
    for (; i < b.size() && b[i].op == Instruction::PHI; ++i) {
      auto* phi = cast<PHINode>(b[i].I);
      int k = phi->getBasicBlockIndex(prevBB);
      int o = b[i].ops[k];
      vals.push_back({b[i].dst, o >= 0 ? f.regs[o] : consts[-o]});
    }
    for (auto& v : vals) f.regs[v.first] = std::move(v.second);
    f.ip = i;
  }
}
void Interp::ret(const Val& v) {
  const CallBase* site = stack.back().site;
  int dst = stack.back().dst;
  popFrame();
  if (stack.empty() || !site) return;
  Frame& f = stack.back();
  if (dst >= 0) f.regs[dst] = v;
  if (auto* inv = dyn_cast<InvokeInst>(site)) enterBlock(f.fi->bbIndex[inv->getNormalDest()]);
  else f.ip++;
}

void Interp::execCall(PInst& pi) {
  auto* cb = cast<CallBase>(pi.I);
  Frame& f = stack.back();
  std::vector<Val> args;
  for (unsigned i = 0; i < cb->arg_size(); ++i) {
    int o = pi.ops[i];
    args.push_back(o == INT32_MIN ? Val() : o >= 0 ? f.regs[o] : consts[-o]);
  }
  const Function* F = cb->getCalledFunction();
  if (!F) {
    if (cb->isInlineAsm()) {
      std::string asmS = cast<InlineAsm>(cb->getCalledOperand())->getAsmString();
      if (asmS.empty() || asmS[0] == '#') {  // compiler barrier, marker comment
        if (pi.dst >= 0 && !args.empty()) f.regs[pi.dst] = args[0];
        if (auto* inv = dyn_cast<InvokeInst>(cb)) enterBlock(f.fi->bbIndex[inv->getNormalDest()]);
        else f.ip++;
        return;
      }
      unsupported("inline asm: " + asmS);
    }
    int o = pi.ops[pi.ops.size() - 1];
    const Value* cv = cb->getCalledOperand();
    if (auto* al = dyn_cast<GlobalAlias>(cv)) {
      F = dyn_cast<Function>(al->getAliaseeObject());
    } else {
      Val t = o >= 0 ? f.regs[o] : consts[-o];
      uint64_t a = addrOf(t, 1, "call");
      if (a < FBASE || (a - FBASE) / 16 >= funcs.size()) {
        memViolation("call through an invalid function pointer " + hex(a), nullptr);
        throw PathEnd{"violation", "bad call"};
      }
      F = funcs[(a - FBASE) / 16];
    }
  }
  if (!F) unsupported("call target");
  Val out;
  if (F->isIntrinsic()) {
    if (!intrinsic(cb, F, args, out)) unsupported("intrinsic " + F->getName().str());
  } else if (const Handler* h = handlerFor(F)) {
    out = (*h)(*this, cb, args);
  } else if (F->isDeclaration()) {
    unsupported("external function " + demangle(F->getName().str()));
  } else {
    // byval aggregates are copied
    for (unsigned i = 0; i < cb->arg_size(); ++i)
      if (cb->isByValArgument(i)) {
        uint64_t sz = DL.getTypeAllocSize(cb->getParamByValType(i));
        uint64_t a = alloc(sz, 0, "byval");
        copyBytes(a, addrOf(args[i], sz, "byval"), sz);
        args[i] = Val::conc(a);
      }
    callFunction(F, args, cb, pi.dst);
    return;
  }
  Frame& f2 = stack.back();
  if (pi.dst >= 0) f2.regs[pi.dst] = out;
  if (auto* inv = dyn_cast<InvokeInst>(cb)) enterBlock(f2.fi->bbIndex[inv->getNormalDest()]);
  else f2.ip++;
}

bool Interp::intrinsic(const CallBase* cb, const Function* F, std::vector<Val>& a, Val& out) {
  Type* t = cb->getType();
  Type* t0 = cb->arg_size() ? cb->getArgOperand(0)->getType() : nullptr;
  LLVMContext& C = M.getContext();
  auto vec = [&](std::function<Val(size_t)> fn) {
    out = undefVal(t);
    for (size_t i = 0; i < out.agg->size(); ++i) (*out.agg)[i] = fn(i);
    return true;
  };
  auto fop1 = [&](std::function<Val(const Val&, Type*)> fn) {
    if (t->isVectorTy()) return vec([&](size_t i) { return fn((*a[0].agg)[i], cast<VectorType>(t)->getElementType()); });
    out = fn(a[0], t);
    return true;
  };
  switch (F->getIntrinsicID()) {
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_value: case Intrinsic::dbg_declare:
    case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing:
    case Intrinsic::invariant_end: case Intrinsic::prefetch: case Intrinsic::stackrestore: case Intrinsic::var_annotation:
    case Intrinsic::sideeffect: case Intrinsic::dbg_label: case Intrinsic::dbg_assign:
      return true;
    case Intrinsic::invariant_start: case Intrinsic::stacksave: out = Val::conc(0); return true;
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
      uint64_t n = a[2].isC() ? (uint64_t)a[2].c : concretize(toE(a[2], cb->getArgOperand(2)->getType()));
      copyBytes(addrOf(a[0], n, "write"), addrOf(a[1], n, "read"), n);
      return true;
    }
    case Intrinsic::memset: {
      uint64_t n = a[2].isC() ? (uint64_t)a[2].c : concretize(toE(a[2], cb->getArgOperand(2)->getType()));
      uint64_t p = addrOf(a[0], n, "write");
      Type* i8 = Type::getInt8Ty(C);
      if (n) {
        uint64_t off;
        access(p, n, true, off);
      }
      for (uint64_t i = 0; i < n; ++i) store(p + i, a[1], i8);
      return true;
    }
    case Intrinsic::expect: out = a[0]; return true;
    case Intrinsic::threadlocal_address: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group:
    case Intrinsic::ptr_annotation: case Intrinsic::annotation: out = a[0]; return true;
    case Intrinsic::objectsize: out = Val::conc((a[1].c & 1) ? 0 : maskw(width(t))); return true;
    case Intrinsic::is_constant: out = Val::conc(0); return true;
    case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: {
      static const char* const names[] = {"add-overflow","builtin-unreachable","cfi-check-fail","divrem-overflow","dynamic-type-cache-miss","float-cast-overflow","function-type-mismatch","implicit-conversion","invalid-builtin","invalid-objc-cast","load-invalid-value","missing-return","mul-overflow","negate-overflow","nullability-arg","nullability-return","nonnull-arg","nonnull-return","out-of-bounds","pointer-overflow","shift-out-of-bounds","sub-overflow","type-mismatch","alignment-assumption","vla-bound"};
      std::string w = "trap";
      if (F->getIntrinsicID() == Intrinsic::ubsantrap && a[0].c < sizeof(names) / sizeof(*names)) w = std::string("undefined behaviour: ") + names[(size_t)a[0].c];
      memViolation(w, nullptr);
      throw PathEnd{"violation", w};
    }
    case Intrinsic::eh_typeid_for: out = Val::conc(typeId(typeNameOf(cb->getArgOperand(0)))); return true;
    case Intrinsic::fabs: return fop1([&](const Val& v, Type* ty) { return fabsV(v, ty); });
    case Intrinsic::sqrt: return fop1([&](const Val& v, Type* ty) { return fsqrt(v, ty); });
    case Intrinsic::floor: return fop1([&](const Val& v, Type* ty) { return fround(v, 0, ty); });
    case Intrinsic::ceil: return fop1([&](const Val& v, Type* ty) { return fround(v, 1, ty); });
    case Intrinsic::trunc: return fop1([&](const Val& v, Type* ty) { return fround(v, 2, ty); });
    case Intrinsic::round: return fop1([&](const Val& v, Type* ty) { return fround(v, 3, ty); });
    case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: return fop1([&](const Val& v, Type* ty) { return fround(v, 4, ty); });
    case Intrinsic::sin: return fop1([&](const Val& v, Type* ty) { return fuf("sin", {v}, ty); });
    case Intrinsic::cos: return fop1([&](const Val& v, Type* ty) { return fuf("cos", {v}, ty); });
    case Intrinsic::exp: return fop1([&](const Val& v, Type* ty) { return fuf("exp", {v}, ty); });
    case Intrinsic::log: return fop1([&](const Val& v, Type* ty) { return fuf("log", {v}, ty); });
    case Intrinsic::log2: return fop1([&](const Val& v, Type* ty) { return fuf("log2", {v}, ty); });
    case Intrinsic::log10: return fop1([&](const Val& v, Type* ty) { return fuf("log10", {v}, ty); });
    case Intrinsic::exp2: return fop1([&](const Val& v, Type* ty) { return fuf("pow", {ofD(2, ty), v}, ty); });
    case Intrinsic::pow: out = fuf("pow", {a[0], a[1]}, t); return true;
    case Intrinsic::powi: {
      if (!a[1].isC()) return false;
      out = fuf("pow", {a[0], ofD((double)(int64_t)sextc(a[1].c, 32), t)}, t);
      return true;
    }
    case Intrinsic::ldexp: {
      if (!a[1].isC()) return false;
      out = fbin(Instruction::FMul, a[0], ofD(std::ldexp(1.0, (int)sextc(a[1].c, 32)), t), t);
      return true;
    }
    case Intrinsic::fmuladd: case Intrinsic::fma:
      if (t->isVectorTy()) return false;
      out = fbin(Instruction::FAdd, fbin(Instruction::FMul, a[0], a[1], t), a[2], t);
      return true;
    case Intrinsic::copysign: {
      Val m = fabsV(a[0], t);
      Val s = use(a[1], t);
      if (s.isC()) { out = std::signbit(dOf(s, t)) ? fneg(m, t) : m; return true; }
      if (real) { out = branch(rCmp(Op::RLt, s.e, mkRealc(0))) ? fneg(m, t) : m; return true; }
      E sb = mkEq(mkBin(Op::BLShr, bitsOfE(s.e), mkBV(s.e->s.w - 1, s.e->s.w)), mkBV(1, s.e->s.w));
      out = fromE(mkIte(sb, toE(fneg(m, t), t), toE(m, t)));
      return true;
    }
    case Intrinsic::minnum: case Intrinsic::maxnum: case Intrinsic::minimum: case Intrinsic::maximum: {
      bool mx = F->getIntrinsicID() == Intrinsic::maxnum || F->getIntrinsicID() == Intrinsic::maximum;
      Val x = use(a[0], t), y = use(a[1], t);
      Val lt = fcmp(CmpInst::FCMP_OLT, x, y, t);
      if (x.isC() && std::isnan(dOf(x, t))) { out = y; return true; }
      if (y.isC() && std::isnan(dOf(y, t))) { out = x; return true; }
      out = selectV(lt, mx ? y : x, mx ? x : y, t);
      if (!real) {
        Val nx = fcmp(CmpInst::FCMP_UNO, x, x, t), ny = fcmp(CmpInst::FCMP_UNO, y, y, t);
        out = selectV(nx, y, selectV(ny, x, out, t), t);
      }
      return true;
    }
    case Intrinsic::is_fpclass: {
      unsigned mask = (unsigned)a[1].c;
      Val x = use(a[0], t0);
      if (x.isC()) {
        double d = dOf(x, t0);
        unsigned m = std::isnan(d) ? 3 : std::isinf(d) ? (d < 0 ? 4 : 512) : d == 0 ? (std::signbit(d) ? 32 : 64) : (d < 0 ? 8 | 16 : 256 | 128);
        if (d != 0 && std::isfinite(d)) {
          bool sub = std::fpclassify(d) == FP_SUBNORMAL;
          m = d < 0 ? (sub ? 16 : 8) : (sub ? 128 : 256);
        }
        out = Val::conc((m & mask) != 0);
        return true;
      }
      if (real) {
        unsigned fin = 8 | 16 | 32 | 64 | 128 | 256;
        if ((mask & fin) == fin) out = Val::conc(1);
        else if (!(mask & fin)) out = Val::conc(0);
        else {
          // every nonzero real counts as normal
          E v = realE(x, t0), z = mkRealc(0), r = mkBool(false);
          if (mask & 8) r = mkOr(r, rCmp(Op::RLt, v, z));
          if (mask & 64) r = mkOr(r, rCmp(Op::REq, v, z));
          if (mask & 256) r = mkOr(r, rCmp(Op::RLt, z, v));
          out = fromE(r);
        }
        return true;
      }
      E r = mkBool(false);
      E z = mkFPc(0, x.e->s.w);
      E isn = mkF(Op::FIsNaN, SBool, {x.e}), isi = mkF(Op::FIsInf, SBool, {x.e}), neg = mkF(Op::FLt, SBool, {x.e, z});
      if ((mask & 3) == 3) r = mkOr(r, isn);
      else if (mask & 3) return false;
      if (mask & 4) r = mkOr(r, mkAnd(isi, neg));
      if (mask & 512) r = mkOr(r, mkAnd(isi, mkNot(neg)));
      unsigned fin = mask & (8 | 16 | 32 | 64 | 128 | 256);
      if (fin == (8 | 16 | 32 | 64 | 128 | 256)) r = mkOr(r, mkAnd(mkNot(isn), mkNot(isi)));
      else if (fin) return false;
      out = fromE(r);
      return true;
    }
    case Intrinsic::umax: case Intrinsic::umin: case Intrinsic::smax: case Intrinsic::smin: {
      unsigned p = F->getIntrinsicID() == Intrinsic::umax ? CmpInst::ICMP_UGT : F->getIntrinsicID() == Intrinsic::umin ? CmpInst::ICMP_ULT : F->getIntrinsicID() == Intrinsic::smax ? CmpInst::ICMP_SGT : CmpInst::ICMP_SLT;
      if (t->isVectorTy()) return false;
      Val x = use(a[0], t), y = use(a[1], t);
      out = selectV(icmp(p, x, y, t), x, y, t);
      return true;
    }
    case Intrinsic::abs: {
      Val x = use(a[0], t);
      out = selectV(icmp(CmpInst::ICMP_SLT, x, Val::conc(0), t), ibin(Instruction::Sub, Val::conc(0), x, t), x, t);
      return true;
    }
    case Intrinsic::uadd_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::usub_with_overflow:
    case Intrinsic::ssub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: {
      auto id = F->getIntrinsicID();
      bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
      Op o = (id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow) ? Op::BAdd : (id == Intrinsic::usub_with_overflow || id == Intrinsic::ssub_with_overflow) ? Op::BSub : Op::BMul;
      unsigned w = t0->getIntegerBitWidth();
      unsigned W = o == Op::BMul ? 2 * w : w + 1;
      if (W > 128) W = 128;
      // integers known as the numbers they stand for
      if (real && sg && w >= 8 && !(a[0].isC() && a[1].isC())) {
        Val va = use(a[0], t0), vb = use(a[1], t0);
        E rx = realOfInt(va, w), ry = rx ? realOfInt(vb, w) : nullptr;
        if (ry && (o != Op::BMul || va.isC() || vb.isC())) {
          E r = o == Op::BAdd ? rAdd(rx, ry) : o == Op::BSub ? rAdd(rx, rNeg(ry)) : rMul(rx, ry);
          mpq_class h = mpq_class(mpz_class(1) << (w - 1));
          bool in = branch(mkAnd(rCmp(Op::RLe, mkRealc(-h), r), rCmp(Op::RLt, r, mkRealc(h))));
          out = undefVal(t);
          if (in) (*out.agg)[0] = isC(r) && r->q.get_den() == 1 && r->q.get_num().fits_slong_p() ? Val::conc((u128)(i128)r->q.get_num().get_si() & maskw(w)) : Val::sym(intOfReal(r, w));
          (*out.agg)[1] = Val::conc(!in);
          return true;
        }
      }
      E x = toE(a[0], t0), y = toE(a[1], t0);
      E X = sg ? mkSExt(x, W) : mkZExt(x, W), Y = sg ? mkSExt(y, W) : mkZExt(y, W);
      E full = mkBin(o, X, Y), narrow = mkBin(o, x, y);
      E back = sg ? mkSExt(narrow, W) : mkZExt(narrow, W);
      out = undefVal(t);
      (*out.agg)[0] = fromE(narrow);
      (*out.agg)[1] = fromE(mkNot(mkEq(full, back)));
      return true;
    }
    case Intrinsic::uadd_sat: case Intrinsic::usub_sat: {
      unsigned w = t->getIntegerBitWidth();
      Val x = use(a[0], t), y = use(a[1], t);
      if (F->getIntrinsicID() == Intrinsic::usub_sat) out = selectV(icmp(CmpInst::ICMP_ULT, x, y, t), Val::conc(0), ibin(Instruction::Sub, x, y, t), t);
      else {
        Val s = ibin(Instruction::Add, x, y, t);
        out = selectV(icmp(CmpInst::ICMP_ULT, s, x, t), Val::conc(maskw(w)), s, t);
      }
      return true;
    }
    case Intrinsic::ctpop: case Intrinsic::ctlz: case Intrinsic::cttz: case Intrinsic::bswap: case Intrinsic::bitreverse: {
      unsigned w = width(t);
      Val x = use(a[0], t);
      u128 v = x.isC() ? x.c : (u128)concretize(x.e);
      u128 r = 0;
      switch (F->getIntrinsicID()) {
        case Intrinsic::ctpop: for (unsigned i = 0; i < w; ++i) r += (v >> i) & 1; break;
        case Intrinsic::ctlz: while (r < w && !((v >> (w - 1 - (unsigned)r)) & 1)) ++r; break;
        case Intrinsic::cttz: while (r < w && !((v >> (unsigned)r) & 1)) ++r; break;
        case Intrinsic::bswap: for (unsigned i = 0; i < w / 8; ++i) r |= ((v >> (8 * i)) & 255) << (w - 8 - 8 * i); break;
        default: for (unsigned i = 0; i < w; ++i) r |= ((v >> i) & 1) << (w - 1 - i);
      }
      out = Val::conc(r);
      return true;
    }
    case Intrinsic::fshl: case Intrinsic::fshr: {
      unsigned w = width(t);
      if (!a[2].isC()) return false;
      unsigned s = (unsigned)(a[2].c % w);
      E x = toE(a[0], t), y = toE(a[1], t);
      E cc = mkConcat(x, y);
      out = fromE(F->getIntrinsicID() == Intrinsic::fshl ? mkExtract(mkBin(Op::BShl, cc, mkBV(s, 2 * w)), w, w) : mkExtract(mkBin(Op::BLShr, cc, mkBV(s, 2 * w)), 0, w));
      return true;
    }
    case Intrinsic::vector_reduce_fadd: case Intrinsic::vector_reduce_fmul: {
      Val acc = a[0];
      for (auto& x : *a[1].agg) acc = fbin(F->getIntrinsicID() == Intrinsic::vector_reduce_fadd ? Instruction::FAdd : Instruction::FMul, acc, x, t);
      out = acc;
      return true;
    }
    default: return false;
  }
}

void Interp::step() {
  Frame* f = &stack.back();
  PInst& pi = f->fi->blocks[f->bb][f->ip];
  if (++R.instrs > budget) throw PathEnd{"budget", "instruction budget exhausted in " + demangle(f->fi->F->getName().str()).substr(0, 120)};
  auto op = [&](int i) -> const Val& {
    int o = pi.ops[i];
    return o >= 0 ? f->regs[o] : consts[-o];
  };
  auto opT = [&](int i) { return pi.I->getOperand(i)->getType(); };
  auto set = [&](Val v) {
    // decisions never change the frame stack, but may reallocate nothing: safe
    stack.back().regs[pi.dst] = std::move(v);
    stack.back().ip++;
  };
  auto vmap2 = [&](std::function<Val(const Val&, const Val&, Type*)> fn) {
    Type* t = opT(0);
    if (auto* vt = dyn_cast<FixedVectorType>(t)) {
      Val r = undefVal(pi.I->getType());
      for (unsigned i = 0; i < vt->getNumElements(); ++i) (*r.agg)[i] = fn((*op(0).agg)[i], (*op(1).agg)[i], vt->getElementType());
      return r;
    }
    return fn(op(0), op(1), t);
  };
  switch (pi.op) {
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv:
    case Instruction::URem: case Instruction::SRem: case Instruction::And: case Instruction::Or: case Instruction::Xor:
    case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
      set(vmap2([&](const Val& a, const Val& b, Type* t) { return ibin(pi.op, a, b, t); }));
      return;
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem:
      set(vmap2([&](const Val& a, const Val& b, Type* t) { return fbin(pi.op, a, b, t); }));
      return;
    case Instruction::FNeg:
      if (auto* vt = dyn_cast<FixedVectorType>(opT(0))) {
        Val r = undefVal(pi.I->getType());
        for (unsigned i = 0; i < vt->getNumElements(); ++i) (*r.agg)[i] = fneg((*op(0).agg)[i], vt->getElementType());
        set(r);
      } else
        set(fneg(op(0), opT(0)));
      return;
    case Instruction::ICmp: {
      unsigned p = cast<CmpInst>(pi.I)->getPredicate();
      set(vmap2([&](const Val& a, const Val& b, Type* t) { return icmp(p, a, b, t); }));
      return;
    }
    case Instruction::FCmp: {
      unsigned p = cast<CmpInst>(pi.I)->getPredicate();
      set(vmap2([&](const Val& a, const Val& b, Type* t) { return fcmp(p, a, b, t); }));
      return;
    }
    case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::FPTrunc: case Instruction::FPExt:
    case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::SIToFP: case Instruction::UIToFP:
    case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast: {
      Type* ft = opT(0);
      Type* tt = pi.I->getType();
      if (ft->isVectorTy() && tt->isVectorTy() && cast<FixedVectorType>(ft)->getNumElements() == cast<FixedVectorType>(tt)->getNumElements()) {
        Val r = undefVal(tt);
        for (unsigned i = 0; i < r.agg->size(); ++i) (*r.agg)[i] = castOp(pi.op, (*op(0).agg)[i], cast<VectorType>(ft)->getElementType(), cast<VectorType>(tt)->getElementType());
        set(r);
      } else
        set(castOp(pi.op, op(0), ft, tt));
      return;
    }
    case Instruction::Select: {
      set(selectV(op(0), op(1), op(2), pi.I->getType()));
      return;
    }
    case Instruction::Freeze: {
      Val v = op(0);
      if (v.k == VK::Undef) v = Val::conc(0);
      set(v);
      return;
    }
    case Instruction::Alloca: {
      auto* ai = cast<AllocaInst>(pi.I);
      uint64_t n = 1;
      if (ai->isArrayAllocation()) n = op(0).isC() ? (uint64_t)op(0).c : concretize(toE(op(0), opT(0)));
      uint64_t a = alloc(DL.getTypeAllocSize(ai->getAllocatedType()) * n, 0, "stack variable " + ai->getName().str() + " of " + demangle(f->fi->F->getName().str()).substr(0, 60));
      stack.back().allocas.push_back(a >> 32);
      set(Val::conc(a));
      return;
    }
    case Instruction::Load: {
      Type* t = pi.I->getType();
      uint64_t a = addrOf(op(0), DL.getTypeStoreSize(t), "read");
      set(load(a, t));
      return;
    }
    case Instruction::Store: {
      Type* t = opT(0);
      Val v = op(0);
      uint64_t a = addrOf(op(1), DL.getTypeStoreSize(t), "write");
      store(a, v, t);
      stack.back().ip++;
      return;
    }
    case Instruction::GetElementPtr: {
      std::vector<Val> ops;
      for (unsigned i = 0; i < pi.ops.size(); ++i) ops.push_back(op(i));
      set(gep(cast<GEPOperator>(pi.I), ops));
      return;
    }
    case Instruction::AtomicRMW: {
      auto* rmw = cast<AtomicRMWInst>(pi.I);
      Type* t = rmw->getType();
      uint64_t a = addrOf(op(0), DL.getTypeStoreSize(t), "write");
      Val old = load(a, t), nv;
      switch (rmw->getOperation()) {
        case AtomicRMWInst::Xchg: nv = op(1); break;
        case AtomicRMWInst::Add: nv = ibin(Instruction::Add, old, op(1), t); break;
        case AtomicRMWInst::Sub: nv = ibin(Instruction::Sub, old, op(1), t); break;
        case AtomicRMWInst::And: nv = ibin(Instruction::And, old, op(1), t); break;
        case AtomicRMWInst::Or: nv = ibin(Instruction::Or, old, op(1), t); break;
        default: unsupported("atomicrmw");
      }
      store(a, nv, t);
      set(old);
      return;
    }
    case Instruction::AtomicCmpXchg: {
      Type* t = opT(1);
      uint64_t a = addrOf(op(0), DL.getTypeStoreSize(t), "write");
      Val old = load(a, t);
      Val eq = icmp(CmpInst::ICMP_EQ, old, op(1), t);
      bool e = eq.isC() ? eq.c != 0 : branch(eq.e);
      if (e) store(a, op(2), t);
      Val r = undefVal(pi.I->getType());
      (*r.agg)[0] = old;
      (*r.agg)[1] = Val::conc(e);
      set(r);
      return;
    }
    case Instruction::Fence: f->ip++; return;
    case Instruction::Br: {
      auto* br = cast<BranchInst>(pi.I);
      if (br->isUnconditional()) {
        enterBlock(f->fi->bbIndex[br->getSuccessor(0)]);
        return;
      }
      Val c = use(op(0), opT(0));
      bool b = c.isC() ? (c.c & 1) : branch(c.e);
      Frame& g = stack.back();
      enterBlock(g.fi->bbIndex[br->getSuccessor(b ? 0 : 1)]);
      return;
    }
    case Instruction::Switch: {
      auto* sw = cast<SwitchInst>(pi.I);
      Val c = use(op(0), opT(0));
      unsigned w = opT(0)->getIntegerBitWidth();
      const BasicBlock* dest = sw->getDefaultDest();
      for (auto& cs : sw->cases()) {
        u128 k = cs.getCaseValue()->getZExtValue();
        bool hit = c.isC() ? c.c == k : branch(w == 1 ? (k ? c.e : mkNot(c.e)) : mkEq(c.e, mkBV(k, w)));
        if (hit) {
          dest = cs.getCaseSuccessor();
          break;
        }
      }
      Frame& g = stack.back();
      enterBlock(g.fi->bbIndex[dest]);
      return;
    }
    case Instruction::Ret: {
      Val v;
      if (!pi.ops.empty()) v = op(0);
      ret(v);
      return;
    }
    case Instruction::Unreachable:
      memViolation("unreachable code executed", nullptr);
      throw PathEnd{"violation", "unreachable"};
    case Instruction::Call: case Instruction::Invoke: execCall(pi); return;
    case Instruction::LandingPad: {
      // set by unwind()
      f->ip++;
      return;
    }
    case Instruction::Resume: {
      Val v = op(0);
      uint64_t obj = (uint64_t)(*v.agg)[0].c;
      unwind(obj);
      return;
    }
    case Instruction::ExtractValue: {
      auto* ev = cast<ExtractValueInst>(pi.I);
      Val v = op(0);
      for (unsigned i : ev->indices()) {
        Val n = (*v.agg)[i];
        v = n;
      }
      set(v);
      return;
    }
    case Instruction::InsertValue: {
      auto* iv = cast<InsertValueInst>(pi.I);
      Val v = op(0);
      std::function<void(Val&, unsigned)> ins = [&](Val& x, unsigned d) {
        x.agg = std::make_shared<std::vector<Val>>(*x.agg);
        unsigned i = iv->getIndices()[d];
        if (d + 1 == iv->getNumIndices()) (*x.agg)[i] = op(1);
        else ins((*x.agg)[i], d + 1);
      };
      ins(v, 0);
      set(v);
      return;
    }
    case Instruction::ExtractElement: {
      Val i = op(1);
      if (!i.isC()) unsupported("symbolic vector index");
      set((*op(0).agg)[(size_t)i.c]);
      return;
    }
    case Instruction::InsertElement: {
      Val v = op(0), i = op(2);
      if (!i.isC()) unsupported("symbolic vector index");
      v.agg = std::make_shared<std::vector<Val>>(*v.agg);
      (*v.agg)[(size_t)i.c] = op(1);
      set(v);
      return;
    }
    case Instruction::ShuffleVector: {
      auto* sv = cast<ShuffleVectorInst>(pi.I);
      Val r = undefVal(pi.I->getType());
      size_t n = op(0).agg->size();
      for (size_t i = 0; i < r.agg->size(); ++i) {
        int m = sv->getMaskValue(i);
        if (m >= 0) (*r.agg)[i] = (size_t)m < n ? (*op(0).agg)[m] : (*op(1).agg)[m - n];
      }
      set(r);
      return;
    }
    default: unsupported("instruction " + instStr(pi.I));
  }
}

void Interp::runUntil(size_t depth) {
  while (stack.size() > depth) {
    try {
      step();
    } catch (Unwound&) {
    }
  }
}

// ============================================================ exceptions
int Interp::typeId(const std::string& n) {
  for (size_t i = 0; i < typeIds.size(); ++i)
    if (typeIds[i] == n) return i + 1;
  typeIds.push_back(n);
  return typeIds.size();
}
std::string Interp::typeNameOf(const Value* v) {
  v = v->stripPointerCasts();
  if (isa<ConstantPointerNull>(v)) return "";
  if (auto* g = dyn_cast<GlobalValue>(v)) return g->getName().str();
  unsupported("type info operand");
}
static const std::map<std::string, std::string>& stdBases() {
  static const std::map<std::string, std::string> m = {
      {"_ZTISt11logic_error", "_ZTISt9exception"},      {"_ZTISt13runtime_error", "_ZTISt9exception"},
      {"_ZTISt12length_error", "_ZTISt11logic_error"},  {"_ZTISt12out_of_range", "_ZTISt11logic_error"},
      {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"},
      {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"},
      {"_ZTISt15underflow_error", "_ZTISt13runtime_error"}, {"_ZTISt9bad_alloc", "_ZTISt9exception"},
      {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"}, {"_ZTISt8bad_cast", "_ZTISt9exception"},
      {"_ZTISt17bad_function_call", "_ZTISt9exception"}, {"_ZTISt12bad_weak_ptr", "_ZTISt9exception"},
      {"_ZTISt12system_error", "_ZTISt13runtime_error"}};
  return m;
}
bool Interp::typeMatches(const std::string& thrown, const std::string& caught, int64_t& off) {
  if (caught.empty() || thrown == caught) return true;
  auto sb = stdBases().find(thrown);
  if (sb != stdBases().end()) return typeMatches(sb->second, caught, off);
  auto* g = M.getNamedGlobal(thrown);
  if (!g || !g->hasInitializer()) return false;
  auto* cs = dyn_cast<ConstantStruct>(g->getInitializer());
  if (!cs || cs->getNumOperands() < 3) return false;
  std::string vt;
  {
    const Value* b = cs->getOperand(0)->stripInBoundsConstantOffsets();
    if (auto* ce = dyn_cast<ConstantExpr>(cs->getOperand(0))) b = ce->getOperand(0);
    vt = b->getName().str();
  }
  if (vt.find("__si_class_type_info") != std::string::npos) {
    return typeMatches(typeNameOf(cs->getOperand(2)), caught, off);
  }
  if (vt.find("__vmi_class_type_info") != std::string::npos) {
    for (unsigned i = 4; i + 1 < cs->getNumOperands(); i += 2) {
      int64_t flags = cast<ConstantInt>(cs->getOperand(i + 1))->getSExtValue();
      int64_t o = off + (flags >> 8);
      if (flags & 1) continue;  // virtual bases: not supported
      if (typeMatches(typeNameOf(cs->getOperand(i)), caught, o)) {
        off = o;
        return true;
      }
    }
  }
  return false;
}
void Interp::unwind(uint64_t obj) {
  ExcInfo& x = excs[obj];
  while (!stack.empty()) {
    Frame& f = stack.back();
    const Instruction* I = f.fi->blocks[f.bb][f.ip].I;
    if (auto* inv = dyn_cast<InvokeInst>(I)) {
      const LandingPadInst* lp = inv->getLandingPadInst();
      int sel = 0;
      bool enter = lp->isCleanup();
      int64_t off = 0;
      for (unsigned i = 0; i < lp->getNumClauses(); ++i) {
        if (lp->isFilter(i)) continue;
        std::string cn = typeNameOf(lp->getClause(i));
        off = 0;
        if (typeMatches(x.type, cn, off)) {
          sel = cn.empty() ? typeId("*any*") : typeId(cn);
          enter = true;
          x.handlers = (int)off;
          break;
        }
      }
      if (enter) {
        enterBlock(f.fi->bbIndex[inv->getUnwindDest()]);
        Frame& g = stack.back();
        Val v;
        v.k = VK::Agg;
        v.agg = std::make_shared<std::vector<Val>>();
        v.agg->push_back(Val::conc(obj));
        v.agg->push_back(Val::conc((u128)sel));
        g.regs[g.fi->slot[lp]] = v;
        throw Unwound{};
      }
    }
    if (f.fi->F->doesNotThrow() && stack.size() > 1) {
      // leaving a noexcept function
      violation("no-terminate", "terminate", "exception " + demangle(x.type) + " leaves noexcept " + demangle(f.fi->F->getName().str()), nullptr);
      throw PathEnd{"violation", "terminate"};
    }
    popFrame();
  }
  violation("no-uncaught-exception", "uncaught", "uncaught exception of type " + demangle(x.type), nullptr);
  throw PathEnd{"violation", "uncaught exception"};
}
void Interp::throwStd(const std::string& cls, const std::string& what) {
  uint64_t o = alloc(64, 5, "exception " + cls, true);
  streams[o] = what;
  ExcInfo x;
  x.obj = o;
  x.type = cls;
  excs[o] = x;
  unwind(o);
}

std::set<std::string> Interp::functionsEncoded(const std::string& prefix) {
  std::set<std::string> out;
  for (auto& p : fns) {
    FnInfo* fi = p.second.get();
    if (!fi) continue;
    for (size_t b = 0; b < fi->blocks.size(); ++b) {
      if (!fi->touched[b]) continue;
      for (auto& pi : fi->blocks[b]) {
        const DILocation* l = pi.I->getDebugLoc().get();
        while (l) {
          if (auto* sp = l->getScope()->getSubprogram()) {
            std::string dir = sp->getDirectory().str(), fn = sp->getFilename().str();
            std::string full = !fn.empty() && fn[0] == '/' ? fn : dir + "/" + fn;
            if (full.compare(0, prefix.size(), prefix) == 0) {
              std::string nm = sp->getLinkageName().empty() ? sp->getName().str() : demangle(sp->getLinkageName().str());
              out.insert(full.substr(prefix.size()) + ":" + std::to_string(sp->getLine()) + " " + nm);
            }
          }
          l = l->getInlinedAt();
        }
      }
    }
  }
  return out;
}

// ============================================================ a path
PathResult Interp::runPath(const std::string& entry, const Task& t) {
  P.reset();
  S.newPath();
  objs.clear();
  objs.resize(globals.size());
  symvals.clear();
  symvals.emplace_back();
  stack.clear();
  pc.clear();
  known.clear();
  signs.clear();
  dec = t.dec;
  prefixLen = dec.size();
  decPos = 0;
  decSite = 0;
  env = Env();
  taskEnv = t.env;
  hasEnv = t.hasEnv || t.dec.empty();
  R = PathResult();
  nameCount.clear();
  realOf.clear();
  lazyInt = false;
  inputs.clear();
  obs.clear();
  undefCount = 0;
  streams.clear();
  caught.clear();
  excs.clear();
  budget = lim.instr;
  // constants hold no expressions, but long-double globals are re-created
  const Function* F = M.getFunction(entry);
  if (!F || F->isDeclaration()) throw std::runtime_error("no entry " + entry);
  try {
    if (auto* gc = M.getNamedGlobal("llvm.global_ctors")) {
      if (auto* arr = dyn_cast<ConstantArray>(gc->getInitializer())) {
        std::vector<std::pair<uint64_t, const Function*>> cs;
        for (auto& o : arr->operands()) {
          auto* st = cast<ConstantStruct>(o);
          if (auto* fn = dyn_cast<Function>(st->getOperand(1)->stripPointerCasts())) cs.push_back({cast<ConstantInt>(st->getOperand(0))->getZExtValue(), fn});
        }
        std::stable_sort(cs.begin(), cs.end(), [](auto& a, auto& b) { return a.first < b.first; });
        for (auto& c : cs) {
          std::vector<Val> no;
          if (c.second->isDeclaration()) continue;
          callFunction(c.second, no, nullptr, -1);
          runUntil(0);
        }
      }
    }
    std::vector<Val> no;
    callFunction(F, no, nullptr, -1);
    runUntil(0);
    R.kind = "done";
  } catch (PathEnd& e) {
    R.kind = e.kind;
    R.msg = e.msg;
    if (e.kind == "budget") {
      violation("termination", "budget", e.msg, nullptr);
    }
  } catch (std::exception& e) {
    R.kind = "unsupported";
    R.msg = e.what();
  }
  if (R.kind == "unsupported" && !stack.empty()) {
    int n = 0;
    for (auto it = stack.rbegin(); it != stack.rend() && n < 5; ++it, ++n) R.msg += " <- " + demangle(it->fi->F->getName().str()).substr(0, 100);
  }
  if (R.kind == "done" && wantSample && hasEnv) {
    Evaluator ev(env, real ? 1e-9 : 0);
    bool ok = true;
    try {
      for (E c : pc)
        if (!ev.eval(c).c) { ok = false; break; }
      for (auto& in : env.v) {
        E v = P.all[in.first].get();
        if (v->s.k == SK::Real && !std::isfinite(in.second.d)) ok = false;
      }
      if (ok) {
        Sample s;
        s.values = valuesOf(env);
        for (auto& o : obs) {
          char b[96];
          const Val& v = o.second;
          if (v.k == VK::Conc) {
            if (o.first[0] == 'd') snprintf(b, sizeof b, "%s %.17g", o.first.c_str(), bitsToD(v.c, 64));
            else snprintf(b, sizeof b, "%s %lld", o.first.c_str(), (long long)v.c);
          } else if (v.k == VK::Sym) {
            NumVal n = ev.eval(v.e);
            if (o.first[0] == 'd') snprintf(b, sizeof b, "%s %.17g", o.first.c_str(), v.e->s.k == SK::FP ? bitsToD(n.c, v.e->s.w) : n.d);
            else snprintf(b, sizeof b, "%s %lld", o.first.c_str(), (long long)sextc(n.c, v.e->s.k == SK::Bool ? 1 : v.e->s.w));
          } else
            snprintf(b, sizeof b, "%s ?", o.first.c_str());
          s.obs.push_back(b);
        }
        R.samples.push_back(s);
      }
    } catch (std::exception&) {
    }
  }
  return std::move(R);
}
