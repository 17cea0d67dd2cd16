#pragma once
#include "expr.h"
#include "solver.h"
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

#include <llvm/ADT/DenseMap.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>

enum class VK : uint8_t { Undef, Conc, Sym, Agg };
struct Val {
  VK k = VK::Undef;
  uint32_t prov = 0;
  u128 c = 0;
  E e = nullptr;
  std::shared_ptr<std::vector<Val>> agg;
  static Val conc(u128 c) {
    Val v;
    v.k = VK::Conc;
    v.c = c;
    return v;
  }
  static Val sym(E e) {
    Val v;
    v.k = VK::Sym;
    v.e = e;
    return v;
  }
  bool isC() const { return k == VK::Conc; }
};

struct PathEnd {
  std::string kind;  // done, infeasible, violation, unsupported, budget, exit
  std::string msg;
};

struct Task {
  std::vector<uint64_t> dec;
  std::map<std::string, NumVal> env;
  bool hasEnv = false;
};

struct Obj {
  uint64_t size = 0;
  std::vector<uint8_t> data, init;
  std::vector<uint32_t> sym;  // per byte: (symval index << 4 | byte idx), 0 = none
  bool alive = true;
  bool constant = false;
  uint8_t kind = 0;  // 0 stack, 1 new, 2 new[], 3 malloc, 4 global, 5 exception
  std::string name;
};

struct PInst {
  const llvm::Instruction* I;
  unsigned op;
  int dst = -1;
  std::vector<int> ops;
};
struct FnInfo {
  const llvm::Function* F;
  std::vector<std::vector<PInst>> blocks;
  std::vector<uint8_t> touched;
  llvm::DenseMap<const llvm::BasicBlock*, unsigned> bbIndex;
  llvm::DenseMap<const llvm::Value*, int> slot;
  int nslots = 0;
};
struct Frame {
  FnInfo* fi;
  std::vector<Val> regs;
  unsigned bb = 0, ip = 0, prev = 0;
  const llvm::CallBase* site = nullptr;
  int dst = -1;
  std::vector<uint32_t> allocas;
};

struct CheckStat {
  uint64_t reached = 0, proved = 0, cex = 0, unknown = 0;
  bool witness = false;
};
struct Cex {
  std::string id, kind, detail;
  std::vector<std::pair<std::string, std::string>> values;
  bool numericallyConfirmed = false, refuted = false;
};
struct Sample {
  std::vector<std::pair<std::string, std::string>> values;
  std::vector<std::string> obs;
};

struct Limits {
  uint64_t instr = 4000000;
  unsigned queryMs = 10000;
  unsigned checkMs = 60000;
  unsigned enumLimit = 128;
};

struct PathResult {
  std::string kind, msg;
  uint64_t instrs = 0, branches = 0, forks = 0;
  std::vector<Task> fresh;
  std::map<std::string, CheckStat> checks;
  std::vector<Cex> cexs;
  std::vector<Sample> samples;
};

struct Interp {
  llvm::Module& M;
  llvm::DataLayout DL;
  bool real;
  Limits lim;
  Solver S;
  bool wantSample = false;

  Interp(llvm::Module& m, bool realMode);
  PathResult runPath(const std::string& entry, const Task& t);
  std::set<std::string> functionsEncoded(const std::string& prefix);

  // ---- state of the current path
  std::vector<std::unique_ptr<Obj>> objs;
  std::vector<Val> symvals;
  std::vector<Frame> stack;
  std::vector<E> pc;
  std::unordered_map<uint32_t, bool> known;
  std::unordered_map<uint32_t, int> signs;
  int signOf(E e);
  Val signed_(const Val& v, int sign);
  Val rless(Op op, E x, E y);
  std::vector<uint64_t> dec;
  size_t decPos = 0;
  uint64_t decSite = 0;
  bool replayHere() const;
  bool replayNext(uint64_t& d);
  void pushDec(uint64_t d);
  size_t prefixLen = 0;
  Env env;
  bool hasEnv = false;
  std::map<std::string, NumVal> taskEnv;
  PathResult R;
  std::map<std::string, int> nameCount;
  std::vector<std::pair<std::string, E>> inputs;     // named inputs, in creation order
  std::vector<std::pair<std::string, Val>> obs;      // observations
  int undefCount = 0;
  std::map<uint64_t, std::string> streams;
  uint64_t budget = 0;

  struct ExcInfo { uint64_t obj; std::string type; uint64_t dtor; int handlers = 0; };
  std::vector<ExcInfo> caught;
  std::map<uint64_t, ExcInfo> excs;

  // ---- module level
  std::unordered_map<const llvm::Function*, std::unique_ptr<FnInfo>> fns;
  std::vector<const llvm::GlobalVariable*> globals;
  llvm::DenseMap<const llvm::GlobalValue*, uint64_t> gaddr;
  std::vector<const llvm::Function*> funcs;
  std::vector<Val> consts;
  std::unordered_map<const llvm::Constant*, int> constIdx;
  typedef std::function<Val(Interp&, const llvm::CallBase*, std::vector<Val>&)> Handler;
  std::unordered_map<std::string, Handler> handlers;
  std::unordered_map<const llvm::Function*, const Handler*> hcache;

  // memory
  static const uint64_t ID0 = 16;
  uint64_t alloc(uint64_t size, uint8_t kind, const std::string& name, bool zero = false);
  Obj* objAt(uint64_t addr, uint64_t& off);
  Obj* objById(uint64_t id);
  void materializeGlobal(uint64_t id);
  void writeConst(Obj* o, uint64_t off, const llvm::Constant* c);
  Obj* access(uint64_t addr, uint64_t n, bool write, uint64_t& off);
  Val load(uint64_t addr, llvm::Type* t);
  void store(uint64_t addr, const Val& v, llvm::Type* t);
  Val loadRaw(Obj* o, uint64_t off, unsigned bytes, llvm::Type* t);
  void storeBytesConc(Obj* o, uint64_t off, u128 c, unsigned n);
  void copyBytes(uint64_t dst, uint64_t src, uint64_t n);
  std::string cstr(uint64_t addr);
  void freeObj(uint64_t addr, uint8_t kind);
  uint64_t addrOf(Val v, uint64_t n, const char* what);  // concretises pointers
  void writeStdString(uint64_t addr, const std::string& s);
  std::string readStdString(uint64_t addr);

  // values
  E toE(const Val& v, llvm::Type* t);
  Val fromE(E e);
  Val undefVal(llvm::Type* t);
  Val use(const Val& v, llvm::Type* t);
  Sort sortOf(llvm::Type* t);
  unsigned width(llvm::Type* t);

  // decisions
  bool branch(E c);
  uint64_t concretize(E bv);
  int64_t concretizeReal(E r);
  uint64_t enumerate(const std::function<E(uint64_t)>& cond, const std::function<uint64_t(const Env&)>& val, E anchor);
  void addPC(E c);
  void assume(E c);
  bool evalEnv(E c);
  E newInput(const std::string& name, Sort s);
  E intOfReal(E r, unsigned w);
  E realOfInt(const Val& v, unsigned w);
  E realOfInt(E e);
  std::unordered_map<uint32_t, E> realOf;  // integers standing for a real
  bool lazyInt = false;
  void check(E c, const std::string& id, const std::string& detail, bool closeness = false, E a = nullptr, E b = nullptr);
  void violation(const std::string& id, const std::string& kind, const std::string& detail, E extra);
  bool searchCex(Cex& x, const Env& m, int n, const std::function<bool(const Env&)>& ok);
  bool buildCex(Cex& x, E neg, const std::function<bool(Evaluator&)>& fails);
  void memViolation(const std::string& what, E cond);
  std::vector<std::pair<std::string, std::string>> valuesOf(const Env& m);

  // floating point
  Val fbin(unsigned op, const Val& a, const Val& b, llvm::Type* t);
  Val fcmp(unsigned pred, const Val& a, const Val& b, llvm::Type* t);
  Val fneg(const Val& a, llvm::Type* t);
  Val fabsV(const Val& a, llvm::Type* t);
  Val fsqrt(const Val& a, llvm::Type* t);
  Val fround(const Val& a, int mode, llvm::Type* t);
  Val fuf(const std::string& n, std::vector<Val> a, llvm::Type* t);
  bool isConcF(const Val& v);
  double dOf(const Val& v, llvm::Type* t);
  Val ofD(double d, llvm::Type* t);
  Val fcast(const Val& v, llvm::Type* from, llvm::Type* to);
  Val fptoint(const Val& v, llvm::Type* from, llvm::Type* to, bool sgn);
  Val inttofp(const Val& v, llvm::Type* from, llvm::Type* to, bool sgn);
  E realE(const Val& v, llvm::Type* t);
  Val fromReal(E e, llvm::Type* t);

  Val ibin(unsigned op, const Val& a, const Val& b, llvm::Type* t);
  Val icmp(unsigned pred, const Val& a, const Val& b, llvm::Type* t);
  Val castOp(unsigned op, const Val& v, llvm::Type* from, llvm::Type* to);
  Val selectV(const Val& c, const Val& a, const Val& b, llvm::Type* t);
  Val gep(const llvm::GEPOperator* g, const std::vector<Val>& ops);
  Val constVal(const llvm::Constant* c);

  // control
  FnInfo* info(const llvm::Function* F);
  void callFunction(const llvm::Function* F, std::vector<Val>& args, const llvm::CallBase* site, int dst);
  void step();
  void ret(const Val& v);
  void enterBlock(unsigned bb);
  void execCall(PInst& pi);
  bool intrinsic(const llvm::CallBase* cb, const llvm::Function* F, std::vector<Val>& a, Val& out);
  const Handler* handlerFor(const llvm::Function* F);
  void popFrame();
  void runUntil(size_t depth);

  // exceptions
  struct Throwing { uint64_t obj; };
  void throwObj(uint64_t obj);
  void unwind(uint64_t obj);
  void throwStd(const std::string& cls, const std::string& what);
  bool typeMatches(const std::string& thrown, const std::string& caught, int64_t& off);
  int typeId(const std::string& n);
  std::vector<std::string> typeIds;
  std::string typeNameOf(const llvm::Value* v);
  void registerHandlers();
  bool pendingUnwind = false;
  uint64_t pendingObj = 0;
};

const char* boostFn(const std::string& demangled);
bool isInterceptedName(const std::string& mangled, const std::string& demangled);
