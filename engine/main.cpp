// svsym: symbolic execution of LLVM bitcode.
//   svsym prep OUT.bc IN.bc...                 link, prune and normalise
//   svsym run  IN.bc ENTRY [options]           explore every path of ENTRY
#include "interp.h"
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstring>
#include <deque>
#include <fstream>
#include <poll.h>
#include <sstream>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

#include <llvm/Analysis/TargetLibraryInfo.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Verifier.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/FileSystem.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Transforms/IPO/GlobalDCE.h>
#include <llvm/Transforms/IPO/Internalize.h>

using namespace llvm;

static std::unique_ptr<Module> loadM(const char* f, LLVMContext& C) {
  SMDiagnostic d;
  auto m = parseIRFile(f, d, C);
  if (!m) {
    d.print("svsym", errs());
    exit(2);
  }
  return m;
}

static int prep(int argc, char** argv) {
  LLVMContext C;
  auto M = loadM(argv[3], C);
  for (int i = 4; i < argc; ++i)
    if (Linker::linkModules(*M, loadM(argv[i], C))) return 2;
  for (auto& f : *M) {
    f.removeFnAttr(Attribute::OptimizeNone);
    if (f.isDeclaration()) continue;
    std::string n = f.getName().str(), dm = demangle(n);
    if (f.hasAvailableExternallyLinkage() || isInterceptedName(n, dm) || n == "__clang_call_terminate") {
      f.deleteBody();
      f.setComdat(nullptr);
      f.setLinkage(GlobalValue::ExternalLinkage);
    }
  }
  for (auto& g : M->globals())
    if (g.hasAvailableExternallyLinkage()) {
      g.setInitializer(nullptr);
      g.setLinkage(GlobalValue::ExternalLinkage);
    }
  LoopAnalysisManager LAM;
  FunctionAnalysisManager FAM;
  CGSCCAnalysisManager CGAM;
  ModuleAnalysisManager MAM;
  PipelineTuningOptions PTO;
  PTO.LoopVectorization = false;
  PTO.SLPVectorization = false;
  PTO.LoopUnrolling = false;
  PTO.LoopInterleaving = false;
  PTO.MergeFunctions = false;
  PassBuilder PB(nullptr, PTO);
  // no library-call based folding: calls must stay visible to the interpreter
  TargetLibraryInfoImpl TLII(Triple(M->getTargetTriple()));
  TLII.disableAllFunctions();
  FAM.registerPass([&] { return TargetLibraryAnalysis(TLII); });
  PB.registerModuleAnalyses(MAM);
  PB.registerCGSCCAnalyses(CGAM);
  PB.registerFunctionAnalyses(FAM);
  PB.registerLoopAnalyses(LAM);
  PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  ModulePassManager MPM;
  MPM.addPass(InternalizePass([](const GlobalValue& g) { return g.getName().starts_with("sv_entry"); }));
  MPM.addPass(GlobalDCEPass());
  if (!getenv("SV_O0")) MPM.addPass(PB.buildPerModuleDefaultPipeline(OptimizationLevel::O1));
  MPM.addPass(GlobalDCEPass());
  MPM.run(*M, MAM);
  if (verifyModule(*M, &errs())) return 2;
  std::error_code ec;
  raw_fd_ostream o(argv[2], ec);
  WriteBitcodeToFile(*M, o);
  return 0;
}

// ------------------------------------------------------------ serialisation
struct Buf {
  std::string s;
  size_t p = 0;
  void u(uint64_t x) { s.append((char*)&x, 8); }
  void str(const std::string& x) { u(x.size()); s += x; }
  uint64_t u() { uint64_t x; memcpy(&x, &s[p], 8); p += 8; return x; }
  std::string str() { uint64_t n = u(); std::string r = s.substr(p, n); p += n; return r; }
};
static void put(Buf& b, const Task& t) {
  b.u(t.dec.size());
  for (auto d : t.dec) b.u(d);
  b.u(t.env.size());
  for (auto& e : t.env) {
    b.str(e.first);
    b.u((uint64_t)e.second.c);
    b.u((uint64_t)(e.second.c >> 64));
    uint64_t d;
    memcpy(&d, &e.second.d, 8);
    b.u(d);
  }
  b.u(t.hasEnv);
}
static void get(Buf& b, Task& t) {
  t.dec.resize(b.u());
  for (auto& d : t.dec) d = b.u();
  uint64_t n = b.u();
  while (n--) {
    std::string k = b.str();
    NumVal v;
    v.c = b.u();
    v.c |= (u128)b.u() << 64;
    uint64_t d = b.u();
    memcpy(&v.d, &d, 8);
    t.env[k] = v;
  }
  t.hasEnv = b.u();
}
typedef std::vector<std::pair<std::string, std::string>> KV;
static void put(Buf& b, const KV& v) {
  b.u(v.size());
  for (auto& p : v) b.str(p.first), b.str(p.second);
}
static void get(Buf& b, KV& v) {
  v.resize(b.u());
  for (auto& p : v) p.first = b.str(), p.second = b.str();
}
static void put(Buf& b, const PathResult& r, const SolverStats& st, const std::set<std::string>* fns) {
  b.str(r.kind); b.str(r.msg); b.u(r.instrs); b.u(r.branches); b.u(r.forks);
  b.u(r.fresh.size());
  for (auto& t : r.fresh) put(b, t);
  b.u(r.checks.size());
  for (auto& c : r.checks) { b.str(c.first); b.u(c.second.reached); b.u(c.second.proved); b.u(c.second.cex); b.u(c.second.unknown); b.u(c.second.witness); }
  b.u(r.cexs.size());
  for (auto& c : r.cexs) { b.str(c.id); b.str(c.kind); b.str(c.detail); put(b, c.values); b.u(c.numericallyConfirmed); }
  b.u(r.samples.size());
  for (auto& s : r.samples) {
    put(b, s.values);
    b.u(s.obs.size());
    for (auto& o : s.obs) b.str(o);
  }
  b.u(st.queries); b.u(st.sat); b.u(st.unsat); b.u(st.unknown); b.u(st.cached);
  b.u((uint64_t)(st.seconds * 1e6)); b.u((uint64_t)(st.maxSeconds * 1e6));
  b.u(fns ? fns->size() : 0);
  if (fns) for (auto& f : *fns) b.str(f);
}
static void get(Buf& b, PathResult& r, SolverStats& st, std::set<std::string>& fns) {
  r.kind = b.str(); r.msg = b.str(); r.instrs = b.u(); r.branches = b.u(); r.forks = b.u();
  r.fresh.resize(b.u());
  for (auto& t : r.fresh) get(b, t);
  uint64_t n = b.u();
  while (n--) { std::string k = b.str(); CheckStat& c = r.checks[k]; c.reached = b.u(); c.proved = b.u(); c.cex = b.u(); c.unknown = b.u(); c.witness = b.u(); }
  r.cexs.resize(b.u());
  for (auto& c : r.cexs) { c.id = b.str(); c.kind = b.str(); c.detail = b.str(); get(b, c.values); c.numericallyConfirmed = b.u(); }
  r.samples.resize(b.u());
  for (auto& s : r.samples) {
    get(b, s.values);
    s.obs.resize(b.u());
    for (auto& o : s.obs) o = b.str();
  }
  st.queries = b.u(); st.sat = b.u(); st.unsat = b.u(); st.unknown = b.u(); st.cached = b.u();
  st.seconds = b.u() / 1e6; st.maxSeconds = b.u() / 1e6;
  n = b.u();
  while (n--) fns.insert(b.str());
}
static bool wr(int fd, const void* p, size_t n) {
  const char* c = (const char*)p;
  while (n) {
    ssize_t k = write(fd, c, n);
    if (k < 0 && errno == EINTR) continue;
    if (k <= 0) return false;
    c += k; n -= k;
  }
  return true;
}
static bool rd(int fd, void* p, size_t n) {
  char* c = (char*)p;
  while (n) {
    ssize_t k = read(fd, c, n);
    if (k < 0 && errno == EINTR) continue;
    if (k <= 0) return false;
    c += k; n -= k;
  }
  return true;
}
static bool sendB(int fd, const Buf& b) { uint64_t n = b.s.size(); return wr(fd, &n, 8) && wr(fd, b.s.data(), n); }
static bool recvB(int fd, Buf& b) {
  uint64_t n;
  if (!rd(fd, &n, 8)) return false;
  b.s.resize(n); b.p = 0;
  return rd(fd, &b.s[0], n);
}
static std::string js(const std::string& s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}
static double now() {
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

static int run(int argc, char** argv) {
  std::string entry = argv[3], out = "/dev/stdout", prefix = "/repo/";
  bool real = false;
  unsigned workers = 8, samples = 20;
  double timeS = 600;
  uint64_t maxPaths = 1000000;
  size_t maxCex = 8;
  Limits lim;
  for (int i = 4; i + 1 < argc + 1; ++i) {
    std::string a = argv[i];
    auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--real") real = true;
    else if (a == "--out") out = nx();
    else if (a == "--prefix") prefix = nx();
    else if (a == "-j") workers = std::stoul(nx());
    else if (a == "--time") timeS = std::stod(nx());
    else if (a == "--paths") maxPaths = std::stoull(nx());
    else if (a == "--instr") lim.instr = std::stoull(nx());
    else if (a == "--query-ms") lim.queryMs = std::stoul(nx());
    else if (a == "--check-ms") lim.checkMs = std::stoul(nx());
    else if (a == "--enum") lim.enumLimit = std::stoul(nx());
    else if (a == "--samples") samples = std::stoul(nx());
    else if (a == "--max-cex") maxCex = std::stoul(nx());
    else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
  }
  LLVMContext C;
  auto M = loadM(argv[2], C);
  if (!M->getFunction(entry) || M->getFunction(entry)->isDeclaration()) { fprintf(stderr, "svsym: no entry %s\n", entry.c_str()); return 2; }
  signal(SIGPIPE, SIG_IGN);
  struct W { pid_t pid = 0; int in = -1, outfd = -1; bool busy = false, dead = false; Task cur; double since = 0; };
  std::vector<W> ws(workers);
  auto spawn = [&](W& w) {
    int a[2], b[2];
    if (pipe(a) || pipe(b)) exit(2);
    pid_t p = fork();
    if (!p) {
      for (auto& o : ws) { if (o.in >= 0) close(o.in); if (o.outfd >= 0) close(o.outfd); }
      close(a[1]); close(b[0]);
      Interp I(*M, real);
      I.lim = lim;
      Buf m;
      while (recvB(a[0], m)) {
        Buf r;
        if (m.u() == 0) {
          auto f = I.functionsEncoded(prefix);
          put(r, PathResult(), SolverStats(), &f);
          sendB(b[1], r);
          break;
        }
        I.wantSample = m.u();
        Task t;
        get(m, t);
        I.S.st = SolverStats();
        PathResult pr;
        try {
          pr = I.runPath(entry, t);
        } catch (std::exception& e) {
          pr.kind = "unsupported";
          pr.msg = e.what();
        }
        put(r, pr, I.S.st, nullptr);
        if (!sendB(b[1], r)) break;
      }
      _exit(0);
    }
    close(a[0]); close(b[1]);
    w.pid = p; w.in = a[1]; w.outfd = b[0]; w.busy = false; w.dead = false;
  };
  for (auto& w : ws) spawn(w);
  std::vector<Task> todo(1);
  double t0 = now();
  uint64_t paths = 0, instrs = 0, branches = 0, forks = 0, crashes = 0, maxInstr = 0;
  std::map<std::string, uint64_t> kinds;
  std::map<std::string, uint64_t> msgs;
  std::map<std::string, CheckStat> checks;
  std::vector<Cex> cexs;
  std::map<std::string, int> cexCount;
  std::vector<Sample> smp;
  SolverStats st;
  std::set<std::string> fns;
  bool stopped = false;
  std::string stopWhy;
  while (true) {
    unsigned busy = 0;
    for (auto& w : ws) busy += w.busy;
    if (!stopped && (now() - t0 > timeS || paths >= maxPaths)) { stopped = true; stopWhy = paths >= maxPaths ? "path limit" : "time limit"; }
    if (!stopped)
      for (auto& w : ws) {
        if (w.busy || todo.empty()) continue;
        // depth first, but spread: the workers start from the shallow end
        Task t;
        if (busy < workers / 2 && todo.size() > 1) { t = std::move(todo.front()); todo.erase(todo.begin()); }
        else { t = std::move(todo.back()); todo.pop_back(); }
        Buf b;
        b.u(1);
        b.u(smp.size() < samples * 8);
        put(b, t);
        w.cur = t;
        w.busy = true;
        w.since = now();
        busy++;
        if (!sendB(w.in, b)) w.dead = true;
      }
    if (!busy) break;
    std::vector<pollfd> pf;
    std::vector<W*> who;
    for (auto& w : ws) if (w.busy) { pf.push_back({w.outfd, POLLIN, 0}); who.push_back(&w); }
    poll(pf.data(), pf.size(), 1000);
    for (size_t i = 0; i < pf.size(); ++i) {
      W& w = *who[i];
      if (!(pf[i].revents & (POLLIN | POLLHUP | POLLERR))) {
        double lim2 = stopped ? 30 : 240;
        if (now() - w.since > lim2 && (stopped || now() - t0 > timeS)) {
          kill(w.pid, SIGKILL);  // no answer in time: counted as unexplored
        } else if (now() - w.since > 300) kill(w.pid, SIGKILL);
        continue;
      }
      Buf b;
      if (!recvB(w.outfd, b)) {
        crashes++;
        kinds["crash"]++;
        paths++;
        close(w.in); close(w.outfd);
        w.in = w.outfd = -1;
        waitpid(w.pid, nullptr, 0);
        spawn(w);
        continue;
      }
      w.busy = false;
      PathResult r;
      SolverStats s;
      get(b, r, s, fns);
      paths++;
      kinds[r.kind]++;
      if (r.kind != "done" && r.kind != "infeasible") msgs[r.kind + ": " + r.msg]++;
      instrs += r.instrs; branches += r.branches; forks += r.forks;
      maxInstr = std::max(maxInstr, r.instrs);
      for (auto& c : r.checks) {
        auto& d = checks[c.first];
        d.reached += c.second.reached; d.proved += c.second.proved; d.cex += c.second.cex; d.unknown += c.second.unknown; d.witness |= c.second.witness;
      }
      for (auto& c : r.cexs)
        if (cexCount[c.id + c.kind]++ < 4 && cexs.size() < 64) cexs.push_back(c);
      for (auto& x : r.samples) if (smp.size() < samples * 8) smp.push_back(x);
      st.queries += s.queries; st.sat += s.sat; st.unsat += s.unsat; st.unknown += s.unknown; st.cached += s.cached;
      st.seconds += s.seconds; st.maxSeconds = std::max(st.maxSeconds, s.maxSeconds);
      for (auto& t : r.fresh) todo.push_back(std::move(t));
      if (cexs.size() >= maxCex && !stopped) { stopped = true; stopWhy = "counterexample limit"; }
    }
  }
  for (auto& w : ws) {
    Buf b;
    b.u(0);
    if (sendB(w.in, b)) {
      Buf r;
      if (recvB(w.outfd, r)) { PathResult pr; SolverStats s; get(r, pr, s, fns); }
    }
    close(w.in); close(w.outfd);
    waitpid(w.pid, nullptr, 0);
  }
  // spread the samples over the exploration
  std::vector<Sample> keep;
  for (size_t i = 0; i < smp.size() && keep.size() < samples; i += std::max<size_t>(1, smp.size() / std::max(1u, samples))) keep.push_back(smp[i]);
  std::ostringstream o;
  o << "{\n \"entry\": " << js(entry) << ",\n \"mode\": \"" << (real ? "real" : "ieee") << "\",\n \"wall_s\": " << now() - t0 << ",\n \"complete\": " << (todo.empty() && !stopped ? "true" : "false")
    << ",\n \"stopped\": " << js(stopWhy) << ",\n \"unexplored\": " << todo.size() << ",\n \"paths\": " << paths << ",\n \"instructions\": " << instrs << ",\n \"max_instructions\": " << maxInstr << ",\n \"branches\": " << branches << ",\n \"forks\": " << forks << ",\n \"kinds\": {";
  bool f = true;
  for (auto& k : kinds) { o << (f ? "" : ", ") << js(k.first) << ": " << k.second; f = false; }
  o << "},\n \"messages\": {"; f = true;
  int nm = 0;
  for (auto& k : msgs) { if (nm++ > 30) break; o << (f ? "" : ",\n  ") << js(k.first) << ": " << k.second; f = false; }
  o << "},\n \"checks\": {"; f = true;
  for (auto& c : checks) { o << (f ? "\n  " : ",\n  ") << js(c.first) << ": {\"reached\": " << c.second.reached << ", \"proved\": " << c.second.proved << ", \"cex\": " << c.second.cex << ", \"unknown\": " << c.second.unknown << ", \"witness\": " << (c.second.witness ? "true" : "false") << "}"; f = false; }
  o << "},\n \"solver\": {\"queries\": " << st.queries << ", \"sat\": " << st.sat << ", \"unsat\": " << st.unsat << ", \"unknown\": " << st.unknown << ", \"cached\": " << st.cached << ", \"seconds\": " << st.seconds << ", \"max_seconds\": " << st.maxSeconds << "},\n \"cexs\": [";
  f = true;
  auto kv = [&](const KV& v) {
    std::string r = "[";
    for (size_t i = 0; i < v.size(); ++i) r += (i ? ", [" : "[") + js(v[i].first) + ", " + js(v[i].second) + "]";
    return r + "]";
  };
  for (auto& c : cexs) { o << (f ? "\n  " : ",\n  ") << "{\"id\": " << js(c.id) << ", \"kind\": " << js(c.kind) << ", \"detail\": " << js(c.detail) << ", \"confirmed\": " << (c.numericallyConfirmed ? "true" : "false") << ", \"values\": " << kv(c.values) << "}"; f = false; }
  o << "],\n \"samples\": ["; f = true;
  for (auto& s : keep) {
    o << (f ? "\n  " : ",\n  ") << "{\"values\": " << kv(s.values) << ", \"obs\": [";
    for (size_t i = 0; i < s.obs.size(); ++i) o << (i ? ", " : "") << js(s.obs[i]);
    o << "]}"; f = false;
  }
  o << "],\n \"functions\": ["; f = true;
  for (auto& s : fns) { o << (f ? "\n  " : ",\n  ") << js(s); f = false; }
  o << "]\n}\n";
  std::ofstream of(out);
  of << o.str();
  return 0;
}

int main(int argc, char** argv) {
  if (argc >= 4 && !strcmp(argv[1], "prep")) return prep(argc, argv);
  if (argc >= 4 && !strcmp(argv[1], "run")) return run(argc, argv);
  fprintf(stderr, "usage: svsym prep OUT.bc IN.bc... | svsym run IN.bc ENTRY [--real] [--out F] [-j N] [--time S]\n");
  return 2;
}
