// Native counterpart of the symbolic engine: runs one harness entry on
// recorded input values against the really compiled code.
#include "sv.h"
#include <cmath>
#include <csetjmp>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <exception>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace {
std::map<std::string, std::string> values;
std::map<std::string, int> count;
bool quiet = false, failed = false;
std::string perturb;
double delta = 0;
std::vector<std::pair<std::string, double>> diffs;  // (input, e) of this run
std::vector<double> derivs;
size_t diffIdx = 0;
bool haveDerivs = false;
struct Stop {};

std::string next(const char* n) {
  std::string k = n;
  for (char& c : k)
    if (c == ' ') c = '_';
  return k + "#" + std::to_string(count[k]++);
}
double num(const std::string& s) {
  if (s == "nan" || s == "-nan") return std::nan("");
  return strtod(s.c_str(), nullptr);
}
bool isReal = false;
}
extern "C" {
double sv_double(const char* n) {
  std::string k = next(n);
  auto it = values.find(k);
  double d = it == values.end() ? 0.5 : num(it->second);
  if (!perturb.empty() && (k == perturb || k == perturb + "#0")) d += delta;
  return d;
}
float sv_float(const char* n) { return (float)sv_double(n); }
long sv_int(const char* n, long lo, long hi) {
  auto it = values.find(next(n));
  long v = it == values.end() ? lo : strtol(it->second.c_str(), nullptr, 10);
  if (v < lo || v > hi) {
    if (!quiet && !failed) printf("ASSUME-FAIL\n");
    throw Stop();
  }
  return v;
}
long sv_choose(const char* n, long k) { return sv_int(n, 0, k - 1); }
long sv_rand(const char* n) {
  auto it = values.find(next(n));
  double d = it == values.end() ? 0.5 : num(it->second);
  if (isReal) d *= 2147483647.0;
  return d <= 0 ? 0 : d >= 2147483647.0 ? 2147483647 : std::lround(d);
}
long sv_lint(const char* n, long lo, long hi) {
  auto it = values.find(next(n));
  long v = it == values.end() ? lo : std::lround(num(it->second));
  return v < lo ? lo : v > hi ? hi : v;
}
void sv_lazy_int(bool) {}
long sv_concretize(long v) { return v; }
bool sv_bool(const char* n) {
  auto it = values.find(next(n));
  return it != values.end() && it->second != "0";
}
void sv_assume(bool c) {
  if (!c) {
    if (!quiet && !failed) printf("ASSUME-FAIL\n");
    throw Stop();
  }
}
void sv_check(bool c, const char* id) {
  if (!c) {
    if (!quiet) printf("FAIL %s\n", id);
    failed = true;
  }
}
void sv_check_close(double a, double b, const char* id) {
  bool ok = a == b || (std::isnan(a) && std::isnan(b));
  if (!ok && isReal) ok = std::fabs(a - b) <= 1e-6 * (1 + std::fmax(std::fabs(a), std::fabs(b)));
  if (!ok && haveDerivs) ok = std::fabs(a - b) <= 1e-5 * (1 + std::fmax(std::fabs(a), std::fabs(b)));
  if (!ok) {
    if (!quiet) printf("FAIL %s (%.17g vs %.17g)\n", id, a, b);
    failed = true;
  }
}
double sv_diff(double e, const char* input) {
  diffs.push_back({input, e});
  if (haveDerivs) return diffIdx < derivs.size() ? derivs[diffIdx++] : 0;
  return 0;
}
void sv_obs_i(const char* n, long v) { if (!quiet) printf("OBS i %s %ld\n", n, v); }
void sv_obs_d(const char* n, double v) { if (!quiet) printf("OBS d %s %.17g\n", n, v); }
int sv_symbolic() { return 0; }
int sv_real() { return isReal; }
}
static int once(void (*fn)()) {
  count.clear();
  diffs.clear();
  diffIdx = 0;
  try {
    fn();
  } catch (Stop&) {
    return failed ? 0 : 4;
  } catch (std::exception& e) {
    if (!quiet) printf("UNCAUGHT %s\n", e.what());
    return 5;
  }
  return 0;
}
int main(int argc, char** argv) {
  setvbuf(stdout, nullptr, _IOLBF, 0);
  if (argc < 4) return 2;
  isReal = !strcmp(argv[3], "real");
  void (*fn)() = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
  if (!fn) {
    printf("no entry %s\n", argv[1]);
    return 2;
  }
  std::ifstream f(argv[2]);
  std::string k, v;
  while (f >> k >> v) values[k] = v;
  quiet = true;
  bool usesDiff = argc > 4 && !strcmp(argv[4], "diff");
  if (usesDiff) {
    once(fn);
    auto base = diffs;
    std::set<std::string> ins;
    for (auto& d : base) ins.insert(d.first);
    derivs.assign(base.size(), 0);
    for (auto& in : ins) {
      const double h = 1e-6;
      perturb = in;
      delta = h;
      once(fn);
      auto up = diffs;
      delta = -h;
      once(fn);
      auto dn = diffs;
      for (size_t i = 0; i < base.size() && i < up.size() && i < dn.size(); ++i)
        if (base[i].first == in) derivs[i] = (up[i].second - dn[i].second) / (2 * h);
    }
    perturb.clear();
    haveDerivs = true;
  }
  quiet = false;
  failed = false;
  int r = once(fn);
  printf("END %d\n", r);
  if (failed) return 3;
  return r;
}
