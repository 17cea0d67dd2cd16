// the harness interface of the stand-ins, without a solver: arbitrary values
// are a fixed sequence
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <deque>
__attribute__((weak)) std::deque<double> svValues;
__attribute__((weak)) std::deque<long> svChoices;
inline double sv_double(const char*) {
  static int n = 0;
  if (svValues.empty()) return 0.25 + 0.5 * std::sin(1.7 * ++n);
  double x = svValues.front();
  svValues.pop_front();
  return x;
}
inline long sv_choose(const char*, long n) {
  if (svChoices.empty()) return 0;
  long x = svChoices.front();
  svChoices.pop_front();
  return x;
}
inline void sv_check(bool c, const char* id) {
  if (!c) { std::printf("failed: %s\n", id); std::exit(1); }
}
inline void sv_check_close(double a, double b, const char* id) { sv_check(std::fabs(a - b) <= 1e-9 * (1 + std::fabs(b)), id); }
inline bool sv_bool(const char* n) { return sv_choose(n, 2); }
inline long sv_int(const char* n, long lo, long hi) { return lo + sv_choose(n, hi - lo + 1); }
inline long sv_lint(const char*, long lo, long hi) {
  static long n = 0;
  return lo + (hi - lo) / 4 + 10 * ++n;
}
inline double sv_real_in(const char*, double lo, double hi) {
  static int n = 0;
  return lo + (hi - lo) * (0.25 + 0.2 * std::sin(1.3 * ++n));
}
inline void sv_lazy_int(bool) {}
inline void sv_assume(bool c) {
  if (!c) { std::printf("unexpected\n"); std::exit(2); }
}
#define SV_T(q, t) (t)
#define SV_ENTRY(name) extern "C" void sv_entry_##name()
