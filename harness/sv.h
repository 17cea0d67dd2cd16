// Harness interface.  Under the symbolic engine these calls create symbolic
// inputs and proof obligations; in a native build (native/sv_native.cpp) they
// read recorded values and evaluate the obligations.
#pragma once
#include <cstddef>
#include <cstdint>

extern "C" {
double sv_double(const char* name);                    // any double (real mode: any real)
float sv_float(const char* name);
long sv_int(const char* name, long lo, long hi);       // symbolic integer in [lo, hi]
long sv_choose(const char* name, long n);              // concrete integer in [0, n), one path each
long sv_rand(const char* name);                        // a result of random(), real mode: any fraction of RAND_MAX
long sv_lint(const char* name, long lo, long hi);      // real mode: an integer that only matters as a number
void sv_lazy_int(bool on);                             // real mode: keep integers converted from reals symbolic
long sv_concretize(long v);                            // one path per feasible value
bool sv_bool(const char* name);
void sv_assume(bool c);
void sv_check(bool c, const char* id);
void sv_check_close(double a, double b, const char* id);  // equal (exactly, in the engine's number domain)
double sv_diff(double e, const char* input);           // d e / d input
void sv_obs_i(const char* name, long v);
void sv_obs_d(const char* name, double v);
int sv_symbolic();
int sv_real();
}

inline double sv_real_in(const char* n, double lo, double hi) {
  double x = sv_double(n);
  sv_assume(x >= lo && x <= hi);
  return x;
}

#ifndef SV_TIER
#define SV_TIER 0
#endif
#define SV_T(quick, thorough) (SV_TIER ? (thorough) : (quick))
#define SV_ENTRY(name) extern "C" __attribute__((used)) void sv_entry_##name()
