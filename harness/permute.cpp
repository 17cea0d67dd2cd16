#include "sv.h"
#include <aslam/calibration/algorithms/permute.h>
#include <aslam/calibration/exceptions/OutOfBoundException.h>
#include <stdexcept>
using namespace aslam::calibration;

template <typename T, typename I>
static void run(size_t n, size_t m, T base, bool anySign) {
  std::vector<T> c, old;
  for (size_t i = 0; i < n; ++i) c.push_back(base + (T)sv_int("v", -1000, 1000));
  old = c;
  std::vector<I> p;
  for (size_t i = 0; i < m; ++i) p.push_back((I)sv_int("p", anySign ? -2 : 0, (long)n + 1));
  bool valid = n == m;
  for (size_t i = 0; i < m; ++i) {
    if (p[i] < 0 || p[i] >= (I)n) valid = false;
    for (size_t j = 0; j < i; ++j)
      if (p[i] == p[j]) valid = false;
  }
  bool thrown = false;
  try {
    permute(c, p);
  } catch (const std::exception&) {
    thrown = true;
  }
  sv_check(thrown == !valid, "rejects-exactly-the-non-permutations");
  sv_check(c.size() == n, "size-kept");
  if (!thrown) {
    bool ok = true;
    for (size_t i = 0; i < n; ++i)
      for (size_t j = 0; j < n; ++j)
        if (p[i] == (I)j) ok &= c[i] == old[j];
    sv_check(ok, "element-i-is-old-element-p-i");
  } else {
    bool same = true;
    for (size_t i = 0; i < n; ++i) same &= c[i] == old[i];
    sv_check(same, "rejected-permutation-leaves-the-container-unchanged");
  }
  for (size_t i = 0; i < n; ++i) sv_obs_i("c", (long)c[i]);
}
SV_ENTRY(permute_sizet) {
  size_t n = sv_choose("n", SV_T(5, 6));
  size_t m = n;
  if (sv_choose("mismatch", 2)) m = sv_choose("m", SV_T(5, 6));
  run<long, size_t>(n, m, 0, false);
}
SV_ENTRY(permute_int) {
  size_t n = sv_choose("n", SV_T(4, 5));
  run<long, int>(n, n, 0, true);
}
