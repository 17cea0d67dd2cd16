#include "sv.h"
#include <Eigen/Core>
#include <aslam/calibration/algorithms/matrixOperations.h>
#include <cmath>
#include <limits>
#include <stdexcept>
using namespace aslam::calibration;

SV_ENTRY(sum_log_diag) {
  const int N = SV_T(3, 4);
  int n = 1 + (int)sv_choose("n", N);
  Eigen::MatrixXd R(n, n);
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j) R(i, j) = i == j ? sv_double("d") : sv_double("o");
  // both indices arbitrary, including the exact ends and absurd values
  size_t b = sv_choose("b", n + 2), e = sv_choose("e", n + 2);
  bool valid = b < e && e < (size_t)n, thrown = false;
  double s = 0;
  try {
    s = computeSumLogDiagR(R, b, e);
  } catch (const std::exception&) {
    thrown = true;
  }
  sv_check(thrown == !valid, "rejects-exactly-the-invalid-ranges");
  if (thrown) return;
  double expect = 0;
  for (size_t i = b; i <= e; ++i) {
    double a = std::fabs(R(i, i));
    if (a > std::numeric_limits<double>::epsilon()) expect += std::log2(a);
  }
  sv_check_close(s, expect, "sum-of-log2-of-the-significant-diagonal-entries");
  sv_obs_d("s", s);
}
// the bounds check for arbitrary (unbounded) indices
SV_ENTRY(index_check) {
  Eigen::MatrixXd R(2, (int)sv_choose("cols", 6));
  size_t b = (size_t)sv_int("b", -9223372036854775807L - 1, 9223372036854775807L);
  size_t e = (size_t)sv_int("e", -9223372036854775807L - 1, 9223372036854775807L);
  bool thrown = false;
  try {
    checkColumnIndices(R, b, e);
  } catch (const std::exception&) {
    thrown = true;
  }
  sv_check(thrown == !(b < e && e < (size_t)R.cols()), "index-check-accepts-exactly-begin<end<columns");
}
