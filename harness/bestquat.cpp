// The choice between a quaternion and its negation.
#include "sv.h"
#include <cmath>
#if defined(CAR)
#include <aslam/calibration/car/algo/bestQuat.h>
#elif defined(EGO)
#include <aslam/calibration/egomotion/algo/bestQuat.h>
#else
#include <aslam/calibration/time-delay/algo/bestQuat.h>
#endif
using aslam::calibration::bestQuat;
static Eigen::Vector4d vec(const char* n) {
  Eigen::Vector4d v;
  for (int i = 0; i < 4; ++i) v(i) = sv_double(n);
  return v;
}
SV_ENTRY(best_quat) {
  Eigen::Vector4d p = vec("previous"), c = vec("current"), b = bestQuat(p, c);
  bool same = b == c, opposite = b == -c;
  sv_check(same || opposite, "result-is-the-quaternion-or-its-negation");
  sv_check((p - b).squaredNorm() <= (p + b).squaredNorm(), "result-is-the-closer-one");
  sv_check(p.dot(b) >= 0, "result-is-in-the-same-half-space");
}
// whole sequences have no jumps
SV_ENTRY(best_quat_sequence) {
  Eigen::Vector4d p = vec("q");
  for (int i = 0; i < 3; ++i) {
    Eigen::Vector4d c = vec("q"), b = bestQuat(p, c);
    sv_check(p.dot(b) >= 0, "result-is-in-the-same-half-space");
    p = b;
  }
}
