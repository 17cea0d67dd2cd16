#pragma once
#include "sv.h"
#include <Eigen/Core>
namespace sm { namespace kinematics {
struct Alignment {
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
  Eigen::MatrixXd to, from;
  Eigen::Matrix4d T;
  int calls;
};
inline Alignment& alignment() { static Alignment a; return a; }
// the transformation from the frame of the second points to that of the first
inline Eigen::Matrix4d threePointSvd(const Eigen::MatrixXd& p0, const Eigen::MatrixXd& p1) {
  Alignment& a = alignment();
  a.to = p0;
  a.from = p1;
  ++a.calls;
  const double t = sv_double("turn"), x = sv_double("shift"), y = sv_double("shift");
  a.T = Eigen::Matrix4d::Identity();
  a.T(0, 0) = a.T(1, 1) = std::cos(t);
  a.T(1, 0) = std::sin(t);
  a.T(0, 1) = -a.T(1, 0);
  a.T(0, 3) = x;
  a.T(1, 3) = y;
  return a.T;
}
}}
