#pragma once
#include "sv.h"
#include <Eigen/Dense>
#include <stdexcept>
#include <vector>
namespace sm { namespace kinematics {
// Quaternions are names of the rotations they stand for: all the code under
// test relies on is that quat2r(r2quat(C)) is C for every rotation matrix C.
inline std::vector<Eigen::Matrix3d, Eigen::aligned_allocator<Eigen::Matrix3d> >& rotations() {
  static std::vector<Eigen::Matrix3d, Eigen::aligned_allocator<Eigen::Matrix3d> > r;
  return r;
}
// harness: whether arguments are checked, and whether either of the two
// quaternions of a rotation may be given
inline bool& checked() { static bool b = true; return b; }
inline bool& eitherSign() { static bool b = false; return b; }
inline void rotation(const Eigen::Matrix3d& C) {
  if (!checked()) return;
  Eigen::Matrix3d I = C * C.transpose();
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j <= i; ++j) sv_check_close(I(i, j), i == j, "argument-is-a-rotation-matrix");
  Eigen::Vector3d z = C.col(0).cross(C.col(1));
  for (int i = 0; i < 3; ++i) sv_check_close(z(i), C(i, 2), "argument-is-a-proper-rotation-matrix");
}
inline Eigen::Vector4d r2quat(const Eigen::Matrix3d& C) {
  rotation(C);
  rotations().push_back(C);
  Eigen::Vector4d q(-7, 11, 13, rotations().size() - 1);
  if (eitherSign() && sv_choose("sign", 2)) q = -q;
  return q;
}
inline Eigen::Matrix3d quat2r(Eigen::Vector4d q) {
  if (q(0) > 0) q = -q;
  if (q(0) != -7 || q(1) != 11 || q(2) != 13 || !(q(3) >= 0 && q(3) < rotations().size())) throw std::runtime_error("not a rotation");
  return rotations()[(size_t)q(3)];
}
}}
