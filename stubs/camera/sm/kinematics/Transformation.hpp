#pragma once
#include_next <sm/kinematics/Transformation.hpp>
namespace sm { namespace kinematics {
inline Eigen::Vector4d operator*(const Transformation& T, const Eigen::Vector4d& p) {
  Eigen::Matrix4d M = T.T();
  return Eigen::Vector4d(M.row(0).dot(p), M.row(1).dot(p), M.row(2).dot(p), M.row(3).dot(p));
}
}}
