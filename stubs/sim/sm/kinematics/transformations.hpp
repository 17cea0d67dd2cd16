#pragma once
#include <Eigen/Core>
namespace sm { namespace kinematics {
inline Eigen::Matrix4d rt2Transform(const Eigen::Matrix3d& C, const Eigen::Vector3d& t) {
  Eigen::Matrix4d m = Eigen::Matrix4d::Identity();
  m.topLeftCorner<3, 3>() = C;
  m.topRightCorner<3, 1>() = t;
  return m;
}
}}
