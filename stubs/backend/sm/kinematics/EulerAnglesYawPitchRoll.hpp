#pragma once
#include "rotations.hpp"
#include <Eigen/Dense>
namespace sm { namespace kinematics {
// C = Rz(yaw) Ry(pitch) Rx(roll); a change dp of the parameters is the rotation
// perturbation S dp, where a perturbation phi takes C to (1 - [phi x]) C
class EulerAnglesYawPitchRoll {
 public:
  virtual ~EulerAnglesYawPitchRoll() {}
  Eigen::Matrix3d parametersToRotationMatrix(const Eigen::Vector3d& p) const {
    const double cz = std::cos(p(0)), sz = std::sin(p(0)), cy = std::cos(p(1)), sy = std::sin(p(1)), cx = std::cos(p(2)), sx = std::sin(p(2));
    Eigen::Matrix3d C;
    C << cz * cy, cz * sy * sx - sz * cx, cz * sy * cx + sz * sx,
      sz * cy, sz * sy * sx + cz * cx, sz * sy * cx - cz * sx,
      -sy, cy * sx, cy * cx;
    return C;
  }
  Eigen::Vector3d rotationMatrixToParameters(const Eigen::Matrix3d& C) const {
    return Eigen::Vector3d(std::atan2(C(1, 0), C(0, 0)), std::atan2(-C(2, 0), std::sqrt(C(0, 0) * C(0, 0) + C(1, 0) * C(1, 0))), std::atan2(C(2, 1), C(2, 2)));
  }
  Eigen::Matrix3d parametersToSMatrix(const Eigen::Vector3d& p) const {
    const double cz = std::cos(p(0)), sz = std::sin(p(0)), cy = std::cos(p(1)), sy = std::sin(p(1));
    Eigen::Matrix3d S;
    S << 0, sz, -cz * cy, 0, -cz, -sz * cy, -1, 0, sy;
    return S;
  }
};
}}
